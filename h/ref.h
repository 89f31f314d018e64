// Reference vocabulary: shapes as plain vectors of (min, extent, stride), written without the library.
#pragma once
#include "mc.h"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <tuple>
#include <utility>
#include "array/array.h"

namespace ref {

using mc::ctx;
using nda::index_t;
using idx = std::vector<long>;

struct rd {  // reference dim
  long min, extent, stride;
  long max() const { return min + extent - 1; }
  bool operator==(const rd& o) const { return min == o.min && extent == o.extent && stride == o.stride; }
};
using rshape = std::vector<rd>;

inline std::string str(const rshape& s) {
  std::string r = "{";
  for (auto& d : s) {
    r += "{" + std::to_string(d.min) + "," + std::to_string(d.extent) + ",";
    r += (d.stride == (long)nda::unresolved ? std::string("?") : std::to_string(d.stride)) + "}";
  }
  return r + "}";
}
inline std::string str(const idx& i) {
  std::string r = "(";
  for (size_t k = 0; k < i.size(); k++) r += (k ? "," : "") + std::to_string(i[k]);
  return r + ")";
}
inline long size(const rshape& s) { long n = 1; for (auto& d : s) n *= d.extent; return n; }
inline bool empty(const rshape& s) { return size(s) <= 0; }
inline long offset(const rshape& s, const idx& i) {
  long o = 0; for (size_t k = 0; k < s.size(); k++) o += (i[k] - s[k].min) * s[k].stride; return o;
}
inline bool contains(const rshape& s, const idx& i) {
  for (size_t k = 0; k < s.size(); k++) if (i[k] < s[k].min || i[k] >= s[k].min + s[k].extent) return false;
  return true;
}
// First dim innermost. `order` lists dims innermost first.
template <class F> void each_in_order(const rshape& s, const std::vector<int>& order, F&& f) {
  if (empty(s)) return;
  idx i(s.size());
  for (size_t k = 0; k < s.size(); k++) i[k] = s[k].min;
  for (;;) {
    f(i);
    size_t p = 0;
    for (; p < order.size(); p++) {
      int d = order[p];
      if (++i[d] < s[d].min + s[d].extent) break;
      i[d] = s[d].min;
    }
    if (p == order.size()) return;
  }
}
template <class F> void each(const rshape& s, F&& f) {
  std::vector<int> o(s.size()); for (size_t k = 0; k < o.size(); k++) o[k] = (int)k;
  each_in_order(s, o, f);
}
struct span { long lo, hi; long extent() const { return hi - lo + 1; } };
inline span flat_span(const rshape& s) {  // of a non-empty shape
  span r{0, 0};
  for (auto& d : s) { long e = (d.extent - 1) * d.stride; if (e < 0) r.lo += e; else r.hi += e; }
  return r;
}
inline std::vector<long> offsets(const rshape& s) { std::vector<long> v; each(s, [&](const idx& i) { v.push_back(offset(s, i)); }); return v; }
inline bool injective(const rshape& s) {
  auto v = offsets(s); std::sort(v.begin(), v.end());
  return std::adjacent_find(v.begin(), v.end()) == v.end();
}
// The strides of the dims with extent > 1 nest: sorted by magnitude, each is at least the span of the smaller.
inline bool nested(const rshape& s) {
  std::vector<rd> d; for (auto& x : s) if (x.extent > 1 && x.stride != 0) d.push_back(x);
  for (size_t a = 0; a < d.size(); a++) for (size_t b = 0; b < d.size(); b++) if (a != b) {
    long sa = std::labs(d[a].stride), sb = std::labs(d[b].stride);
    if (!(sa * d[a].extent <= sb || sb * d[b].extent <= sa)) return false;
  }
  return true;
}

// ---- library side -------------------------------------------------------------------------------------
template <class Shape> using dims_of = typename Shape::dims_type;
template <class Shape, size_t I> using dim_of = typename std::tuple_element<I, dims_of<Shape>>::type;

template <class Dim> Dim to_dim(const rd& r) { return Dim((index_t)r.min, (index_t)r.extent, r.stride == (long)nda::unresolved ? nda::unresolved : (index_t)r.stride); }
template <class Shape, size_t... I> Shape to_shape_(const rshape& r, std::index_sequence<I...>) { return Shape(to_dim<dim_of<Shape, I>>(r[I])...); }
template <class Shape, std::enable_if_t<(Shape::rank() > 0), int> = 0> Shape to_shape(const rshape& r) { return to_shape_<Shape>(r, std::make_index_sequence<Shape::rank()>()); }
template <class Shape, std::enable_if_t<(Shape::rank() == 0), int> = 0> Shape to_shape(const rshape&) { return Shape(); }

// Read a library shape back, dimension by dimension, through its public accessors.
template <class Shape, size_t... I> rshape from_shape_(const Shape& s, std::index_sequence<I...>) {
  return rshape{rd{(long)s.template dim<I>().min(), (long)s.template dim<I>().extent(), s.template dim<I>().stride() == nda::unresolved ? (long)nda::unresolved : (long)s.template dim<I>().stride()}...};
}
template <class Shape> rshape from_shape(const Shape& s) { return from_shape_(s, std::make_index_sequence<Shape::rank()>()); }

template <size_t R, size_t... I> auto to_tuple_(const idx& v, std::index_sequence<I...>) { return std::tuple<decltype((void)I, index_t())...>((index_t)v[I]...); }
template <size_t R> auto to_tuple(const idx& v) { return to_tuple_<R>(v, std::make_index_sequence<R>()); }
template <class Tuple, size_t... I> idx from_tuple_(const Tuple& t, std::index_sequence<I...>) { return idx{(long)std::get<I>(t)...}; }
template <class Tuple> idx from_tuple(const Tuple& t) { return from_tuple_(t, std::make_index_sequence<std::tuple_size<Tuple>::value>()); }
template <class F, size_t... I> decltype(auto) call_with(F&& f, const idx& v, std::index_sequence<I...>) { return f((index_t)v[I]...); }
// f(i0, i1, ...) as separate arguments
template <size_t R, class F> decltype(auto) spread(F&& f, const idx& v) { return call_with(f, v, std::make_index_sequence<R>()); }

// ---- alphabets ----------------------------------------------------------------------------------------
struct alphabet { std::vector<long> mins, extents, strides; };
constexpr long UN = (long)nda::unresolved;
template <class Dim> rd pick_dim(ctx& c, const alphabet& a) {
  rd r;
  r.min = Dim::Min != nda::dynamic ? (long)Dim::Min : c.pick(a.mins);
  r.extent = Dim::Extent != nda::dynamic ? (long)Dim::Extent : c.pick(a.extents);
  r.stride = Dim::Stride != nda::dynamic ? (long)Dim::Stride : c.pick(a.strides);
  return r;
}
template <class Shape, size_t... I> rshape pick_shape_(ctx& c, const alphabet& a, std::index_sequence<I...>) { return rshape{pick_dim<dim_of<Shape, I>>(c, a)...}; }
// Large mode: one dim takes every size to past 40 and sizes around powers of two to 4097, the others are small; strides come from six layouts.
inline int& large_mode() { static int m = 0; return m; }
inline std::vector<long> large_extents() {
  std::vector<long> v;
  if (large_mode() == 3) v = mc::thorough() ? std::vector<long>{7, 8, 9, 16, 17, 31, 33, 65, 129, 257} : std::vector<long>{8, 17, 33, 65};
  else if (large_mode() == 2 && !mc::thorough()) v = {7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257, 1025};
  else {
    for (long e = 4; e <= 40; e++) v.push_back(e);
    for (long e : {48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}) v.push_back(e);
    if (mc::thorough()) for (long e : {2047, 2048, 2049, 4095, 4096, 4097}) v.push_back(e); else v.push_back(4097);
  }
  return v;
}
// Strides of the run-time dims for given extents: 0 packed, first dim fastest; 1 packed, last dim fastest; 2 padded; 3 mirrored; 4 every second element; 5 automatic.
template <class Shape, size_t... I> std::vector<rd> statics_of_(std::index_sequence<I...>) { return std::vector<rd>{rd{(long)dim_of<Shape, I>::Min, (long)dim_of<Shape, I>::Extent, (long)dim_of<Shape, I>::Stride}...}; }
template <class Shape> std::vector<rd> statics_of() { return statics_of_<Shape>(std::make_index_sequence<Shape::rank()>()); }
inline void set_layout(rshape& r, const std::vector<rd>& st, int layout) {
  long next = 1;
  for (size_t k = 0; k < r.size(); k++) { r[k].stride = st[k].stride; if (st[k].stride != (long)nda::dynamic) next = std::max(next, std::labs(st[k].stride) * std::max(1l, r[k].extent)); }
  if (layout == 4) next *= 2;
  for (size_t n = 0; n < r.size(); n++) {
    size_t k = layout == 1 || layout == 3 ? r.size() - 1 - n : n;
    if (st[k].stride != (long)nda::dynamic) continue;
    if (layout == 5) { r[k].stride = UN; continue; }
    r[k].stride = layout == 3 ? -next : next;
    next *= std::max(1l, r[k].extent);
    if (layout == 2) next += 3;
  }
}
template <class Shape> rshape pick_large(ctx& c, const alphabet& a) {
  constexpr size_t R = Shape::rank();
  auto st = statics_of<Shape>();
  std::vector<int> dyn; for (size_t k = 0; k < R; k++) if (st[k].extent == (long)nda::dynamic) dyn.push_back((int)k);
  int big = dyn.empty() ? -1 : dyn[c.choose((int)dyn.size())];
  bool autos = std::find(a.strides.begin(), a.strides.end(), UN) != a.strides.end();
  rshape r(R);
  for (size_t k = 0; k < R; k++) {
    r[k].extent = st[k].extent != (long)nda::dynamic ? st[k].extent : (int)k == big ? c.pick(large_extents()) : c.pick(R == 2 ? std::vector<long>{1, 2, 3} : R == 3 ? std::vector<long>{1, 3} : std::vector<long>{2});
    r[k].min = st[k].min != (long)nda::dynamic ? st[k].min : (int)k == big ? c.pick({0l, -7l}) : 1;
  }
  set_layout(r, st, c.choose(autos ? 6 : 5));
  return r;
}
// Ranked mode, for ranks from 4: the dims in every order in memory (all permutations to rank 5, and 6 in the thorough tier; else the rotations, exchanges and the reverse),
// with one or all of them mirrored, padding after one of them, and run-time extents of 1 to 3.
inline const std::vector<std::vector<int>>& memory_orders(size_t R, bool few) {
  static std::map<std::pair<size_t, bool>, std::vector<std::vector<int>>> memo;
  auto& v = memo[std::make_pair(R, few)];
  if (!v.empty()) return v;
  std::vector<int> id; for (size_t k = 0; k < R; k++) id.push_back((int)k);
  if (!few && R <= (mc::thorough() ? 6u : 5u)) { std::vector<int> o = id; do v.push_back(o); while (std::next_permutation(o.begin(), o.end())); return v; }
  std::set<std::vector<int>> u; auto add = [&](const std::vector<int>& o) { if (u.insert(o).second) v.push_back(o); };
  add(id); add(std::vector<int>(id.rbegin(), id.rend()));
  for (size_t k = 1; k < R; k++) if (!few || k == 1 || k + 2 == R) { std::vector<int> o = id; std::rotate(o.begin(), o.begin() + k, o.end()); add(o); }
  for (size_t k = 0; k < R; k++) for (size_t l = 0; l < k; l++) if (!few || (l == 1 && k == 2)) { std::vector<int> o = id; std::swap(o[k], o[l]); add(o); }
  return v;
}
inline void ranked_layout(ctx& c, rshape& r, const std::vector<rd>& st, bool autos, bool few) {
  const size_t R = r.size();
  const std::vector<int> order = memory_orders(R, few)[c.choose((int)memory_orders(R, few).size())];
  // in memory order: which dim is mirrored (R: none, R + 1: all), after which one there is padding (R: none)
  const std::vector<size_t> flips = few ? std::vector<size_t>{R, 1, R + 1} : R <= 5 ? std::vector<size_t>{R, 0, 1, 2, R - 1, R + 1} : std::vector<size_t>{R, 0, R - 2, R + 1};
  const std::vector<size_t> pads = few ? std::vector<size_t>{R, 1} : R <= 5 ? std::vector<size_t>{R, 0, 1, R - 2} : std::vector<size_t>{R, 0, 2, R - 2};
  const size_t f = flips[c.choose((int)flips.size())], p = pads[c.choose((int)pads.size())];
  const int automatic = autos ? c.choose(few ? 2 : 4) : 0;  // none, every second one, all but the outermost, all
  long next = 1;
  for (size_t k = 0; k < R; k++) if (st[k].stride != (long)nda::dynamic) { r[k].stride = st[k].stride; next = std::max(next, std::labs(st[k].stride) * std::max(1l, r[k].extent)); }
  for (size_t n = 0; n < R; n++) {
    size_t k = (size_t)order[n];
    if (st[k].stride != (long)nda::dynamic) continue;
    r[k].stride = f == n || f == R + 1 ? -next : next;
    next *= std::max(1l, r[k].extent);
    if (p == n) next += 1;
    if (automatic == 3 || (automatic == 1 && (few || n % 2)) || (automatic == 2 && n + 1 < R)) r[k].stride = UN;
  }
}
template <class Shape> rshape pick_ranked(ctx& c, const alphabet& a) {
  constexpr size_t R = Shape::rank();
  auto st = statics_of<Shape>();
  int e = c.choose(4);  // 3: an empty shape
  rshape r(R);
  for (size_t k = 0; k < R; k++) {
    r[k].extent = st[k].extent != (long)nda::dynamic ? st[k].extent : e == 0 ? 2 : e == 3 ? (k == R - 2 ? 0 : 2) : e == 1 ? 1 + (long)((k + R) % 3) : R <= 5 ? 3 - (long)(k % 2) : 2 - (long)(k % 2);
    r[k].min = st[k].min != (long)nda::dynamic ? st[k].min : (long)((k + 1) % 3) - 1;
  }
  ranked_layout(c, r, st, std::find(a.strides.begin(), a.strides.end(), UN) != a.strides.end(), large_mode() == 5);
  return r;
}
template <class Shape, bool> struct pick_ranked_ { static rshape get(ctx& c, const alphabet& a) { return pick_ranked<Shape>(c, a); } };
template <class Shape> struct pick_ranked_<Shape, false> { static rshape get(ctx&, const alphabet&) { mc::fail("ranked mode is for ranks from 4"); return rshape(); } };
template <class Shape> rshape pick_shape(ctx& c, const alphabet& a) {
  if (large_mode() >= 4) return pick_ranked_<Shape, (Shape::rank() >= 4)>::get(c, a);
  if (large_mode()) return pick_large<Shape>(c, a);
  return pick_shape_<Shape>(c, a, std::make_index_sequence<Shape::rank()>());
}
// A box inside a large one for another shape type: all of it, or all but its first or last places along the large dims.
template <class Shape> bool pick_within(ctx& c, const rshape& of, const alphabet& a, rshape& r) {
  auto st = statics_of<Shape>(); r = of;
  if (large_mode() >= 4) {
    int cut = c.choose(4); // nothing, the first place of one dim and the last of another, all but one place of every second dim, all of a dim
    if (cut == 3) r[1].extent = 0;
    for (size_t k = 0; k < r.size(); k++) if (r[k].extent > 1 && ((cut == 1 && (k == 1 || k == 2)) || (cut == 2 && k % 2))) { if (k != 2) r[k].min++; r[k].extent--; }
    for (size_t k = 0; k < r.size(); k++) {
      if ((st[k].min != (long)nda::dynamic && st[k].min != r[k].min) || (st[k].extent != (long)nda::dynamic && st[k].extent != r[k].extent)) return false;
    }
    ranked_layout(c, r, st, std::find(a.strides.begin(), a.strides.end(), UN) != a.strides.end(), true);
    return true;
  }
  int cut = c.choose(4);
  for (size_t k = 0; k < r.size(); k++) if (r[k].extent >= 4) { if (cut & 1) { r[k].min++; r[k].extent--; } if (cut & 2) r[k].extent--; }
  for (size_t k = 0; k < r.size(); k++) {
    if ((st[k].extent != (long)nda::dynamic && st[k].extent > r[k].extent) || (st[k].min != (long)nda::dynamic && (st[k].min < r[k].min || st[k].min > r[k].max()))) return false;
    if (st[k].min != (long)nda::dynamic) { r[k].extent -= st[k].min - r[k].min; r[k].min = st[k].min; }
    if (st[k].extent != (long)nda::dynamic) { if (st[k].extent > r[k].extent) return false; r[k].extent = st[k].extent; }
  }
  set_layout(r, st, c.choose(std::find(a.strides.begin(), a.strides.end(), UN) != a.strides.end() ? 6 : 5));
  return true;
}
// The same harness body with large extents.
template <template <class> class Body, int Mode = 1> struct large_ {
  template <class T> struct body {
    static std::string name() { return Body<T>::name(); }
    static void run(ctx& c) { struct g { g() { large_mode() = Mode; } ~g() { large_mode() = 0; } } guard; Body<T>::run(c); }
  };
};

// The same harness body with high ranks. Few: fewer layouts.
template <template <class> class Body, bool Few = false> using ranked_ = large_<Body, Few ? 5 : 4>;

// ---- type lists ---------------------------------------------------------------------------------------
template <class... T> struct types {};
template <class A, class B> struct concat_;
template <class... A, class... B> struct concat_<types<A...>, types<B...>> { using type = types<A..., B...>; };
template <class... L> struct concat { using type = types<>; };
template <class L0, class... L> struct concat<L0, L...> { using type = typename concat_<L0, typename concat<L...>::type>::type; };
// all shapes whose dims are drawn from the list
template <class Shape, class Dim> struct append_dim;
template <class... D, class Dim> struct append_dim<nda::shape<D...>, Dim> { using type = nda::shape<D..., Dim>; };
template <class Shapes, class Dims> struct cross;
template <class Dims> struct cross<types<>, Dims> { using type = types<>; };
template <class S0, class... S, class... D> struct cross<types<S0, S...>, types<D...>> {
  using type = typename concat_<types<typename append_dim<S0, D>::type...>, typename cross<types<S...>, types<D...>>::type>::type;
};
template <size_t R, class Dims> struct all_shapes { using type = typename cross<typename all_shapes<R - 1, Dims>::type, Dims>::type; };
template <class Dims> struct all_shapes<0, Dims> { using type = types<nda::shape<>>; };

template <class Dim> std::string dim_name() {
  auto f = [](long v) { return v == nda::dynamic ? std::string("*") : std::to_string(v); };
  return "<" + f(Dim::Min) + "," + f(Dim::Extent) + "," + f(Dim::Stride) + ">";
}
template <class S> struct shape_name_;
template <class... D> struct shape_name_<nda::shape<D...>> { static std::string get() { std::string r = "shape"; int d[] = {0, (r += dim_name<D>(), 0)...}; (void)d; return r; } };
template <class S> std::string shape_name() { return shape_name_<S>::get(); }

// Registers suite body<T>() for each T of the list; PART/PARTS split the list over translation units.
#ifndef PART
#define PART 0
#define PARTS 1
#endif
template <template <class> class Body> struct register_all {
  int n = 0;
  const char* prefix;
  template <class T> int one(bool) {
    std::string nm = std::string(prefix) + " " + Body<T>::name();
    mc::suites().push_back({nm, [](ctx& c) { Body<T>::run(c); }, ""});
    return 0;
  }
  template <class... T> register_all(const char* p, types<T...>) : prefix(p) { int d[] = {0, one<T>(true)...}; (void)d; }
};
// The sub-list of every PARTS-th element.
template <class Acc, class... L> struct flat { using type = Acc; };
template <class... Acc, class... A, class... L> struct flat<types<Acc...>, types<A...>, L...> { using type = typename flat<types<Acc..., A...>, L...>::type; };
template <class... Acc, class... A, class... B, class... C, class... D, class... E, class... F, class... G, class... H, class... L>
struct flat<types<Acc...>, types<A...>, types<B...>, types<C...>, types<D...>, types<E...>, types<F...>, types<G...>, types<H...>, L...> { using type = typename flat<types<Acc..., A..., B..., C..., D..., E..., F..., G..., H...>, L...>::type; };
template <int K, int N, class I, class L> struct every_;
template <int K, int N, size_t... I, class... T> struct every_<K, N, std::index_sequence<I...>, types<T...>> { using type = typename flat<types<>, typename std::conditional<I % N == K, types<T>, types<>>::type...>::type; };
template <int K, int N, int, class L> struct every;
template <int K, int N, int Pos, class... T> struct every<K, N, Pos, types<T...>> : every_<K, N, std::make_index_sequence<sizeof...(T)>, types<T...>> {};
template <class L> using part = typename every<PART, PARTS, 0, L>::type;

// Whole-buffer comparison: a buffer of sentinels with a model of its expected contents.
template <class T> struct guarded {
  std::vector<T> mem, want;
  long origin;  // index of the element with flat offset 0
  template <class G> guarded(long lo, long hi, long pad, G&& g) : mem(hi - lo + 1 + 2 * pad), origin(pad - lo) {
    for (size_t i = 0; i < mem.size(); i++) mem[i] = g((long)i);
    want = mem;
  }
  T* base() { return mem.data() + origin; }
  T& model(long off) { return want.at(origin + off); }
  bool in(const T* p) const { return p >= mem.data() && p < mem.data() + mem.size(); }
  long off(const T* p) const { return p - (mem.data() + origin); }
  void check(const char* what) {
    for (size_t i = 0; i < mem.size(); i++)
      if (!(mem[i] == want[i])) mc::fail("%s: buffer element at flat offset %ld differs from the model", what, (long)i - origin);
  }
};

}  // namespace ref
