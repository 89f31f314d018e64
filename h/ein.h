// Einstein expressions over enumerated operands, beside reference loop nests.
#pragma once
#include "ref.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"

namespace ein_ {
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::shape; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;

enum kind { REF, CREF, ARR, CARR, SCALAR, PTR, CARRAY };
// An array-like operand of an expression: what it is, its shape type, and the loop indices that address it.
template <kind K, class S, size_t... I> struct opnd {
  static constexpr kind K_ = K;
  using shape = S;
  static constexpr size_t R = S::rank();
  static std::vector<int> ix() { return {(int)I...}; }
  template <class X> static auto ein(X&& x) { return nda::ein<I...>(std::forward<X>(x)); }
};
struct bound { long min, extent; long max() const { return min + extent - 1; } };

template <class S, size_t... I> void statics_(std::vector<rd>& v, std::index_sequence<I...>) { v = {rd{(long)dim_of<S, I>::Min, (long)dim_of<S, I>::Extent, (long)dim_of<S, I>::Stride}...}; }
template <class S> std::vector<rd> statics() { std::vector<rd> v; statics_<S>(v, std::make_index_sequence<S::rank()>()); return v; }
constexpr long DYN = (long)nda::dynamic;

// Strides for given bounds: 0 packed first dim fastest, 1 padded last dim fastest, 2 reversed (negative) and padded, 3 broadcast.
inline bool lay_out(rshape& r, const std::vector<rd>& st, int layout) {
  std::vector<size_t> order; for (size_t k = 0; k < r.size(); k++) order.push_back(k);
  if (layout == 1 || layout == 2) std::reverse(order.begin(), order.end());
  long next = 1;
  for (size_t k = 0; k < r.size(); k++) r[k].stride = UN;
  for (size_t k = 0; k < r.size(); k++) if (st[k].stride != DYN) { r[k].stride = st[k].stride; next = std::max(next, std::labs(st[k].stride) * std::max(1l, r[k].extent)); }
  for (size_t k : order) {
    if (r[k].stride != UN) continue;
    if (layout == 3) { r[k].stride = k % 2 ? 0 : next; if (!(k % 2)) next *= std::max(1l, r[k].extent); continue; }
    if (layout == 1 || layout == 2) next += 1;
    r[k].stride = layout == 2 ? -next : next;
    next *= std::max(1l, r[k].extent);
  }
  return true;
}

// A materialised operand.
template <class O> struct mat {
  using S = typename O::shape;
  rshape r;
  std::vector<long> mem, want;
  long* base;
  std::unique_ptr<nda::array<long, S>> arr;
  void make(const rshape& r_, long seed) {
    r = r_;
    span f = ref::empty(r) ? span{0, 0} : flat_span(r);
    mem.assign(f.extent() + 8, 0);
    for (size_t k = 0; k < mem.size(); k++) mem[k] = (long)((k * 37 + seed * 101) % 97) + 1;
    base = mem.data() + 4 - f.lo;
    if (O::K_ == ARR || O::K_ == CARR) {
      arr.reset(new nda::array<long, S>(to_shape<S>(r)));
      if (S::rank() == 0) arr->base()[0] = base[0]; else each(r, [&](const idx& i) { arr->base()[offset(r, i)] = base[offset(r, i)]; });
    }
  }
  long at(const idx& i) const { return (O::K_ == ARR || O::K_ == CARR ? arr->base() : base)[offset(r, i)]; }
  void snapshot() { want = mem; if (arr) { each_(r, [&](const idx& i) { base[offset(r, i)] = arr->base()[offset(r, i)]; }); want = mem; } }
  template <class F> static void each_(const rshape& s, F&& f) { if (s.empty()) f(idx()); else each(s, f); }
  long& model(const idx& i) { return want[(base - mem.data()) + offset(r, i)]; }
  void check(const char* what) {
    if (arr) {
      each_(r, [&](const idx& i) { long g = arr->base()[offset(r, i)], w = model(i); if (g != w) mc::fail("%s: element %s is %ld, expected %ld", what, ref::str(i).c_str(), g, w); });
      return;
    }
    for (size_t k = 0; k < mem.size(); k++) if (mem[k] != want[k]) mc::fail("%s: memory at flat offset %ld is %ld, expected %ld", what, (long)(k - (base - mem.data())), mem[k], want[k]);
  }
  auto ein(std::integral_constant<kind, REF>) { return O::ein(nda::array_ref<long, S>(base, to_shape<S>(r))); }
  auto ein(std::integral_constant<kind, CREF>) { return O::ein(nda::const_array_ref<long, S>(base, to_shape<S>(r))); }
  auto ein(std::integral_constant<kind, ARR>) { return O::ein(*arr); }
  auto ein(std::integral_constant<kind, CARR>) { return O::ein(const_cast<const nda::array<long, S>&>(*arr)); }
  auto ein(std::integral_constant<kind, SCALAR>) { return nda::ein(*base); }
  auto ein(std::integral_constant<kind, PTR>) { return ptr_(typename std::integral_constant<size_t, O::R>()); }
  auto ein() { return ein(std::integral_constant<kind, O::K_>()); }
};
// pointers and C arrays are special: one index, min 0, stride 1
template <size_t I> struct ptr_opnd {
  static constexpr kind K_ = REF;
  using shape = nda::shape<dim<0, dynamic, 1>>;
  static constexpr size_t R = 1;
  static std::vector<int> ix() { return {(int)I}; }
  template <class V> static auto ein(V&& v) { long* p = (long*)&*v.base(); return nda::ein<I>(p, (size_t)v.shape().template dim<0>().extent()); }
};
template <size_t I, size_t N> struct carray_opnd {
  static constexpr kind K_ = REF;
  using shape = nda::shape<dim<0, N, 1>>;
  static constexpr size_t R = 1;
  static std::vector<int> ix() { return {(int)I}; }
  template <class V> static auto ein(V&& v) { return nda::ein<I>(*reinterpret_cast<long(*)[N]>((long*)&*v.base())); }
};
struct scalar_opnd {
  static constexpr kind K_ = REF;
  using shape = nda::shape<>;
  static constexpr size_t R = 0;
  static std::vector<int> ix() { return {}; }
  template <class V> static auto ein(V&& v) { return nda::ein(*v.base()); }
};
struct const_scalar_opnd {
  static constexpr kind K_ = CREF;
  using shape = nda::shape<>;
  static constexpr size_t R = 0;
  static std::vector<int> ix() { return {}; }
  template <class V> static auto ein(V&& v) { const long& s = *v.base(); return nda::ein(s); }
};

// What is known at compile time of each loop index, over all operands that use it.
struct known { long min = DYN, extent = DYN; bool dst = false, used = false; };
template <class O> void know(std::vector<known>& k, bool dst) {
  auto st = statics<typename O::shape>(); auto ix = O::ix();
  for (size_t d = 0; d < ix.size(); d++) {
    known& q = k[ix[d]]; q.used = true; q.dst = q.dst || dst;
    if (q.min == DYN) q.min = st[d].min; if (q.extent == DYN) q.extent = st[d].extent;
  }
}
// Choose the dims of one operand for the given loop bounds. `ext` widens run-time dims of destination indices.
template <class O> rshape operand_shape(const std::vector<bound>& b, const std::vector<known>& k, bool widen, int layout) {
  auto st = statics<typename O::shape>(); auto ix = O::ix();
  rshape r;
  for (size_t d = 0; d < ix.size(); d++) {
    rd x{b[ix[d]].min, b[ix[d]].extent, 0};
    if (widen && k[ix[d]].dst && x.extent > 0) {
      if (st[d].min == DYN && st[d].extent == DYN) { x.min -= 1; x.extent += 1 + (long)(d + 1); }
      else if (st[d].extent == DYN) x.extent += 2;
    }
    r.push_back(x);
  }
  lay_out(r, st, layout);
  return r;
}
inline std::vector<bound> choose_bounds(ctx& c, const std::vector<known>& k, bool zero_min_only = false, bool large = true) {
  size_t used = 0; for (auto& q : k) used += q.used;
  std::vector<size_t> free_;
  if (large && used <= 4) for (size_t q = 0; q < k.size(); q++) if (k[q].used && k[q].extent == DYN) free_.push_back(q);
  // one index with many iterations, the others with few
  if (size_t g = c.choose(1 + (int)free_.size())) {
    std::vector<bound> b;
    for (size_t n = 0; n < k.size(); n++) {
      const known& q = k[n];
      if (!q.used) { b.push_back({0, 1}); continue; }
      bound x; x.min = q.min != DYN ? q.min : n == free_[g - 1] && !zero_min_only ? -3 : 0;
      if (q.extent != DYN) x.extent = q.extent;
      else if (n != free_[g - 1]) x.extent = used <= 2 ? c.pick({1l, 3l}) : 2;
      else if (used <= 2) x.extent = c.pick({4l, 6l, 7l, 8l, 9l, 15l, 16l, 17l, 31l, 32l, 33l, 64l, 65l, 129l});
      else x.extent = used == 3 ? c.pick({4l, 7l, 8l, 9l, 16l, 17l, 33l}) : c.pick({4l, 9l});
      b.push_back(x);
    }
    return b;
  }
  std::vector<long> mins{0, -1, 2}, exts{0, 1, 2, 3, 5};
  bool th = mc::thorough();
  if (used == 1 && th) { mins = {0, -1, 2, 9, -20}; exts = {0, 1, 2, 3, 4, 5, 8, 13}; }
  if (used == 2) { mins = {0, -1, 2}; exts = {0, 1, 2, 3}; if (th) { mins = {0, -1, 2, 7}; exts = {0, 1, 2, 3, 5}; } }
  if (used == 3) { mins = {0, -1}; exts = {0, 1, 3}; if (th) { exts = {0, 1, 2, 3}; } }
  if (used >= 4) { mins = {1}; exts = {0, 1, 2}; if (th) { mins = {1, 0}; exts = {0, 2, 3}; } }
  if (used >= 5) { mins = {1}; exts = {1, 2}; if (th) { mins = {1}; exts = {0, 1, 2}; } }
  if (zero_min_only) mins = {0};
  std::vector<bound> b;
  for (auto& q : k) {
    if (!q.used) { b.push_back({0, 1}); continue; }
    bound x; x.min = q.min != DYN ? q.min : c.pick(mins); x.extent = q.extent != DYN ? q.extent : c.pick(exts);
    b.push_back(x);
  }
  return b;
}
template <size_t N, size_t... I> auto logger_(std::vector<idx>& log, std::index_sequence<I...>) {
  return nda::ein<I...>([&log](decltype((void)I, index_t())... i) -> long { log.push_back(idx{(long)i...}); if (log.size() > 100000) mc::fail("too many evaluations"); return 0; });
}
template <size_t N> auto logger(std::vector<idx>& log) { return logger_<N>(log, std::make_index_sequence<N>()); }
inline idx select(const idx& loop, const std::vector<int>& ix) { idx r; for (int k : ix) r.push_back(loop[k]); return r; }
inline std::string str(const std::vector<bound>& b) { std::string s; for (auto& x : b) s += "[" + std::to_string(x.min) + "," + std::to_string(x.min + x.extent) + ")"; return s; }
inline rshape loop_shape(const std::vector<bound>& b) { rshape r; for (auto& x : b) r.push_back(rd{x.min, x.extent, 0}); return r; }
template <class F> void each_loop(const std::vector<bound>& b, F&& f) { rshape s = loop_shape(b); if (s.empty()) f(idx()); else each(s, f); }
}  // namespace ein_
