// C28: a bounded suite of programs whose complete observations are compared between builds. No expectations here: other checks have them.
#include "ref.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
using namespace ref;
using nda::dim; using nda::dynamic; using nda::dense_dim; using nda::shape; using nda::shape_of_rank; using nda::dense_shape; using nda::interval; using nda::_;
static const long DYN = (long)nda::dynamic;

static long norm(long v) { return v == (long)nda::unresolved ? 777777777 : v; }
// observations are also kept as text for a replay
struct see {
  ctx& c; std::string text; bool on;
  explicit see(ctx& c) : c(c), on(mc::verbose()) {}
  void v(long x) { x = norm(x); c.obs((uint64_t)x); if (on) { text += std::to_string(x); text += ' '; } }
  void operator()(const char* what) { if (on) { text += what; text += ": "; } }
  void r(const rshape& s) { for (auto& d : s) { v(d.min); v(d.extent); v(d.stride); } }
  template <class S> void s(const S& x) { r(from_shape(x)); }
  void i(const idx& x) { for (long k : x) v(k); }
  template <class T> void val(const T& x) { v((long)(x * 64)); }
  void val(const std::string& x) { v((long)x.size()); for (char ch : x) v(ch); }
  template <class T, class S> void view(const nda::array_ref<T, S>& a) {
    s(a.shape()); v(a.base() == nullptr); v((long)a.size()); v(a.empty());
    each0(from_shape(a.shape()), [&](const idx& x) { val(a[to_tuple<S::rank()>(x)]); });
  }
  template <class T, class S, class A> void arr(const nda::array<T, S, A>& a) { view(a.cref()); }
  template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else if (!ref::empty(r)) each(r, f); }
  ~see() { if (on) c.note("%s", text.c_str()); }
};
template <class F> static void each0(const rshape& r, F&& f) { see::each0(r, f); }

template <class S> static alphabet alpha(bool unresolved) {
  const bool th = mc::thorough();
  std::vector<long> st = unresolved ? std::vector<long>{UN, 1, -2, 4, 0} : std::vector<long>{1, -2, 4, 6};
  if (S::rank() <= 1) return {{0, -2, 5}, {0, 1, 2, 3, 7}, st};
  if (S::rank() == 2) return {th ? std::vector<long>{0, -2} : std::vector<long>{0}, {0, 1, 2, 3}, st};
  if (S::rank() == 3) return {{-1}, th ? std::vector<long>{0, 1, 2, 3} : std::vector<long>{1, 2}, unresolved ? std::vector<long>{UN, 1, 4} : std::vector<long>{1, 2, 4}};
  return {{0}, {1, 2}, unresolved ? std::vector<long>{UN, 8} : std::vector<long>{1, 8}};
}
template <class S> struct buf {  // a view with room around it
  rshape r; std::vector<int> mem; int* base;
  explicit buf(const rshape& r) : r(r) {
    ref::span sp = r.empty() || ref::empty(r) ? ref::span{0, 0} : flat_span(r);
    mem.resize(sp.extent() + 12); for (size_t k = 0; k < mem.size(); k++) mem[k] = (int)(k * 7 % 31) + 1;
    base = mem.data() + 6 - sp.lo;
  }
  nda::array_ref<int, S> view() { return nda::array_ref<int, S>(base, to_shape<S>(r)); }
  void show(see& o) { for (int x : mem) o.v(x); }
};

// ---- shapes
template <class S> struct shapes {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha<S>(true));
    if (!c.mine()) return;
    see o(c); c.note("%s", str(r).c_str()); o.r(r);
    S s = to_shape<S>(r);
    o("resolved"); o.v(s.is_resolved()); o.v((long)s.size()); o.v(s.empty());
    s.resolve(); o("after resolve"); o.s(s); o.v(s.is_resolved());
    if (!s.is_resolved()) return;
    rshape q = from_shape(s);
    if (!ref::empty(q) || q.empty()) { o("span"); o.v(s.flat_min()); o.v(s.flat_max()); o.v((long)s.flat_extent()); }
    o("queries"); o.v(s.is_compact()); o.i(from_tuple(s.min())); o.i(from_tuple(s.max())); o.i(from_tuple(s.extent())); o.i(from_tuple(s.stride()));
    o("subset"); o.v(s.is_subset_of(s, 0)); o.v(s.is_subset_of(s, 1)); o.v(s.is_subset_of(s, -1));
    o("equal"); o.v(s == s); o.v(s == to_shape<S>(q)); { rshape t = q; if (t.size() && S::rank()) { shape_of_rank<S::rank()> a(s); o.v(a == s); o.v(s != a); o.s(a); } }
    o("offsets"); see::each0(q, [&](const idx& i) { auto t = to_tuple<S::rank()>(i); o.v(s[t]); o.v(s.is_in_range(t)); });
    { auto m = nda::make_compact(s); o("compact"); o.s(m); }
    { auto w = nda::convert_shape<shape_of_rank<S::rank() + 1>>(s); o("wider"); o.s(w); o.v(nda::is_explicitly_compatible<shape_of_rank<S::rank() + 1>>(s)); }
    { o("compatible"); o.v(nda::is_compatible<dense_shape<S::rank()>>(shape_of_rank<S::rank()>(s))); }
    for (size_t d = 0; d < S::rank(); d++) { auto x = s.dim(d); o.v(x.min()); o.v(x.max()); o.v(x.extent()); o.v(x.stride()); o.v(x.is_in_range(x.max())); o.v(x.is_in_range(x.max() + 1)); }
    o("order"); nda::for_each_index(s, [&](const typename S::index_type& i) { o.i(from_tuple(i)); });
    c.nontrivial();
  }
};
// ---- traversal and copies
template <class Q> struct rev; template <size_t... I> struct rev<std::index_sequence<I...>> {
  template <class S, class F> static void each(const S& s, F&& f) { nda::for_each_index<(sizeof...(I) - 1 - I)...>(s, f); }
  template <class V> static auto transpose(const V& v) { return nda::transpose<(sizeof...(I) - 1 - I)...>(v); }
};
template <class S> struct traversal {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha<S>(false));
    const bool wide = c.flip();
    if (!c.mine()) return;
    if (!ref::empty(r) && !r.empty() && !injective(r)) return c.skip();
    see o(c); c.note("%s", str(r).c_str()); o.r(r);
    constexpr size_t R = S::rank();
    buf<S> b(r); auto v = b.view();
    o("addresses"); v.for_each_value([&](int& x) { o.v(&x - b.base); });
    o("reverse"); rev<std::make_index_sequence<R>>::each(v.shape(), [&](const nda::index_of_rank<R>& i) { o.i(from_tuple(i)); });
    o("transposed"); { auto t = rev<std::make_index_sequence<R>>::transpose(v); o.view(t); }
    nda::fill(v, 3); o("fill"); b.show(o);
    { int n = 5; nda::generate(v, [&] { return n = n * 3 % 101; }); o("generate"); b.show(o); }
    nda::transform_index(v, [](const nda::index_of_rank<R>& i) { int h = 1; for (long k : from_tuple(i)) h = h * 7 + (int)k; return h; }); o("transform"); b.show(o);
    // copies to and from another layout
    rshape q = r; for (size_t d = 0; d < q.size(); d++) q[d].stride = UN;
    shape_of_rank<R> qs = to_shape<shape_of_rank<R>>(q); qs.resolve();
    if (wide) { rshape w = from_shape(qs); for (auto& d : w) if (d.extent > 0) { d.min -= 1; d.extent += 2; d.stride = UN; } qs = to_shape<shape_of_rank<R>>(w); qs.resolve(); }
    { nda::array<int, shape_of_rank<R>> a(qs, 9); int n = 0; a.for_each_value([&](int& x) { x = n++; });
      o("copy in"); nda::copy(a, v); b.show(o);
      if (!wide) { nda::fill(a, -1); o("copy out"); nda::copy(v, a); o.arr(a); o.v(nda::equal(v, a)); if (a.base()) { *a.base() += 1; o.v(nda::equal(v, a)); } }
      o("make copies"); auto k = nda::make_copy(v); o.arr(k); auto m = nda::make_compact_copy(v); o.arr(m); auto d = nda::make_copy(a, v.shape()); o.arr(d);
      auto e = nda::make_move(k, k.shape()); o.arr(e); auto x = nda::make_copy(v, nda::make_compact(v.shape())); o.arr(x);
      o("move"); nda::move(a, v); b.show(o); }
    c.nontrivial();
  }
};
// ---- containers: all short histories
template <class A> struct histories {
  using S = typename A::shape_type; using T = typename A::value_type;
  static constexpr size_t R = S::rank();
  template <class U> static U make(int k, U*) { return U(k); }
  static std::string make(int k, std::string*) { return std::string((size_t)(k % 23), (char)('a' + k % 26)); }
  static T value(int k) { return make(k, (T*)nullptr); }
  static rshape bounds(int k) { rshape r; auto f = [&](long mn, long ex) { r.push_back(rd{mn, ex, UN}); }; for (size_t d = 0; d < R; d++) f(k == 0 ? 0 : k == 1 ? -1 : 1, k == 0 ? 2 : k == 1 ? 3 : k == 2 ? 0 : 1); return r; }
  static std::string name() { return shape_name<S>() + " " + std::to_string(sizeof(T)) + (std::is_same<typename A::allocator_type, std::allocator<T>>::value ? "" : " auto"); }
  template <size_t... I> static void constants(rshape& r, std::index_sequence<I...>) { int d[] = {0, ((dim_of<S, I>::Min != nda::dynamic ? (void)(r[I].min = (long)dim_of<S, I>::Min) : (void)0), (dim_of<S, I>::Stride != nda::dynamic ? (void)(r[I].stride = (long)dim_of<S, I>::Stride) : (void)0), 0)...}; (void)d; }
  static S sh(int k) { rshape r = bounds(k); constants(r, std::make_index_sequence<R>()); return to_shape<S>(r); }
  static void fill(A& a, int from) { if (!a.base()) return; nda::generate(a, [&] { return value(from++); }); }
  static std::string run_name() { return ""; }
  static void run(ctx& c) {
    const int depth = mc::thorough() ? 4 : 3;
    std::vector<int> ops; for (int k = 0; k < depth; k++) ops.push_back(c.choose(17));
    if (!c.mine()) return;
    see o(c); for (int x : ops) o.v(x);
    A a(sh(0)), b(sh(1), value(4)); fill(a, 1);
    auto show = [&](const A& x) { o.s(x.shape()); o.v(x.base() == nullptr); if (x.base()) see::each0(from_shape(x.shape()), [&](const idx& i) { o.val(x[to_tuple<R>(i)]); }); };
    for (int op : ops) {
      switch (op) {
        case 0: a = b; break;
        case 1: b = a; break;
        case 2: a = std::move(b); break;
        case 3: { A t(a); b = std::move(t); break; }
        case 4: { A t(std::move(a)); b = t; break; }
        case 5: a.swap(b); break;
        case 6: a.clear(); break;
        case 7: a.assign(sh(1), value(7)); break;
        case 8: b.assign(sh(0), value(9)); break;
        case 9: a.reshape(sh(1)); break;
        case 10: a.reshape(sh(3)); break;
        case 11: fill(a, 10); break;
        case 12: a = A(sh(2)); break;
        case 13: o.v(a == b); break;
        case 14: o.v(a != b); if (a.base() && a.size()) a.base()[0] = value(20); break;
        case 15: { A t = nda::make_copy(a, b.get_allocator()); b = std::move(t); break; }
        case 16: { auto t = nda::make_move(a, a.shape(), a.get_allocator()); a = t; break; }
      }
      show(a); show(b);
    }
    c.nontrivial();
  }
};
template <class L> struct named_histories;
#if PART == 0
// ---- views
MC_SUITE("slices and crops") {
  long a0 = c.range(-1, 1), e0 = c.range(1, 3), i0 = c.range(0, 3), a1 = c.range(0, 2), e1 = c.range(1, 2);
  if (!c.mine()) return;
  see o(c); o.v(a0); o.v(e0); o.v(i0); o.v(a1); o.v(e1);
  buf<shape_of_rank<3>> b(rshape{{-1, 5, 1}, {0, 4, 5}, {-2, 3, 40}}); auto v = b.view();
  auto at = [&](const char* w, auto x) { o(w); o.v(x.base() - b.base); o.view(x); };
  interval<> x((nda::index_t)a0, (nda::index_t)e0), y((nda::index_t)a1, (nda::index_t)e1);
  at("v(x,y,_)", v(x, y, _)); at("v(i,y,_)", v((nda::index_t)i0, y, _)); at("v(_,i,x)", v(_, (nda::index_t)i0, interval<>(-1, 2)));
  at("v(_,_,i)", v(_, _, -2)); at("v(fixed)", v(nda::r<2>((nda::index_t)a0), _, -1)); at("tuple", v[std::make_tuple(x, _, _)]); at("v(i,_,i)", v((nda::index_t)i0, _, 0));
  { auto w = v(_, y, _); for (auto yy : nda::split<1>(y)) { at("split", w(_, yy, _)); } }
  for (auto xi : nda::split<2>(v.shape().dim<0>())) at("split<2>", v(xi, (nda::index_t)i0, _));
  for (auto xi : nda::split(v.shape().dim<0>(), (nda::index_t)e0)) at("split(n)", v(xi, 0, _));
  nda::array<int, dense_shape<3>> k({4, 4, 2}, 0); int n = 0; k.for_each_value([&](int& q) { q = n++; });
  o.view(k((nda::index_t)i0, _, _)); o.view(k(_, y, _)); o.view(k.cref()(_, _, (nda::index_t)(e0 % 2)));
  { auto s2 = k(_, 1, _); o.view(s2); nda::fill(s2, 5); o.arr(k); }
  c.nontrivial();
}
MC_SUITE("reinterpretations") {
  long e0 = c.range(1, 4), e1 = c.range(1, 3), off = c.range(0, 3), st = c.pick(std::vector<long>{1, 2, 3});
  if (!c.mine()) return;
  if ((e0 - 1) * st + (e1 - 1) * st * e0 + off >= 24) return c.skip();
  see o(c); o.v(e0); o.v(e1); o.v(off); o.v(st);
  nda::array<int, dense_shape<3>> a({4, 3, 2}, 0); int n = 0; a.for_each_value([&](int& q) { q = n++; });
  shape_of_rank<2> s(dim<>(0, (nda::index_t)e0, (nda::index_t)st), dim<>(1, (nda::index_t)e1, (nda::index_t)(st * e0)));
  o.view(nda::reinterpret_shape(a, s, (nda::index_t)off)); o.view(nda::reinterpret_shape(a.cref(), s, (nda::index_t)off));
  { auto r = nda::reinterpret<unsigned>(a); o.v(r(1, 1, 1)); }
  { auto b = a; b.set_shape(dense_shape<3>(dense_dim<>(0, 4, 1), dim<>(0, 3, 4), dim<>(0, 1, 12)), 12); o.arr(b); }
  { auto m = nda::move_reinterpret_shape<shape_of_rank<2>>(std::move(a), s, (nda::index_t)off); o.arr(m); o.v(a.base() == nullptr); }
  c.nontrivial();
}
// ---- Einstein expressions
template <class T> static void ein_program(ctx& c) {
  long ei = c.range(0, 4), ej = c.range(1, 3), ek = c.range(1, 3), mn = c.range(-1, 1);
  if (!c.mine()) return;
  see o(c); o.v(ei); o.v(ej); o.v(ek); o.v(mn);
  using nda::ein; enum { i = 0, j = 1, k = 2 };
  auto d = [](long m, long e) { return dim<>((nda::index_t)m, (nda::index_t)e); };
  nda::array<T, shape_of_rank<2>> A({d(mn, ei), d(0, ej)}), B({d(0, ej), d(1, ek)}), C({d(mn, ei), d(1, ek)}, T(1));
  nda::array<T, dense_shape<1>> u({dense_dim<>((nda::index_t)mn, (nda::index_t)ei)}), w({dense_dim<>(0, (nda::index_t)ej)});
  nda::array<T, nda::matrix_shape<>> M({(nda::index_t)ej, (nda::index_t)ek});
  T one(1), two(2), three(3); int n = 3; auto gen = [&] { n = n * 5 % 23; return T(n - 11); };
  nda::generate(A, gen); nda::generate(B, gen); nda::generate(u, gen); nda::generate(w, gen); nda::generate(M, gen);
  o("product"); nda::ein_reduce(ein<i, k>(C) = ein<i, j>(A) * ein<j, k>(B)); o.arr(C);
  nda::ein_reduce(ein<i, k>(C) += ein<i, j>(A) * ein<j, k>(B)); o.arr(C);
  nda::ein_reduce(ein<i, k>(C) -= ein<i, j>(A) + ein<j, k>(B)); o.arr(C);
  o("scale"); nda::ein_reduce(ein<i, k>(C) = ein<i, k>(C) * ein(two) + ein(one)); o.arr(C);
  nda::ein_reduce(ein<i>(u) *= ein<i>(u) - ein(three)); o.arr(u);
  o("max"); { auto z = nda::make_array<T>(dense_shape<1>(dense_dim<>((nda::index_t)mn, (nda::index_t)ei)), T(-1000)); nda::ein_reduce(ein<i>(z) = max(ein<i>(z), ein<i, j>(A))); o.arr(z); nda::ein_reduce(ein<i>(z) = min(ein<i>(z), -ein<i, j>(A) + ein<j>(w))); o.arr(z); nda::ein_reduce(ein<i>(z) = -ein<i>(z)); o.arr(z); }
  o("sums"); { auto s = nda::make_ein_sum<T, i>(ein<i, j>(A) * ein<j>(w)); o.arr(s); auto t = nda::make_ein_sum<T, k, i>(ein<i, j>(A) * ein<j, k>(B)); o.arr(t); auto dot = nda::make_ein_sum<T>(ein<i>(u) * ein<i>(u)); o.val(dot()); auto out = nda::make_ein_sum<T, i, j>(ein<i>(u) * ein<j>(w)); o.arr(out); auto tr = nda::make_ein_sum<T>(ein<i, j>(A)); o.val(tr()); }
  o("matrix"); { nda::matrix<T> P({(nda::index_t)ej, (nda::index_t)ek}, T(0)); nda::ein_reduce(ein<i, j>(P) += ein<i, j>(M) * ein<i>(w)); o.arr(P); nda::ein_reduce(ein<i, j>(P) += ein<i, j>(P)); o.arr(P); }
  o("callable"); { auto f = [](nda::index_t x, nda::index_t y) { return T(x * 3 + y); }; nda::ein_reduce(ein<i, k>(C) = ein<i, k>(C) + ein<i, k>(f)); o.arr(C); }
  c.nontrivial();
}
MC_SUITE("ein int") { ein_program<int>(c); }
MC_SUITE("ein long") { ein_program<long>(c); }
MC_SUITE("ein float") { ein_program<float>(c); }
MC_SUITE("ein double") { ein_program<double>(c); }
// long vectors: the lengths around and beyond what is vectorised or unrolled
template <class T> static void long_vectors(ctx& c) {
  long n = c.range(0, 70), st = c.range(1, 2), mis = c.range(0, 3);
  if (!c.mine()) return;
  see o(c); o.v(n); o.v(st); o.v(mis);
  std::vector<T> x((size_t)(n * st + 8)), y(x.size()); for (size_t k = 0; k < x.size(); k++) { x[k] = T((int)(k * 7 % 19) - 9); y[k] = T((int)(k * 5 % 13) - 6); }
  using S = shape<dim<>>; S s(dim<>(0, (nda::index_t)n, (nda::index_t)st));
  nda::array_ref<T, S> a(x.data() + mis, s), b(y.data() + (mis * 2) % 5, s); nda::array_ref<T, dense_shape<1>> p(x.data() + mis, dense_shape<1>((nda::index_t)n)), q(y.data() + 1, dense_shape<1>((nda::index_t)n));
  auto all = [&] { for (auto& e : x) o.val(e); for (auto& e : y) o.val(e); };
  nda::copy(a, b); all(); nda::fill(a, T(4)); all(); nda::generate(b, [k = 0]() mutable { return T(k++ % 11); }); all();
  o.v(nda::equal(a, b)); nda::copy(b, a); o.v(nda::equal(a, b)); if (n) { a(n - 1) += T(1); o.v(nda::equal(a, b)); }
  nda::copy(q, p); all(); T sum = T(0), two = T(2); nda::ein_reduce(nda::ein(sum) += nda::ein<0>(p) * nda::ein<0>(q)); o.val(sum);
  nda::ein_reduce(nda::ein<0>(p) = nda::ein<0>(q) * nda::ein(two) + nda::ein<0>(p)); all();
  p.for_each_value([](T& e) { e += T(1); }); all();
  auto k = nda::make_copy(p); o.v(nda::equal(k, p));
  c.nontrivial();
}
MC_SUITE("long vectors of char") { long_vectors<signed char>(c); }
MC_SUITE("long vectors of int") { long_vectors<int>(c); }
MC_SUITE("long vectors of float") { long_vectors<float>(c); }
MC_SUITE("long vectors of double") { long_vectors<double>(c); }
#endif
// ---- images
template <class S> struct images {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    long w = c.range(1, 4), h = c.range(1, 3), ch = dim_of<S, 2>::Extent != nda::dynamic ? (long)dim_of<S, 2>::Extent : c.range(1, 3), x0 = c.range(-1, 2), y0 = c.range(-1, 2), x1 = c.range(1, 5), y1 = c.range(1, 3);
    if (!c.mine()) return;
    see o(c); for (long q : {w, h, ch, x0, y0, x1, y1}) o.v(q);
    nda::array<int, S> im(S((nda::index_t)w, (nda::index_t)h, (nda::index_t)ch)); o.s(im.shape());
    int n = 0; nda::generate(im, [&] { return n++; }); o.arr(im);
    o("crops"); auto cr = nda::crop(im.ref(), (nda::index_t)x0, (nda::index_t)y0, (nda::index_t)x1, (nda::index_t)y1); o.s(cr.shape()); if (!cr.empty()) { o.v(cr.base() - im.base()); o.view(cr); }
    o("channels"); for (long k = 0; k < ch; k++) { auto s = nda::slice_channel(im.ref(), (nda::index_t)k); o.view(s); }
    o("formats"); nda::planar_image<int> pl({(nda::index_t)w, (nda::index_t)h, (nda::index_t)ch}); nda::copy(im, pl); o.arr(pl); o.v(nda::equal(im, pl)); auto back = nda::make_copy(pl, im.shape()); o.arr(back);
    o("order"); nda::for_each_index(im.shape(), [&](const typename S::index_type& i) { o.i(from_tuple(i)); });
    c.nontrivial();
  }
};
#if PART == 0
// ---- intervals, splits, z-order
MC_SUITE("intervals") {
  long m = c.range(-3, 3), e = c.range(0, 9), f = c.range(1, 5);
  if (!c.mine()) return;
  see o(c); o.v(m); o.v(e); o.v(f);
  interval<> v((nda::index_t)m, (nda::index_t)e); interval<-3> s((nda::index_t)-3, (nda::index_t)e);
  for (auto i : v) o.v(i); for (auto i : s) o.v(i);
  o.v(v.max()); o.v(v == interval<>(-3, 4)); for (long x = -5; x < 8; x++) { o.v(v.is_in_range((nda::index_t)x)); o.v(nda::clamp((nda::index_t)x, v)); for (long y = -2; y < 3; y++) o.v(nda::clamp((nda::index_t)x, (nda::index_t)y, (nda::index_t)f)); }
  auto part = [&](auto p) { o.v(p.min()); o.v(p.extent()); for (auto i : p) o.v(i); };
  o("split"); if (e >= 1) for (auto p : nda::split<1>(v)) part(p); if (e >= 2) for (auto p : nda::split<2>(v)) part(p); if (e >= 3) for (auto p : nda::split<3>(v)) part(p);
  for (auto p : nda::split(v, (nda::index_t)f)) part(p);
  o("z"); nda::for_each_in_z_order(std::make_tuple(v, interval<>(0, (nda::index_t)f)), [&](const std::tuple<nda::index_t, nda::index_t>& i) { o.v(std::get<0>(i)); o.v(std::get<1>(i)); });
  nda::for_all_in_z_order(std::make_tuple(interval<>(1, 2), v, interval<>(0, (nda::index_t)f)), [&](nda::index_t a, nda::index_t b, nda::index_t d) { o.v(a); o.v(b); o.v(d); });
  dim<> d((nda::index_t)m, (nda::index_t)e, (nda::index_t)f); o.v(d.flat_offset((nda::index_t)(m + 2))); o.v(d.is_in_range(0)); d.set_min(4); o.v(d.max()); d.set_extent(2); o.v(d.max()); d.set_max(9); o.v(d.extent());
  c.nontrivial();
}
#endif
// two translation units of one program agree
#include "c28.h"
C28_UNIT(static void this_unit)
MC_SUITE("two translation units") {
  int a = (int)c.range(1, 4), b = (int)c.range(1, 4), d = (int)c.range(1, 3);
  if (!c.mine()) return;
  see o(c);
  std::vector<long> x, y; this_unit(x, a, b, d); other_unit(y, a, b, d);
  MC_CHECK(x == y, "two translation units disagree");
  for (long v : x) o.v(v);
  c.nontrivial();
}
using list = types<shape<>, shape<dim<>>, dense_shape<1>, shape<dim<DYN, 3>>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, shape<dim<0, 2>, dense_dim<>>, shape_of_rank<3>, dense_shape<3>, nda::fixed_dense_shape<2, 3>, shape_of_rank<4>>;
#if PART == 0
static register_all<shapes> reg_s("shape", list());
static register_all<images> reg_i("image", types<nda::image_shape, nda::planar_image_shape, nda::chunky_image_shape<DYN>, nda::chunky_image_shape<3>, nda::chunky_image_shape<2, 4>>());
#else
static register_all<traversal> reg_t("traversal", list());
template <class T, class S, size_t N> using au = nda::array<T, S, nda::auto_allocator<T, N>>;
static register_all<histories> reg_h("container", types<nda::array<int, shape_of_rank<1>>, nda::array<std::string, dense_shape<1>>, nda::array<int, shape_of_rank<2>>, nda::array<float, nda::matrix_shape<>>, au<int, shape_of_rank<2>, 4>, au<std::string, shape_of_rank<1>, 2>, nda::array<char, dense_shape<3>>, nda::array<std::string, shape_of_rank<2>>>());
#endif
