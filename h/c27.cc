// C27: intervals and dims are exact half-open integer ranges.
#include "ref.h"
using namespace ref;
using nda::dim; using nda::interval; using nda::fixed_interval; using nda::dynamic;

static const long BIG = sizeof(index_t) == 4 ? (1L << 28) : (1L << 50);
template <class V> static std::pair<long, long> pick(ctx& c) {
  long lo = V::Min != dynamic ? (long)V::Min : c.pick(std::vector<long>{-BIG, -7, -2, -1, 0, 1, 3, 9, BIG});
  long n = V::Extent != dynamic ? (long)V::Extent : c.pick(std::vector<long>{0, 1, 2, 3, 5, 8, 40});
  return {lo, n};
}

// What every interval-like object must answer, given the set [lo, lo + n).
template <class V> static void is_set(ctx& c, const V& v, long lo, long n, const char* what) {
  MC_CHECK(v.min() == lo && v.extent() == n && v.size() == n && v.max() == lo + n - 1, "%s: [%ld,+%ld) max %ld, expected [%ld,+%ld)", what, (long)v.min(), (long)v.extent(), (long)v.max(), lo, n);
  std::vector<long> got; size_t cap = (size_t)n + 3;
  for (index_t i : v) { got.push_back(i); if (got.size() > cap) mc::fail("%s: iteration does not end", what); }
  MC_CHECK((long)got.size() == n, "%s: %zu iterations, expected %ld", what, got.size(), n);
  for (long k = 0; k < n; k++) MC_CHECK(got[k] == lo + k, "%s: element %ld is %ld", what, k, got[k]);
  for (long x = lo - 2; x <= lo + n + 1; x++) MC_CHECK(v.is_in_range((index_t)x) == (x >= lo && x < lo + n), "%s: membership of %ld", what, x);
  MC_CHECK(!v.is_in_range((index_t)(lo - BIG / 2)) && !v.is_in_range((index_t)(lo + n + BIG / 2)), "%s: membership of far values", what);
  c.obs(lo); c.obs(n);
}
// iterators
template <class V> static void iterators(const V& v, long lo, long n) {
  auto b = v.begin(), e = v.end();
  MC_CHECK(e - b == n, "end - begin is %ld", (long)(e - b));
  MC_CHECK((b == e) == (n == 0) && (b != e) == (n != 0), "begin == end");
  MC_CHECK(std::begin(v) == b && std::end(v) == e && nda::begin(interval<>(v.min(), v.extent())) == b && nda::end(interval<>(v.min(), v.extent())) == e, "std::begin, std::end");
  std::vector<long> back;
  for (auto i = e; i != b;) { --i; back.push_back(*i); if ((long)back.size() > n + 2) mc::fail("backward iteration does not end"); }
  for (long k = 0; k < n; k++) MC_CHECK(back[k] == lo + n - 1 - k, "backward element %ld", k);
  // every pair of positions, the end included
  for (long p = 0; p <= n; p++) for (long q = 0; q <= n; q++) {
    const auto x = b + (index_t)p, y = b + (index_t)q;  // arithmetic does not change its operands
    index_t d = (index_t)(q - p);
    MC_CHECK(x[d] == lo + q && *(x + d) == lo + q && *(y - d) == lo + p && y - x == d, "from position %ld to %ld: x[d] %ld, x + d %ld, y - d %ld, y - x %ld", p, q, (long)x[d], (long)*(x + d), (long)*(y - d), (long)(y - x));
    MC_CHECK((x == y) == (p == q) && (x != y) == (p != q), "equality of positions %ld and %ld", p, q);
    auto s = x; s += d; auto t = y; t -= d; MC_CHECK(s == y && t == x, "+=, -= between positions %ld and %ld", p, q);
    auto r = x; r = y; MC_CHECK(r == y, "assignment of an iterator");
  }
  auto i = b;
  for (long k = 0; k < n; k++) {
    MC_CHECK(*i == lo + k, "stepped iterator");
    MC_CHECK(*(b + (index_t)k) == lo + k && b[(index_t)k] == lo + k && *(e - (index_t)(n - k)) == lo + k, "iterator arithmetic");
    auto j = b; j += (index_t)k; MC_CHECK(j == i && *j == lo + k && j - b == k && b - j == -k, "+=");
    auto m = e; m -= (index_t)(n - k); MC_CHECK(m == i && !(m != i) && m[0] == lo + k, "-=");
    MC_CHECK((k == 0) == (j == b), "iterator equality");
    auto old = i++; MC_CHECK(*old == lo + k && *i == lo + k + 1, "post-increment");
    auto p = i; auto o2 = p--; MC_CHECK(*o2 == lo + k + 1 && *p == lo + k, "post-decrement");
    auto q = i; MC_CHECK(*--q == lo + k && *++q == lo + k + 1, "pre-decrement, pre-increment");
    auto& ref = ++q; MC_CHECK(&ref == &q, "pre-increment returns itself"); --q;
    auto& ref2 = (q += 0); MC_CHECK(&ref2 == &q, "+= returns itself");
  }
}
// clamping
template <class V> static void clamps(const V& v, long lo, long n) {
  if (n <= 0) return;
  for (long x = lo - 3; x <= lo + n + 2; x++) {
    long w = x < lo ? lo : x > lo + n - 1 ? lo + n - 1 : x;
    MC_CHECK(nda::clamp((index_t)x, v) == w, "clamp(%ld) to the range is %ld, expected %ld", x, (long)nda::clamp((index_t)x, v), w);
    MC_CHECK(nda::clamp((index_t)x, (index_t)lo, (index_t)(lo + n - 1)) == w, "clamp(%ld, min, max)", x);
  }
}
template <class V> static std::string iname() { auto f = [](long x) { return x == dynamic ? std::string("*") : std::to_string(x); }; return "<" + f(V::Min) + "," + f(V::Extent) + ">"; }

template <class V> static void setters(ctx& c, const V& v0, long lo, long n, std::true_type) {
  { V v = v0; v.set_min((index_t)(lo + 5)); is_set(c, v, lo + 5, n, "set_min"); }
  { V v = v0; v.set_min((index_t)lo); is_set(c, v, lo, n, "set_min to itself"); }
}
template <class V> static void setters(ctx& c, const V& v0, long lo, long n, std::false_type) { V v = v0; v.set_min((index_t)lo); is_set(c, v, lo, n, "set_min of a constant"); }
template <class V> static void setters2(ctx& c, const V& v0, long lo, long n, std::true_type) {
  { V v = v0; v.set_extent((index_t)(n + 3)); is_set(c, v, lo, n + 3, "set_extent"); }
  { V v = v0; v.set_extent(0); is_set(c, v, lo, 0, "set_extent(0)"); }
  { V v = v0; v.set_max((index_t)(lo + 4)); is_set(c, v, lo, 5, "set_max"); }
  { V v = v0; v.set_max((index_t)(lo - 1)); is_set(c, v, lo, 0, "set_max(min - 1)"); }
}
template <class V> static void setters2(ctx& c, const V& v0, long lo, long n, std::false_type) { V v = v0; v.set_extent((index_t)n); v.set_max((index_t)(lo + n - 1)); is_set(c, v, lo, n, "set_extent of a constant"); }

template <class V> struct intervals {
  static std::string name() { return iname<V>(); }
  static void run(ctx& c) {
    auto p = pick<V>(c); long lo = p.first, n = p.second;
    if (!c.mine()) return;
    c.note("[%ld, +%ld)", lo, n);
    V v((index_t)lo, (index_t)n);
    is_set(c, v, lo, n, "interval(min, extent)");
    iterators(v, lo, n); clamps(v, lo, n);
    long smin = V::Min != dynamic ? (long)V::Min : 0, sext = V::Extent != dynamic ? (long)V::Extent : 1;
    is_set(c, V(), smin, sext, "default interval");
    is_set(c, V((index_t)lo), lo, sext, "interval(min)");
    { V u(v); is_set(c, u, lo, n, "copy"); V w; assign(c, w, v, lo, n); MC_CHECK(u == v && !(u != v), "copies are equal"); }
    setters(c, v, lo, n, std::integral_constant<bool, V::Min == dynamic>());
    setters2(c, v, lo, n, std::integral_constant<bool, V::Extent == dynamic>());
    is_set(c, nda::range((index_t)lo, (index_t)(lo + n)), lo, n, "range(begin, end)");
    is_set(c, nda::r((index_t)lo, (index_t)(lo + n)), lo, n, "r(begin, end)");
    if (n > 0) c.nontrivial();
  }
  static void assign(ctx& c, V& w, const V& v, long lo, long n) { w = v; is_set(c, w, lo, n, "assignment"); }
};
// pairs: conversion, containment, equality
template <class A, class B> struct ab {};
template <class P> struct pairs;
template <class A, class B> struct pairs<ab<A, B>> {
  static std::string name() { return iname<A>() + " " + iname<B>(); }
  static void run(ctx& c) {
    long lo, n, lo2, n2;
    { lo = A::Min != dynamic ? (long)A::Min : c.pick(std::vector<long>{-BIG, -2, 0, 1, 3, BIG}); n = A::Extent != dynamic ? (long)A::Extent : c.range(0, 5); }
    if (!c.mine()) return;
    { std::vector<long> m{lo - 2, lo - 1, lo, lo + 1, lo + 2, lo + 5}; lo2 = B::Min != dynamic ? (long)B::Min : c.pick(m); n2 = B::Extent != dynamic ? (long)B::Extent : c.range(0, 5); }
    c.note("[%ld,+%ld) and [%ld,+%ld)", lo, n, lo2, n2);
    A a((index_t)lo, (index_t)n); B b((index_t)lo2, (index_t)n2);
    if (n2 > 0) { bool in = true; for (long k = 0; k < n2; k++) in = in && a.is_in_range((index_t)(lo2 + k)); MC_CHECK(a.is_in_range(b) == in, "containment"); bool d = a.is_in_range(dim<>(b.min(), b.extent(), 3)); MC_CHECK(d == in, "containment of a dim"); }
    if (n > 0 || n2 > 0 || lo == lo2) { bool eq = lo == lo2 && n == n2; MC_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "equality"); }
    convert(c, b, lo2, n2, std::integral_constant<bool, (A::Min == dynamic || B::Min == dynamic || A::Min == B::Min) && (A::Extent == dynamic || B::Extent == dynamic || A::Extent == B::Extent)>());
    if (n > 0 && n2 > 0) c.nontrivial();
    c.obs(lo * 31 + n); c.obs(lo2 * 31 + n2);
  }
  static void convert(ctx& c, const B& b, long lo2, long n2, std::true_type) {
    if ((A::Min != dynamic && A::Min != lo2) || (A::Extent != dynamic && A::Extent != n2)) return;
    A x(b); is_set(c, x, lo2, n2, "converting constructor");
    A y; y = b; is_set(c, y, lo2, n2, "converting assignment");
  }
  static void convert(ctx&, const B&, long, long, std::false_type) {}
};
template <class D> struct dims {
  static std::string name() { return dim_name<D>(); }
  static void run(ctx& c) {
    auto p = pick<D>(c); long lo = p.first, n = p.second;
    long st = D::Stride != dynamic ? (long)D::Stride : c.pick(std::vector<long>{UN, -3, 0, 1, 7, BIG});
    if (!c.mine()) return;
    c.note("dim(%ld, %ld, %ld)", lo, n, st);
    D d((index_t)lo, (index_t)n, (index_t)st);
    is_set(c, d, lo, n, "dim(min, extent, stride)"); MC_CHECK((long)d.stride() == (long)(index_t)st, "stride");
    iterators(d, lo, n); clamps(d, lo, n);
    long dst = D::Stride != dynamic ? (long)D::Stride : (long)(index_t)UN;
    long smin = D::Min != dynamic ? (long)D::Min : 0, sext = D::Extent != dynamic ? (long)D::Extent : 0;
    auto is = [&](const D& x, long l, long m, long s, const char* what) { is_set(c, x, l, m, what); MC_CHECK((long)x.stride() == s, "%s: stride %ld, expected %ld", what, (long)x.stride(), s); };
    is(D(), smin, sext, dst, "default dim");
    is(D((index_t)n), smin, n, dst, "dim(extent)");
    is(D((index_t)lo, (index_t)n), lo, n, dst, "dim(min, extent)");
    is(D(interval<D::Min, D::Extent>((index_t)lo, (index_t)n)), lo, n, dst, "dim(interval)");
    is(D(interval<D::Min, D::Extent>((index_t)lo, (index_t)n), (index_t)st), lo, n, (long)(index_t)st, "dim(interval, stride)");
    setters(c, d, lo, n, std::integral_constant<bool, D::Min == dynamic>());
    setters2(c, d, lo, n, std::integral_constant<bool, D::Extent == dynamic>());
    strides(d, lo, n, st, std::integral_constant<bool, D::Stride == dynamic>());
    { D e = d; e.set_max(e.max()); e.set_min(e.min()); e.set_extent(e.extent()); is(e, lo, n, (long)(index_t)st, "setters"); }
    // a dim has the strides in its offset
    if (st != UN) for (long x = lo - 2; x < lo + n + 2; x++) if (std::labs(st) < BIG) MC_CHECK((long)d.flat_offset((index_t)x) == (x - lo) * st, "flat_offset(%ld)", x);
    dim<> r((index_t)lo, (index_t)n, (index_t)st);
    MC_CHECK(d == r && r == d && !(d != r), "equal dims of different types");
    MC_CHECK(d != dim<>((index_t)lo + 1, (index_t)n, (index_t)st) && d != dim<>((index_t)lo, (index_t)n + 1, (index_t)st) && d != dim<>((index_t)lo, (index_t)n, (index_t)(st == UN ? 4 : st + 1)), "different dims compare equal");
    { D e(r); is(e, lo, n, (long)(index_t)st, "dim converted from a run-time dim"); D f; f = r; is(f, lo, n, (long)(index_t)st, "dim assigned from a run-time dim"); dim<> g(d); is2(c, g, lo, n, st); g = dim<>(1, 1, 1); g = d; is2(c, g, lo, n, st); }
    if (n > 0) c.nontrivial();
    c.obs(st);
  }
  static void is2(ctx& c, const dim<>& g, long lo, long n, long st) { is_set(c, g, lo, n, "run-time dim from a dim"); MC_CHECK((long)g.stride() == (long)(index_t)st, "stride of a converted dim"); }
  static void strides(const D& d0, long lo, long n, long, std::true_type) { D d = d0; d.set_stride(11); MC_CHECK(d.stride() == 11 && d.min() == lo && d.extent() == n, "set_stride"); }
  static void strides(const D& d0, long lo, long n, long st, std::false_type) { D d = d0; d.set_stride((index_t)st); d.set_stride(nda::unresolved); MC_CHECK(d.stride() == st && d.min() == lo && d.extent() == n, "set_stride of a constant"); }
};

using ivs = types<interval<>, interval<0>, interval<-4>, interval<5>, fixed_interval<0>, fixed_interval<1>, fixed_interval<6>, interval<0, 0>, interval<-3, 4>, interval<2, 1>, interval<0, 9>>;
template <class A, class B> struct xp;
template <class B> struct xp<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xp<types<A0, A...>, types<B...>> { using type = typename concat_<types<ab<A0, B>...>, typename xp<types<A...>, types<B...>>::type>::type; };
static register_all<intervals> r1("interval", ivs());
using ivp = types<interval<>, interval<0>, interval<1>, fixed_interval<3>, interval<0, 3>, interval<1, 2>>;
static register_all<pairs> r2("pairs", xp<ivp, ivp>::type());
static register_all<dims> r3("dim", types<dim<>, dim<0>, dim<-4>, dim<dynamic, 0>, dim<dynamic, 5>, dim<3, 4>, nda::dense_dim<>, nda::dense_dim<2>, nda::dense_dim<-1, 3>, nda::broadcast_dim<>, nda::broadcast_dim<0, 4>, nda::strided_dim<-5>, nda::fixed_dim<3>, nda::fixed_dim<3, 1>, dim<1, 2, 3>>());

MC_SUITE("range<E>(begin)") {
  long lo = c.pick(std::vector<long>{-BIG, -3, 0, 4, BIG});
  is_set(c, nda::range<5>((index_t)lo), lo, 5, "range<5>"); is_set(c, nda::r<5>((index_t)lo), lo, 5, "r<5>");
  is_set(c, nda::range<1>((index_t)lo), lo, 1, "range<1>"); is_set(c, nda::r<0>((index_t)lo), lo, 0, "r<0>");
  c.nontrivial();
}
