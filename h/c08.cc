// C08: splitting an interval covers it exactly.
#include "ref.h"
using namespace ref;
using nda::dim; using nda::interval; using nda::fixed_interval; using nda::dynamic;

struct iv { long min, extent; long max() const { return min + extent - 1; } bool operator==(const iv& o) const { return min == o.min && extent == o.extent; } };
static std::string str(const iv& i) { return "[" + std::to_string(i.min) + "," + std::to_string(i.min + i.extent) + ")"; }
template <class I> static iv get(const I& i) { return iv{(long)i.min(), (long)i.extent()}; }

static std::vector<iv> expect_runtime(const iv& v, long f) {
  std::vector<iv> r;
  for (long at = v.min; at < v.min + v.extent; ) { long n = std::min(f, v.min + v.extent - at); r.push_back({at, n}); at += n; }
  return r;
}
static std::vector<iv> expect_static(const iv& v, long f) {
  std::vector<iv> r;
  for (long at = v.min; at < v.min + v.extent; at += f) r.push_back({std::min(at, v.min + v.extent - f), f});
  return r;
}
static void same(const iv& got, const iv& want, const char* what, size_t n) {
  if (!(got == want)) mc::fail("%s: interval %zu is %s, expected %s", what, n, str(got).c_str(), str(want).c_str());
}

template <class Split> static void check_split(ctx& c, const Split& s, const std::vector<iv>& want) {
  size_t n = 0;
  for (auto i : s) { if (n >= want.size()) mc::fail("more than %zu intervals", want.size()); same(get(i), want[n], "range for", n); n++; }
  MC_CHECK(n == want.size(), "range for: %zu intervals, expected %zu", n, want.size());
  MC_CHECK((size_t)s.size() == want.size(), "size() is %ld, expected %zu", (long)s.size(), want.size());
  n = 0;
  for (auto i = s.begin(); i != s.end(); i++) { if (n >= want.size()) mc::fail("too many"); same(get(*i), want[n], "post-increment", n); same(iv{(long)i->min(), (long)i->extent()}, want[n], "->", n); n++; }
  MC_CHECK(n == want.size(), "post-increment: %zu intervals, expected %zu", n, want.size());
  // a++ yields the interval before the increment, ++a the one after
  if (want.size() >= 2) {
    auto a = s.begin(); auto old = a++; same(get(*old), want[0], "value of a++", 0); same(get(*a), want[1], "a after a++", 1);
    auto b = s.begin(); same(get(*++b), want[1], "value of ++b", 1);
    MC_CHECK(a == b && !(a != b) && a != s.begin(), "iterator comparison");
  }
  n = 0;
  for (auto i = std::begin(s); i != std::end(s); i += 1) { if (n >= want.size()) mc::fail("too many"); same(get(*i), want[n], "+= 1", n); n++; }
  MC_CHECK(n == want.size(), "+= 1: %zu intervals", n);
  // random access: from the first interval and from every stepped one
  auto it = s.begin();
  std::vector<size_t> targets;
  for (size_t k = 0; k < want.size(); k++) {
    for (size_t m = k; m < want.size(); m++) {
      if (want.size() > 12 && m != k && m + 2 < want.size() && m - k > 2) continue;
      same(get(*(it + (index_t)(m - k))), want[m], "iterator + n", m);
      same(get(it[(index_t)(m - k)]), want[m], "iterator[n]", m);
      auto j = it; j += (index_t)(m - k); same(get(*j), want[m], "iterator += n", m);
    }
    same(get(*s[(index_t)k]), want[k], "split[n]", k);
    ++it;
  }
  MC_CHECK(it == s.end(), "stepping over all intervals does not reach the end");
  for (auto& w : want) { c.obs(w.min); c.obs(w.extent); }
  if (!want.empty()) c.nontrivial();
}

template <class V> static V make(const iv& v) { return V((index_t)v.min, (index_t)v.extent); }

static std::vector<long> mins_() { std::vector<long> m{-17, -1, 0, 1, 5}; if (sizeof(index_t) == 8) { m.push_back((1l << 32) - 3); m.push_back(-(1l << 31) - 20); } return m; }
template <class V> struct runtime_ {
  static std::string name();
  static void run(ctx& c) {
    bool th = mc::thorough();
    iv v;
    v.min = V::Min != dynamic ? (long)V::Min : c.pick(mins_());
    v.extent = V::Extent != dynamic ? (long)V::Extent : c.choose(th ? 80 : 41);
    long f = 1 + c.choose(th ? 90 : 45);
    if (!c.mine()) return;
    c.note("split(%s, %ld)", str(v).c_str(), f);
    auto want = expect_runtime(v, f);
    check_split(c, nda::split(make<V>(v), (index_t)f), want);
  }
};
template <class V, long F> struct vf { };
template <class P> struct static_;
template <class V, long F> struct static_<vf<V, F>> {
  static void run(ctx& c) {
    bool th = mc::thorough();
    iv v;
    v.min = V::Min != dynamic ? (long)V::Min : c.pick(mins_());
    v.extent = V::Extent != dynamic ? (long)V::Extent : c.choose(th ? 200 : 60);
    if (v.extent < F) c.discard();
    if (!c.mine()) return;
    c.note("split<%ld>(%s)", F, str(v).c_str());
    auto s = nda::split<F>(make<V>(v));
    check_split(c, s, expect_static(v, F));
    for (auto i : s) { static_assert(decltype(i)::Extent == F, "the extent of a compile-time split is a constant"); }
  }
};
template <class V> struct vname { static std::string get() { auto f = [](long x) { return x == dynamic ? std::string("*") : std::to_string(x); }; return "<" + f(V::Min) + "," + f(V::Extent) + ">"; } };
template <index_t M, index_t E, index_t S> struct vname<dim<M, E, S>> { static std::string get() { return dim_name<dim<M, E, S>>(); } };
template <class V> std::string runtime_<V>::name() { return vname<V>::get(); }
template <class P> struct st;
template <class V, long F> struct st<vf<V, F>> : static_<vf<V, F>> { static std::string name() { return vname<V>::get() + " by " + std::to_string(F); } };
template <long... F> struct ints {};
template <class Vs, class Fs> struct pairs_;
template <class Fs> struct pairs_<types<>, Fs> { using type = types<>; };
template <class V0, class... V, long... F> struct pairs_<types<V0, V...>, ints<F...>> { using type = typename concat_<types<vf<V0, F>...>, typename pairs_<types<V...>, ints<F...>>::type>::type; };

using vs = types<interval<>, interval<0>, interval<-3>, fixed_interval<7>, interval<2, 12>, interval<0, 0>, fixed_interval<1>, dim<>, dim<1>, dim<dynamic, 9>, dim<-2, 10, 1>, nda::dense_dim<>, nda::strided_dim<-3>>;
static register_all<runtime_> reg1("split by a run-time factor", vs());
static register_all<st> reg2("split by a constant", pairs_<types<interval<>, dim<>>, ints<1, 2, 3, 4, 5, 6, 7, 8, 9, 16>>::type());
static register_all<st> reg3("split by a constant", pairs_<types<interval<1>, fixed_interval<13>, dim<-2, 11, 1>, nda::dense_dim<>>, ints<1, 2, 3, 4, 5>>::type());

MC_SUITE("large intervals") {
  static const std::vector<long> mags = {1000000007L, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, 1L << 33, 3L << 40};
  long e = c.pick(mags) / (sizeof(index_t) == 4 ? 1L << 13 : 1), m = c.pick(std::vector<long>{0, -(1L << (sizeof(index_t) == 4 ? 20 : 40)), 1L << (sizeof(index_t) == 4 ? 20 : 40)});
  if (sizeof(index_t) == 4 && (e >= (1L << 29) || e < 1)) c.discard();
  long parts = c.range(1, 9), extra = c.range(-1, 1);
  long f = e / parts + extra;
  if (f < 1) c.discard();
  iv v{m, e};
  c.note("split(%s, %ld)", str(v).c_str(), f);
  check_split(c, nda::split(interval<>((index_t)m, (index_t)e), (index_t)f), expect_runtime(v, f));
}

// More intervals than can be stepped through: the count, and random access near the begin, in the middle and near the end.
template <class Split> static void check_many(ctx& c, const Split& s, const iv& v, long f, bool fixed) {
  long n = (v.extent + f - 1) / f;
  MC_CHECK((long)s.size() == n, "size() is %ld, expected %ld", (long)s.size(), n);
  MC_CHECK((long)(s.end() - s.begin()) == n, "end() - begin() is %ld, expected %ld", (long)(s.end() - s.begin()), n);
  for (long k : {0L, 1L, 2L, n / 3, n / 2, n - 3, n - 2, n - 1}) {
    if (k < 0 || k >= n) continue;
    long at = v.min + k * f, e = std::min(f, v.min + v.extent - at);
    iv want = fixed ? iv{std::min(at, v.min + v.extent - f), f} : iv{at, e};
    same(get(*(s.begin() + (index_t)k)), want, "begin() + n", (size_t)k);
    same(get(s.begin()[(index_t)k]), want, "begin()[n]", (size_t)k);
    same(get(*s[(index_t)k]), want, "split[n]", (size_t)k);
    auto it = s.begin(); it += (index_t)k;
    same(get(*it), want, "+= n", (size_t)k);
    MC_CHECK(it != s.end(), "interval %ld of %ld is the end", k, n);
    if (n - k > 4) continue;
    for (long j = k; j < n; j++) ++it;
    MC_CHECK(it == s.end(), "stepping from interval %ld of %ld does not reach the end", k, n);
  }
  c.obs(n); c.nontrivial();
}
MC_SUITE("many intervals") {
  static const std::vector<long> ls = {100000, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, (1L << 32) - 1, 1L << 32, (1L << 32) + 5, 3L << 40, (1L << 50) + 7}, ss = {100000, 65535, 65536, 65537, 1L << 24, (1L << 29) + 3};
  static const std::vector<long> lm = {0, 1, -5, 1L << 31, -(1L << 33), 1L << 45}, sm = {0, 1, -5, 1 << 20, -(1 << 28)};
  bool small = sizeof(index_t) == 4;
  iv v; v.extent = c.pick(small ? ss : ls); v.min = c.pick(small ? sm : lm);
  static const std::vector<long> fs = {1, 2, 3, 4, 5, 7, 8, 16, 17, 64, 255, 256, 1000, 65536, 99999};
  long f = c.pick(fs);
  int way = c.choose(4);
  if (!c.mine()) return;
  c.note("%s by %ld, way %d", str(v).c_str(), f, way);
  interval<> i((index_t)v.min, (index_t)v.extent); dim<> d((index_t)v.min, (index_t)v.extent, 2);
  if (way == 0) check_many(c, nda::split(i, (index_t)f), v, f, false);
  else if (way == 1) check_many(c, nda::split(d, (index_t)f), v, f, false);
  else {
    bool done = false;
#define F_(N) if (f == N) { done = true; if (way == 2) check_many(c, nda::split<N>(i), v, N, true); else check_many(c, nda::split<N>(d), v, N, true); }
    F_(1) F_(2) F_(3) F_(4) F_(5) F_(7) F_(16) F_(255) F_(65536)
#undef F_
    if (!done) return c.discard();
  }
}

// Tiles of an array: every element exactly once, by nested splits used as crops.
MC_SUITE("tiles of an array") {
  long w = c.range(0, 7), h = c.range(0, 7), fx = c.range(1, 8), fy = c.range(1, 8), x0 = c.pick(std::vector<long>{-2, 0, 3}), y0 = c.pick(std::vector<long>{-1, 0});
  if (!c.mine()) return;
  nda::array<int, nda::shape_of_rank<2>> a({{(index_t)x0, (index_t)w}, {(index_t)y0, (index_t)h}}, 0);
  for (auto yo : nda::split(a.y(), (index_t)fy)) for (auto xo : nda::split(a.x(), (index_t)fx)) {
    MC_CHECK(a.shape().is_in_range(xo, yo), "tile out of range");
    auto tile = a(xo, yo);
    tile.for_each_value([](int& v) { v++; });
  }
  a.for_each_value([](int v) { if (v != 1) mc::fail("an element is covered by %d tiles", v); });
  if (h >= 3) {  // compile-time tiles cover every element at least once, only by overlapping at the end
    nda::array<int, nda::shape_of_rank<2>> b(a.shape(), 0);
    for (auto yo : nda::split<3>(b.y())) for (auto xo : nda::split(b.x(), (index_t)fx)) {
      auto tile = b(xo, yo);
      MC_CHECK(tile.y().extent() == 3, "tile height");
      tile.for_each_value([](int& v) { v++; });
    }
    for (long y = y0; y < y0 + h; y++) for (long x = x0; x < x0 + w; x++) {
      long r = y - y0, overlap = h % 3 ? 3 - h % 3 : 0;
      int want = (overlap && r >= h - 3 && r < h - 3 + overlap) ? 2 : 1;
      MC_CHECK(b(x, y) == want, "row %ld covered %d times, expected %d", r, b(x, y), want);
    }
  }
  c.obs(((w * 8 + h) * 9 + fx) * 9 + fy); c.obs(x0 * 3 + y0);
  if (w > 0 && h > 0) c.nontrivial();
}
