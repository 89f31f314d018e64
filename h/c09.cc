// C09: z-order traversal visits every combination once, in Morton order of the positions.
#include "ref.h"
#include "array/z_order.h"
using namespace ref;

static std::vector<idx> morton(const std::vector<long>& e) {
  std::vector<std::pair<unsigned __int128, idx>> all;
  rshape s; for (long x : e) s.push_back(rd{0, x, 0});
  size_t R = e.size();
  each(s, [&](const idx& i) {
    unsigned __int128 z = 0;
    for (int bit = 0; bit < 20; bit++) for (size_t d = 0; d < R; d++) if ((i[d] >> bit) & 1) z |= (unsigned __int128)1 << (bit * R + d);
    all.push_back({z, i});
  });
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<idx> r; for (auto& a : all) r.push_back(a.second);
  return r;
}
template <size_t R, class F, size_t... I> static auto ranges_(F&& f, std::index_sequence<I...>) { return std::make_tuple(f(I)...); }

static void compare(ctx& c, const std::vector<idx>& got, const std::vector<idx>& want, const char* what) {
  std::vector<idx> a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  MC_CHECK(a == b, "%s: %zu calls; the visited combinations are not each combination once (%zu)", what, got.size(), want.size());
  for (size_t k = 0; k < want.size(); k++) if (got[k] != want[k]) mc::fail("%s: call %zu visits %s, expected %s", what, k, str(got[k]).c_str(), str(want[k]).c_str());
  for (auto& g : got) for (long x : g) c.obs(x);
}

template <size_t R> static void run(ctx& c, const std::vector<long>& extents, const std::vector<long>& mins) {
  std::vector<long> e, m;
  for (size_t d = 0; d < R; d++) e.push_back(c.pick(extents));
  for (size_t d = 0; d < R; d++) m.push_back(mins.size() == 1 ? mins[0] : mins[d % mins.size()]);
  if (!c.mine()) return;
  c.note("extents %s", str(e).c_str());
  std::vector<idx> want = morton(e), got;
  for (auto& w : want) for (size_t d = 0; d < R; d++) w[d] += m[d];
  size_t cap = want.size() + 10;
  auto seq = std::make_index_sequence<R>();
  auto ivs = ranges_<R>([&](size_t d) { return nda::interval<>((index_t)m[d], (index_t)e[d]); }, seq);
  nda::for_each_in_z_order(ivs, [&](const auto& i) { got.push_back(from_tuple(i)); if (got.size() > cap) mc::fail("too many calls"); });
  compare(c, got, want, "for_each_in_z_order over intervals"); got.clear();
  nda::for_all_in_z_order(ivs, [&](auto... i) { got.push_back(idx{(long)i...}); if (got.size() > cap) mc::fail("too many calls"); });
  compare(c, got, want, "for_all_in_z_order over intervals"); got.clear();
  auto dims = ranges_<R>([&](size_t d) { return nda::dim<>((index_t)m[d], (index_t)e[d], 3); }, seq);
  nda::for_all_in_z_order(dims, [&](auto... i) { got.push_back(idx{(long)i...}); if (got.size() > cap) mc::fail("too many calls"); });
  compare(c, got, want, "for_all_in_z_order over dims"); got.clear();
  if (R <= 3) {  // containers with random access iterators
    auto vecs = ranges_<R>([&](size_t d) { std::vector<long> v; for (long k = 0; k < e[d]; k++) v.push_back(m[d] + k); return v; }, seq);
    nda::for_each_in_z_order(vecs, [&](const auto& i) { got.push_back(from_tuple(i)); if (got.size() > cap) mc::fail("too many calls"); });
    compare(c, got, want, "for_each_in_z_order over vectors");
  }
  if (!want.empty()) c.nontrivial();
}
static std::vector<long> upto(long n) { std::vector<long> v; for (long k = 0; k <= n; k++) v.push_back(k); return v; }
static std::vector<long> far(std::vector<long> v) { if (sizeof(index_t) == 8) { v.insert(v.begin(), (1l << 32) - 2); v.push_back(-(1l << 31) - 5); } return v; }
static bool th() { return mc::thorough(); }
MC_SUITE("1 range") { auto v = upto(140); v.push_back(511); v.push_back(512); v.push_back(513); run<1>(c, v, {c.pick(far({-3, -1, 0, 1, 2, 3}))}); }
MC_SUITE("2 ranges") { auto v = upto(th() ? 40 : 18); v.push_back(63); v.push_back(64); v.push_back(65); auto f = far({0}); if (c.flip()) run<2>(c, v, {5, -2}); else run<2>(c, v, {f.back(), f.front()}); }
MC_SUITE("3 ranges") { auto v = upto(th() ? 13 : 9); v.push_back(17); run<3>(c, v, {0, -1, 4}); }
MC_SUITE("4 ranges") { run<4>(c, upto(th() ? 7 : 5), {0, -1, 4, 2}); }
MC_SUITE("5 ranges") { run<5>(c, upto(th() ? 5 : 3), {0, 1, -1, 0, 2}); }
MC_SUITE("6 ranges") { run<6>(c, upto(th() ? 3 : 2), {1}); }

// Tiles: ranges of intervals made by split, as the library's matrix examples use it.
MC_SUITE("split ranges") {
  long w = c.range(0, 13), h = c.range(0, 13), fx = c.range(1, 5), fy = c.range(1, 5);
  if (!c.mine()) return;
  c.note("split(%ld, %ld), split(%ld, %ld)", w, fx, h, fy);
  std::vector<long> e{(w + fx - 1) / fx, (h + fy - 1) / fy};
  auto want = morton(e);
  size_t n = 0;
  nda::for_all_in_z_order(std::make_tuple(nda::split(nda::interval<>(-4, (index_t)w), (index_t)fx), nda::split(nda::interval<>(2, (index_t)h), (index_t)fy)), [&](const nda::interval<>& x, const nda::interval<>& y) {
    MC_CHECK(n < want.size(), "too many calls");
    long x0 = -4 + want[n][0] * fx, y0 = 2 + want[n][1] * fy;
    MC_CHECK(x.min() == x0 && x.extent() == std::min(fx, -4 + w - x0) && y.min() == y0 && y.extent() == std::min(fy, 2 + h - y0), "call %zu is not tile %s", n, str(want[n]).c_str());
    c.obs(x.min()); c.obs(y.max());
    n++;
  });
  MC_CHECK(n == want.size(), "%zu tiles, expected %zu", n, want.size());
  if (h >= 3) {
    n = 0; size_t rows = (h + 2) / 3;
    auto want3 = morton({e[0], (long)rows});
    nda::for_each_in_z_order(std::make_tuple(nda::split(nda::interval<>(0, (index_t)w), (index_t)fx), nda::split<3>(nda::interval<>(2, (index_t)h))), [&](const auto& t) {
      MC_CHECK(n < want3.size(), "too many calls");
      long y0 = std::min(2 + want3[n][1] * 3, 2 + h - 3);
      MC_CHECK(std::get<0>(t).min() == want3[n][0] * fx && std::get<1>(t).min() == y0 && std::get<1>(t).extent() == 3, "call %zu is not tile %s", n, str(want3[n]).c_str());
      n++;
    });
    MC_CHECK(n == want3.size(), "%zu tiles, expected %zu", n, want3.size());
  }
  if (w > 0 && h > 0) c.nontrivial();
}
// Unequal ranges of different kinds, one of them with a compile-time extent.
MC_SUITE("mixed ranges") {
  long a = c.range(0, 9), b = c.range(0, 9);
  if (!c.mine()) return;
  auto want = morton({a, 3, b});
  std::vector<idx> got;
  std::vector<int> v(b); for (long k = 0; k < b; k++) v[k] = (int)(100 - k);
  nda::for_all_in_z_order(std::make_tuple(nda::interval<2>(2, (index_t)a), nda::dim<-1, 3>(), v), [&](index_t x, index_t y, int z) { got.push_back({(long)x - 2, (long)y + 1, 100 - (long)z}); });
  compare(c, got, want, "mixed ranges");
  if (!want.empty()) c.nontrivial();
}
