// C30: resampling against a direct double-precision double sum; rational arithmetic against exact fractions.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include "ref.h"
#include "array/image.h"
#include "examples/resample/resample.h"
using namespace ref;
using nda::dim; using nda::interval; using nda::shape;

// ---- rational
struct fr { __int128 n, d; };  // d > 0
static fr norm(__int128 n, __int128 d) { if (d < 0) { n = -n; d = -d; } __int128 a = n < 0 ? -n : n, b = d; while (b) { __int128 t = a % b; a = b; b = t; } if (a == 0) a = 1; return {n / a, d / a}; }
static __int128 fdiv(__int128 a, __int128 b) { __int128 q = a / b; return a % b != 0 && ((a < 0) != (b < 0)) ? q - 1 : q; }
template <class T> static void check_value(const rational<T>& r, const fr& w, const char* op) {
  MC_CHECK(r.denominator() != 0 && (__int128)r.numerator() * w.d == w.n * (__int128)r.denominator(), "%s gives %lld/%lld, expected %lld/%lld", op, (long long)r.numerator(), (long long)r.denominator(), (long long)w.n, (long long)w.d);
}
template <class T> static void check_reduced(const rational<T>& r, const fr& w, const char* op) {
  check_value(r, w, op);
  MC_CHECK(r.denominator() == (T)w.d && r.numerator() == (T)w.n, "%s gives %lld/%lld, not the reduced %lld/%lld", op, (long long)r.numerator(), (long long)r.denominator(), (long long)w.n, (long long)w.d);
}
template <class T> static std::vector<long> terms() { return sizeof(T) == 8 ? std::vector<long>{1000003, -1000003, 65536} : std::vector<long>{}; }
template <class T> static void rationals(ctx& c) {
  const int N = mc::thorough() ? 20 : 10, D = mc::thorough() ? 16 : 9;
  std::vector<long> ns, ds; for (long k = -N; k <= N; k++) ns.push_back(k); for (long k = 1; k <= D; k++) ds.push_back(k);
  for (long k : terms<T>()) { ns.push_back(k); if (k > 0) ds.push_back(k); }
  long a = c.pick(ns), b = c.pick(ds), x = c.pick(ns), y = c.pick(ds);
  if (!c.mine()) return;
  c.note("%ld/%ld and %ld/%ld", a, b, x, y);
  using R = rational<T>; const R p((T)a, (T)b), q((T)x, (T)y);
  const fr P = norm(a, b), Q = norm(x, y);
  check_reduced(p, P, "rational(n, d)"); check_reduced(q, Q, "rational(n, d)");
  check_reduced(p + q, norm(P.n * Q.d + Q.n * P.d, P.d * Q.d), "+"); check_reduced(p - q, norm(P.n * Q.d - Q.n * P.d, P.d * Q.d), "-"); check_reduced(p * q, norm(P.n * Q.n, P.d * Q.d), "*");
  if (Q.n > 0) check_reduced(p / q, norm(P.n * Q.d, P.d * Q.n), "/"); else if (Q.n < 0) check_value(p / q, norm(P.n * Q.d, P.d * Q.n), "/");
  const __int128 l = P.n * Q.d, r = Q.n * P.d;
  MC_CHECK((p < q) == (l < r) && (p <= q) == (l <= r) && (p > q) == (l > r) && (p >= q) == (l >= r) && (p == q) == (l == r) && (p != q) == (l != r), "a comparison is wrong: < %d <= %d > %d >= %d == %d != %d", p < q, p <= q, p > q, p >= q, p == q, p != q);
  check_reduced(min(p, q), l < r ? P : Q, "min"); check_reduced(max(p, q), l > r ? P : Q, "max");
  if (y == 1) {  // with a plain number on the left
    check_reduced((T)x + p, norm(P.n + x * P.d, P.d), "number +"); check_reduced((T)x - p, norm(x * P.d - P.n, P.d), "number -"); check_reduced((T)x * p, norm(P.n * x, P.d), "number *");
    if (P.n > 0) check_reduced((T)x / p, norm(x * P.d, P.n), "number /");
    check_reduced(R((T)x), Q, "rational(x)"); check_reduced(p + R((T)x), norm(P.n + x * P.d, P.d), "+ number");
  }
  MC_CHECK(floor(p) == (T)fdiv(P.n, P.d), "floor gives %lld", (long long)floor(p)); MC_CHECK(ceil(p) == (T)-fdiv(-P.n, P.d), "ceil gives %lld", (long long)ceil(p));
  MC_CHECK(round(p) == (T)fdiv(2 * P.n + P.d, 2 * P.d), "round gives %lld", (long long)round(p));
  check_reduced(frac(p), norm(P.n - fdiv(P.n, P.d) * P.d, P.d), "frac");
  MC_CHECK(std::fabs(to_float(p) - (double)P.n / (double)P.d) <= 1e-6 * std::fabs((double)P.n / (double)P.d), "to_float gives %g", (double)to_float(p));
  // integers: the Euclidean division underneath, any signs
  for (long u : {a, x}) for (long v : {b, -b, y, -y}) { long m = u % v; if (m < 0) m += std::labs(v);
    MC_CHECK(euclidean_mod((T)u, (T)v) == (T)m && euclidean_div((T)u, (T)v) == (T)((u - m) / v), "euclidean division of %ld by %ld gives %lld remainder %lld", u, v, (long long)euclidean_div((T)u, (T)v), (long long)euclidean_mod((T)u, (T)v)); }
  { long g = std::labs(a), h = b; while (h) { long t = g % h; g = h; h = t; } MC_CHECK((long)gcd((T)a, (T)b) == g, "gcd(%ld, %ld) gives %lld", a, b, (long long)gcd((T)a, (T)b)); }
  c.obs((uint64_t)(long)P.n); c.obs((uint64_t)(long)Q.n); c.nontrivial();
}
#ifndef KNOWN
MC_SUITE("rational of 64 bits") { rationals<std::ptrdiff_t>(c); }
MC_SUITE("rational of 32 bits") { rationals<int>(c); }
MC_SUITE("chains of rationals") {  // expressions such as the resampler's (x + 1/2) / rate - 1/2
  long x = c.range(-20, 20), n = c.range(1, 12), d = c.range(1, 12);
  if (!c.mine()) return;
  c.note("x %ld rate %ld/%ld", x, n, d);
  using R = rational<index_t>; R half(1, 2);
  R v = ((index_t)x + half) / R((index_t)n, (index_t)d) - half;
  check_reduced(v, norm((2 * x + 1) * d - n, 2 * n), "(x + 1/2) / rate - 1/2");
  MC_CHECK(R(floor(v)) <= v && R(floor(v) + 1) > v && R(ceil(v)) >= v && R(ceil(v) - 1) < v, "floor or ceil out of order");
  check_reduced(floor(v) + frac(v), norm((2 * x + 1) * d - n, 2 * n), "floor + frac"); c.obs((uint64_t)floor(v)); c.nontrivial();
}
#endif
// ---- kernels: definitions of the documented kernels in double precision
enum K { BOX, LINEAR, IQUAD, ICUBIC, BQUAD, BCUBIC, L2, L3, NK };
static const char* kname[NK] = {"box", "linear", "interpolating_quadratic", "interpolating_cubic", "quadratic_bspline", "cubic_bspline", "lanczos<2>", "lanczos<3>"};
static double quad(double s, double r) { s = std::fabs(s); return s < 0.5 ? -2 * r * s * s + 0.5 * (r + 1) : s < 1.5 ? r * s * s + (-2 * r - 0.5) * s + 0.75 * (r + 1) : 0; }
static double cubic(double s, double B, double C) { s = std::fabs(s); return s <= 1 ? ((12 - 9 * B - 6 * C) * s * s * s + (-18 + 12 * B + 6 * C) * s * s + (6 - 2 * B)) / 6 : s <= 2 ? ((-B - 6 * C) * s * s * s + (6 * B + 30 * C) * s * s + (-12 * B - 48 * C) * s + (8 * B + 24 * C)) / 6 : 0; }
static double sc(double s) { s *= 3.14159265358979323846; return std::fabs(s) < 1e-9 ? 1 : std::sin(s) / s; }
static double kernel(int k, double s) {
  switch (k) {
    case BOX: return std::fabs(s) <= 0.5 ? 1 : 0;
    case LINEAR: return std::max(0.0, 1 - std::fabs(s));
    case IQUAD: return quad(s, 1); case BQUAD: return quad(s, 0.5);
    case ICUBIC: return cubic(s, 0, 0.5); case BCUBIC: return cubic(s, 1, 0);
    case L2: return std::fabs(s) <= 2 ? sc(s) * sc(s / 2) : 0;
    default: return std::fabs(s) <= 3 ? sc(s) * sc(s / 3) : 0;
  }
}
static nda::continuous_kernel real_kernel(int k) {
  switch (k) {
    case BOX: return nda::box; case LINEAR: return nda::linear; case IQUAD: return nda::interpolating_quadratic; case ICUBIC: return nda::interpolating_cubic;
    case BQUAD: return nda::quadratic_bspline; case BCUBIC: return nda::cubic_bspline; case L2: return nda::lanczos<2>; default: return nda::lanczos<3>;
  }
}
#ifndef KNOWN
MC_SUITE("kernels") {
  int k = c.choose(NK); long i = c.range(-1000, 1000);
  if (!c.mine()) return;
  c.note("%s at %ld/256", kname[k], i);
  float s = (float)i / 256; double got = real_kernel(k)(s), want = kernel(k, s);
  MC_CHECK(std::fabs(got - want) < 2e-6, "%s(%g) is %.8g, expected %.8g", kname[k], (double)s, got, want);
  c.obs((uint64_t)(long)(want * 1e6)); if (want) c.nontrivial();
}
#endif
// ---- resampling: weights[x][rx] along one axis
struct axis { long in0, inn, out0, outn, n, d; };
static bool weights(const axis& a, int k, std::vector<std::vector<double>>& w) {
  w.assign((size_t)a.outn, std::vector<double>((size_t)a.inn, 0));
  const double scale = std::min((double)a.n / (double)a.d, 1.0);
  for (long x = 0; x < a.outn; x++) {
    const long X = a.out0 + x; double sum = 0; const double in_x = (X + 0.5) * (double)a.d / (double)a.n - 0.5;
    for (long r = 0; r < a.inn; r++) {
      double s = ((double)(a.in0 + r) - in_x) * scale;
      if (k == BOX && std::fabs(std::fabs(s) - 0.5) < 1e-5 && !((a.n & (a.n - 1)) == 0 && (a.d & (a.d - 1)) == 0)) return false;  // exactly on the edge, decided by rounding
      double v = kernel(k, s); sum += v; w[x][r] = v;
    }
    if (sum < 0.05) return false;  // the output lies beside the source: outside the contract (the sum must be positive)
    for (double& v : w[x]) v /= sum;
  }
  return true;
}
enum { NO_IMPULSES, COLUMNS, ROWS };
template <class SI, class SO> static void compare(ctx& c, const axis& ax, const axis& ay, int k, long channels, int impulses) {
  std::vector<std::vector<double>> wx, wy;
  if (!weights(ax, k, wx) || !weights(ay, k, wy)) return c.skip();
  auto mk = [&](long x0, long xn, long y0, long yn) { return shape<dim<>, dim<>, dim<>>(dim<>((index_t)x0, (index_t)xn, nda::unresolved), dim<>((index_t)y0, (index_t)yn, nda::unresolved), dim<>(0, (index_t)channels, nda::unresolved)); };
  auto src = [&](auto s) { return s; };
  nda::array<float, SI> in(SI(src(mk(ax.in0, ax.inn, ay.in0, ay.inn))), 0.0f); nda::array<float, SO> out(SO(mk(ax.out0, ax.outn, ay.out0, ay.outn)), 777.0f);
  auto run = [&](const char* what) {
    nda::fill(out, 777.0f);
    nda::resample(in.cref(), out.ref(), rational<index_t>((index_t)ax.n, (index_t)ax.d), rational<index_t>((index_t)ay.n, (index_t)ay.d), real_kernel(k));
    for (long y = 0; y < ay.outn; y++) for (long x = 0; x < ax.outn; x++) for (long q = 0; q < channels; q++) {
      double want = 0; for (long b = 0; b < ay.inn; b++) { if (wy[y][b] == 0) continue; for (long a = 0; a < ax.inn; a++) want += wx[x][a] * wy[y][b] * in(ax.in0 + a, ay.in0 + b, q); }
      const double got = out(ax.out0 + x, ay.out0 + y, q);
      MC_CHECK(std::fabs(got - want) < 5e-4, "%s: output pixel (%ld, %ld, %ld) is %.7g, expected %.7g", what, ax.out0 + x, ay.out0 + y, q, got, want);
    }
  };
  // one bright column, or bright rows 16 apart
  if (impulses == COLUMNS) for (long a = 0; a < ax.inn; a++) { nda::fill(in, 0.0f); for (long b = 0; b < ay.inn; b++) in(ax.in0 + a, ay.in0 + b, channels - 1) = 1.0f + (float)(b % 7) / 8; run("impulse"); }
  if (impulses == ROWS) for (long p = 0; p < 16 && p < ay.inn; p++) { nda::fill(in, 0.0f); for (long b = p; b < ay.inn; b += 16) for (long a = 0; a < ax.inn; a++) in(ax.in0 + a, ay.in0 + b, channels - 1) = 1.0f + (float)(b % 5) / 4; run("impulse"); }
  { int n = 1; nda::for_each_index_in_order(in.shape(), [&](const typename SI::index_type& i) { n = n * 31 % 257; in[i] = (float)n / 64; }); run("pattern"); }
  // the weights of every output sum to one
  nda::fill(in, 3.0f); run("constant"); out.for_each_value([&](float& v) { MC_CHECK(std::fabs(v - 3.0f) < 1e-4, "a constant image resamples to %g", (double)v); });
  for (auto& r : wx) for (double v : r) c.obs((uint64_t)(long)(v * 1e4)); for (auto& r : wy) for (double v : r) c.obs((uint64_t)(long)(v * 1e4));
  c.nontrivial();
}
static axis pick_axis(ctx& c, const std::vector<std::array<long, 2>>& rates, long in_max, const std::vector<long>& in_mins) {
  axis a; auto r = rates[(size_t)c.choose((int)rates.size())]; a.n = r[0]; a.d = r[1]; a.in0 = c.pick(in_mins); a.inn = c.range(1, in_max);
  // where the source lands, cut or shifted
  long lo = (long)std::floor((double)a.in0 * a.n / a.d), len = std::max(1L, (long)std::ceil((double)a.inn * a.n / a.d)); int cut = c.choose(4);
  a.out0 = lo + (cut & 1 ? 1 : 0); a.outn = cut & 2 ? std::max(1L, len - 2) : len; return a;
}
// All outputs here have at least 64 rows: see KNOWN below for smaller ones.
// The rows of an output and the rows of the source they come from.
static axis pick_rows(ctx& c, const std::vector<std::array<long, 2>>& rates, const std::vector<long>& outs, const std::vector<long>& in_mins) {
  axis a; auto r = rates[(size_t)c.choose((int)rates.size())]; a.n = r[0]; a.d = r[1]; a.outn = c.pick(outs); a.in0 = c.pick(in_mins);
  long lo = (long)std::floor((double)a.in0 * a.n / a.d); int cut = c.choose(4);
  a.out0 = lo + (cut & 1 ? 1 : 0); a.inn = std::max(1L, (a.outn * a.d + a.n - 1) / a.n + (cut & 2 ? 2 : 0)); return a;
}
using generic = nda::image_shape; using planar = nda::planar_image_shape; using chunky = nda::chunky_image_shape<2>;
#ifndef KNOWN
MC_SUITE("resample along x") {
  int k = c.choose(NK);
  axis a = pick_axis(c, {{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 3}, {3, 1}, {1, 3}, {5, 4}, {7, 5}}, mc::thorough() ? 9 : 6, {0, -2, 3});
  if (!c.mine()) return;
  c.note("%s rate %ld/%ld source [%ld, +%ld) output [%ld, +%ld)", kname[k], a.n, a.d, a.in0, a.inn, a.out0, a.outn);
  compare<planar, planar>(c, a, axis{0, 64, 0, 64, 1, 1}, k, 1, COLUMNS);
}
MC_SUITE("resample along y") {
  int k = c.choose(NK);
  axis a = pick_rows(c, {{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 3}, {3, 1}, {1, 3}, {5, 4}, {7, 5}, {13, 1}, {70, 3}, {1, 9}}, mc::thorough() ? std::vector<long>{64, 65, 66, 80, 127, 128, 129, 192, 193, 200} : std::vector<long>{64, 65, 80, 129}, {0, -2, 3});
  if (!c.mine()) return;
  c.note("%s rate %ld/%ld source [%ld, +%ld) output [%ld, +%ld)", kname[k], a.n, a.d, a.in0, a.inn, a.out0, a.outn);
  compare<generic, planar>(c, axis{0, 1, 0, 1, 1, 1}, a, k, 1, ROWS);
}
MC_SUITE("resample along both") {
  int k = c.choose(mc::thorough() ? (int)NK : 5); int f = c.choose(3);
  std::vector<std::array<long, 2>> rates = {{1, 1}, {2, 1}, {2, 3}};
  axis a = pick_axis(c, rates, 3, {-1}), b = pick_rows(c, rates, mc::thorough() ? std::vector<long>{64, 65, 130} : std::vector<long>{65}, mc::thorough() ? std::vector<long>{0, 2} : std::vector<long>{2});
  if (!c.mine()) return;
  c.note("%s rates %ld/%ld %ld/%ld source [%ld, +%ld) x [%ld, +%ld) output [%ld, +%ld) x [%ld, +%ld) format %d", kname[k], a.n, a.d, b.n, b.d, a.in0, a.inn, b.in0, b.inn, a.out0, a.outn, b.out0, b.outn, f);
  if (f == 0) compare<planar, planar>(c, a, b, k, 2, NO_IMPULSES); else if (f == 1) compare<chunky, chunky>(c, a, b, k, 2, NO_IMPULSES); else compare<generic, chunky>(c, a, b, k, 2, NO_IMPULSES);
}
MC_SUITE("resample tall images") {  // several strips
  int k = c.choose(3); long h = c.pick(std::vector<long>{1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 129, 200}), o = c.pick(std::vector<long>{64, 65, 66, 127, 128, 129, 191, 192, 193, 200, 257}); long m = c.pick(std::vector<long>{0, -5});
  if (!c.mine()) return;
  c.note("%s height %ld to %ld", kname[k], h, o);
  compare<planar, planar>(c, axis{0, 2, 0, 3, 3, 2}, axis{0, h, m < 0 && o > 64 ? 1 : 0, m < 0 && o > 64 ? o - 1 : o, o, h}, k + 1, 1, NO_IMPULSES);
}
MC_SUITE("resample wide images") {
  int k = c.choose(3); long w = c.pick(std::vector<long>{1, 31, 64, 65, 129, 200}), o = c.pick(std::vector<long>{1, 7, 63, 64, 65, 127, 128, 129, 200});
  if (!c.mine()) return;
  c.note("%s width %ld to %ld", kname[k], w, o);
  compare<planar, planar>(c, axis{0, w, 0, o, o, w}, axis{0, 4, 0, 64, 16, 1}, k + 1, 1, NO_IMPULSES);
}
MC_SUITE("rate one") {
  int k = c.choose(5); static const int ks[] = {BOX, LINEAR, ICUBIC, L2, L3}; k = ks[k]; long w = c.range(1, 7), h = c.range(64, 70), x0 = c.range(-2, 2), y0 = c.range(-1, 1);
  if (!c.mine()) return;
  c.note("%s %ldx%ld at %ld, %ld", kname[k], w, h, x0, y0);
  nda::planar_image<float> in({dim<>((index_t)x0, (index_t)w), dim<>((index_t)y0, (index_t)h), dim<>(0, 2)}), out(in.shape(), 777.0f);
  int n = 1; nda::generate(in, [&] { n = n * 31 % 257; return (float)n; });
  nda::resample(in.cref(), out.ref(), rational<index_t>(1), rational<index_t>(1), real_kernel(k));
  nda::for_all_indices(in.shape(), [&](index_t x, index_t y, index_t q) { MC_CHECK(std::fabs(in(x, y, q) - out(x, y, q)) < 1e-3, "pixel (%ld, %ld, %ld) changes from %g to %g", (long)x, (long)y, (long)q, (double)in(x, y, q), (double)out(x, y, q)); });
  c.obs((uint64_t)(w * 8 + h)); c.nontrivial();
}
#else
// The finding listed in known_findings.txt: fewer than 64 output rows.
MC_SUITE("known: resample to fewer than 64 rows") {
  c.note("linear, 4x10 pixels at rate 1");
  compare<planar, planar>(c, axis{0, 4, 0, 4, 1, 1}, axis{0, 10, 0, 10, 1, 1}, LINEAR, 1, NO_IMPULSES);
}
#endif
