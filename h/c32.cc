// C32: the example matrix products and convolutions compute what they say.
#include "ref.h"
#include "array/ein_reduce.h"
#include "array/matrix.h"
#include "array/z_order.h"
#include "examples/benchmark.h"
#include <functional>
#include <iostream>
#include <random>
#include <x86intrin.h>
// The examples include these from their own directory.
#define main example_main
namespace ex_matrix {
#include "examples/linear_algebra/matrix.cpp"
}
namespace ex_conv {
#include "examples/linear_algebra/conv2d_relu.cpp"
}
#undef main
using namespace ref;
using mc::ctx;

template <class T> struct version { const char* name; void (*fn)(nda::const_matrix_ref<T>, nda::const_matrix_ref<T>, nda::matrix_ref<T>); bool tiled; };
template <class T> static const std::vector<version<T>>& versions() {
  static const std::vector<version<T>> v = {
    {"reduce_cols", ex_matrix::multiply_reduce_cols<T>, false}, {"ein_reduce_cols", ex_matrix::multiply_ein_reduce_cols<T>, false},
    {"reduce_rows", ex_matrix::multiply_reduce_rows<T>, false}, {"ein_reduce_rows", ex_matrix::multiply_ein_reduce_rows<T>, false},
    {"reduce_matrix", ex_matrix::multiply_reduce_matrix<T>, false}, {"ein_reduce_matrix", ex_matrix::multiply_ein_reduce_matrix<T>, false},
    {"reduce_tiles", ex_matrix::multiply_reduce_tiles<T>, true}, {"ein_reduce_tiles", ex_matrix::multiply_ein_reduce_tiles<T>, true},
    {"reduce_tiles_z_order", ex_matrix::multiply_reduce_tiles_z_order<T>, true}};
  return v;
}
// Small integers: every product and partial sum is exact in every element type.
static long av(long i, long k) { return (i * 7 + k * 3) % 5 - 2 + (k == i ? 3 : 0); }
static long bv(long k, long j) { return (k * 5 + j * 11) % 7 - 3; }

template <class T> static void products(ctx& c, long M, long K, long N, bool tiled_too, bool only_tiled, bool known = false) {
  // mins of i, j, k and the padding of each row
  static const std::vector<std::array<long, 6>> layouts = {{{0, 0, 0, 0, 0, 0}}, {{-3, 2, 5, 1, 0, 3}}, {{1, -1, -7, 0, 2, 1}}};
  auto l = c.pick(layouts);
  const version<T>& ver = c.pick(versions<T>());
  if (ver.tiled ? !tiled_too : only_tiled) return c.skip();
  if (!c.mine()) return;
  
  c.note("%s, %ldx%ldx%ld, mins i %ld, j %ld, k %ld, padding %ld %ld %ld", ver.name, M, K, N, l[0], l[1], l[2], l[3], l[4], l[5]);
  using S = nda::matrix_shape<>;
  S sa(nda::dim<>(l[0], M, K + l[3]), nda::dense_dim<>(l[2], K)), sb(nda::dim<>(l[2], K, N + l[4]), nda::dense_dim<>(l[1], N)), sc(nda::dim<>(l[0], M, N + l[5]), nda::dense_dim<>(l[1], N));
  std::vector<T> a(M * (K + l[3]) + 64, T(99)), b(K * (N + l[4]) + 64, T(77));
  std::vector<long> want(M * N);
  for (long i = 0; i < M; i++) for (long k = 0; k < K; k++) a[i * (K + l[3]) + k] = (T)av(i, k);
  for (long k = 0; k < K; k++) for (long j = 0; j < N; j++) b[k * (N + l[4]) + j] = (T)bv(k, j);
  for (long i = 0; i < M; i++) for (long k = 0; k < K; k++) { long x = av(i, k); for (long j = 0; j < N; j++) want[i * N + j] += x * bv(k, j); }
  std::vector<T> out(M * (N + l[5]) + 64, T(-555));
  ver.fn(nda::const_matrix_ref<T>(a.data(), sa), nda::const_matrix_ref<T>(b.data(), sb), nda::matrix_ref<T>(out.data(), sc));
  // The findings listed in known_findings.txt: elements that two tiles of the z-order product share are added up twice; nothing is set without inner elements.
  const long tc = 3 * 32 / (long)sizeof(T);
  const bool z_order = !strcmp(ver.name, "reduce_tiles_z_order"), sums_twice = z_order && K > 256, unset = z_order && K == 0;
  auto shared = [](long x, long n, long t) { return n % t != 0 && x >= n - t && x < n / t * t; };
  long excepted = 0;
  for (long i = 0; i < M; i++) {
    for (long j = 0; j < N; j++) if (!known && unset) excepted++; else if (!known && sums_twice && (shared(i, M, 4) || shared(j, N, tc))) excepted++; else if (out[i * (N + l[5]) + j] != (T)want[i * N + j])
      mc::fail("element (%ld, %ld) is %g, expected %ld", i, j, (double)out[i * (N + l[5]) + j], want[i * N + j]);
    for (long j = N; j < N + l[5]; j++) if (out[i * (N + l[5]) + j] != T(-555)) mc::fail("padding of row %ld was written", i);
  }
  for (size_t p = M * (N + l[5]); p < out.size(); p++) if (out[p] != T(-555)) mc::fail("memory past the result was written");
  std::vector<T> plain(M * N, T(-1)), pa(M * K + 1), pb(K * N + 1);
  if (&ver == &versions<T>()[0]) {
    for (long i = 0; i < M; i++) for (long k = 0; k < K; k++) pa[i * K + k] = (T)av(i, k);
    for (long k = 0; k < K; k++) for (long j = 0; j < N; j++) pb[k * N + j] = (T)bv(k, j);
    plain.resize(M * N + 1);
    ex_matrix::multiply_ref<T, T>(pa.data(), pb.data(), plain.data(), (int)M, (int)K, (int)N);
    for (long p = 0; p < M * N; p++) if (plain[p] != (T)want[p]) mc::fail("multiply_ref: element %ld is %g, expected %ld", p, (double)plain[p], want[p]);
  }
  if (excepted) mc::count(0, "elements_of_the_known_finding", excepted);
  if (M && N && K) c.nontrivial();
  c.obs(M); c.obs(N); c.obs(K); c.obs(&ver - versions<T>().data()); c.obs(l[0]); c.obs(sizeof(T));
}
template <class T> static void small(ctx& c) {
  long m = c.range(0, mc::thorough() ? 6 : 4), k = c.range(0, mc::thorough() ? 6 : 4), n = c.range(0, mc::thorough() ? 6 : 4);
  products<T>(c, m, k, n, false, false);
}
// Rows and columns around one, two and three tiles, whether or not the tile divides them.
template <class T> static void tiles(ctx& c) {
  long tc = 3 * 32 / (long)sizeof(T);
  long m = c.range(4, mc::thorough() ? 17 : 13), n = mc::thorough() ? c.range(tc, 3 * tc + 2) : tc + c.pick(std::vector<long>{0, 1, 2, tc / 2, tc - 1, tc, tc + 1, tc + 5, 2 * tc - 1, 2 * tc, 2 * tc + 3}), k = c.pick(std::vector<long>{0, 1, 2, 5});
  products<T>(c, m, k, n, true, true);
}
// Inner extents around one and two blocks of 256.
template <class T> static void deep(ctx& c) {
  long tc = 3 * 32 / (long)sizeof(T);
  long m = c.range(4, mc::thorough() ? 13 : 9), n = tc + c.pick(std::vector<long>{0, 1, tc / 2, tc - 1, tc, tc + 1, 2 * tc, 2 * tc + 5}), k = c.pick(std::vector<long>{255, 256, 257, 300, 512, 513});
  products<T>(c, m, k, n, true, true);
}
#ifndef KNOWN
MC_SUITE("small float") { small<float>(c); }
MC_SUITE("small double") { small<double>(c); }
MC_SUITE("small int") { small<int>(c); }
MC_SUITE("tiles float") { tiles<float>(c); }
MC_SUITE("tiles double") { tiles<double>(c); }
MC_SUITE("tiles int") { tiles<int>(c); }
MC_SUITE("deep float") { deep<float>(c); }
MC_SUITE("deep double") { deep<double>(c); }

// Convolution with a rectified output.
template <class T> static void conv(ctx& c, bool tiled, long CO, long W, long H, long N, long CI, long FW, long FH) {
  if (!c.mine()) return;
  c.note("convolution %s, %ld outputs, %ldx%ld, %ld images, %ld inputs, filter %ldx%ld", tiled ? "tiled" : "naive", CO, W, H, N, CI, FW, FH);
  using S4 = nda::shape<nda::dense_dim<>, nda::dim<>, nda::dim<>, nda::dim<>>;
  nda::array<T, S4> in(S4(CI, W + FW - 1, H + FH - 1, N)), f(S4(CO, FW, FH, CI)), out(S4(CO, W, H, N), T(-99));
  nda::vector<T> bias(nda::vector_shape<>((index_t)CO));
  nda::for_each_index(in.shape(), [&](const nda::index_of_rank<4>& i) { in[i] = (T)((std::get<0>(i) * 3 + std::get<1>(i) * 5 + std::get<2>(i) * 2 + std::get<3>(i)) % 7 - 3); });
  nda::for_each_index(f.shape(), [&](const nda::index_of_rank<4>& i) { f[i] = (T)((std::get<0>(i) * 2 + std::get<1>(i) + std::get<2>(i) * 3 + std::get<3>(i) * 5) % 5 - 2); });
  for (long o = 0; o < CO; o++) bias(o) = (T)(o % 9 - 4);
  if (tiled) ex_conv::conv2d_tiled(in.cref(), f.cref(), bias.cref(), out.ref()); else ex_conv::conv2d_naive(in.cref(), f.cref(), bias.cref(), out.ref());
  for (long n = 0; n < N; n++) for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) for (long o = 0; o < CO; o++) {
    long s = o % 9 - 4;
    for (long i = 0; i < CI; i++) for (long dy = 0; dy < FH; dy++) for (long dx = 0; dx < FW; dx++)
      s += ((o * 2 + dx + dy * 3 + i * 5) % 5 - 2) * ((i * 3 + (x + dx) * 5 + (y + dy) * 2 + n) % 7 - 3);
    long w = std::max(0l, s);
    if (out(o, x, y, n) != (T)w) mc::fail("output (%ld, %ld, %ld, %ld) is %g, expected %ld", o, x, y, n, (double)out(o, x, y, n), w);
  }
  c.nontrivial(); c.obs(CO * 1000 + W * 100 + H * 10 + N); c.obs(CI * 100 + FW * 10 + FH); c.obs(tiled);
}
template <class T> static void convs(ctx& c) {
  long tc = 3 * 32 / (long)sizeof(T);
  bool tiled = c.flip();
  long co = tiled ? tc + c.pick(std::vector<long>{0, 1, tc / 2, tc, tc + 1}) : c.range(1, 4), w = tiled ? c.range(4, 9) : c.range(1, 4);
  long h = c.range(1, 2), n = c.range(1, 2), ci = c.range(0, 3), fw = c.range(1, 3), fh = c.range(1, 3);
  conv<T>(c, tiled, co, w, h, n, ci, fw, fh);
}
MC_SUITE("conv float") { convs<float>(c); }
MC_SUITE("conv double") { convs<double>(c); }
#elif KNOWN == 1
MC_SUITE("known: z-order product with inner extents over 256 and partial tiles") { products<double>(c, 4, 257, 13, true, true, true); }
#else
MC_SUITE("known: z-order product with inner extent 0") { products<double>(c, 4, 0, 12, true, true, true); }
#endif
