// C19: Einstein reductions equal the reference loop nest.
#include "ein.h"
using namespace ein_;

// One expression: destination, operands, number of loop indices.
// X provides: expr(dst, ops..., log), eval(values of operands), apply(destination, value).
template <class X, size_t N, class D, class... O> struct expr_case {};
template <class C> struct exprs;
template <class X, size_t N, class D, class... O> struct exprs<expr_case<X, N, D, O...>> {
  static std::string name() { std::string s = X::name(); std::string d[] = {shape_name<typename D::shape>(), shape_name<typename O::shape>()...}; int n[] = {(int)D::K_, (int)O::K_...}; for (auto& q : d) s += " " + q; for (int q : n) s += std::to_string(q); std::vector<int> ix[] = {D::ix(), O::ix()...}; for (auto& v : ix) { s += "/"; for (int q : v) s += std::to_string(q); } return s; }
  template <size_t... J> static void go(ctx& c, std::index_sequence<J...>) {
    std::vector<known> k(N); know<D>(k, true); int dummy[] = {(know<O>(k, false), 0)..., 0}; (void)dummy;
    std::vector<bound> b = choose_bounds(c, k, false, !strchr(X::name(), '*') || !strstr(X::name(), "d *"));
    if (!c.mine()) return;
    rshape rdst = operand_shape<D>(b, k, false, c.choose(3));
    if (!ref::empty(rdst) && !injective(rdst)) c.discard();
    rshape rops[] = {pick_one<O>(c, b, k)..., rshape()};
    std::tuple<mat<O>...> ops; mat<D> dst;
    dst.make(rdst, 7);
    int d2[] = {(std::get<J>(ops).make(rops[J], (long)J + 1), 0)..., 0}; (void)d2;
    std::string all; for (auto& x : rops) all += " " + ref::str(x);
    c.note("%s with loops %s, destination %s, operands%s", X::name(), str(b).c_str(), ref::str(rdst).c_str(), all.c_str());
    for (auto& x : b) { c.obs(x.min); c.obs(x.extent); } for (auto& d : rdst) c.obs(d.stride); for (auto& r : rops) for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    dst.snapshot(); int d3[] = {(std::get<J>(ops).snapshot(), 0)..., 0}; (void)d3;
    std::vector<idx> log, want;
    auto result = nda::ein_reduce(X::expr(dst.ein(), std::get<J>(ops).ein()..., logger<N>(log)));
    each_loop(b, [&](const idx& i) {
      want.push_back(i);
      X::apply(dst.model(select(i, D::ix())), X::eval(std::get<J>(ops).at(select(i, O::ix()))...));
    });
    if (log.size() != want.size()) mc::fail("%zu evaluations, expected %zu", log.size(), want.size());
    for (size_t n = 0; n < log.size(); n++) if (log[n] != want[n]) mc::fail("evaluation %zu is at %s, expected %s", n, ref::str(log[n]).c_str(), ref::str(want[n]).c_str());
    dst.check("destination");
    int d4[] = {(std::get<J>(ops).check("operand"), 0)..., 0}; (void)d4;
    same_result(result, dst);
    if (!want.empty()) c.nontrivial();
  }
  // the returned left-hand side is the destination
  template <class T, class S> static void same_result(const nda::array_ref<T, S>& v, const mat<D>& dst) {
    const long* b = dst.arr ? dst.arr->base() : dst.base;
    MC_CHECK(v.base() == b && from_shape(v.shape()) == dst.r, "the result is not the destination");
  }
  template <class O1> static rshape pick_one(ctx& c, const std::vector<bound>& b, const std::vector<known>& k) {
    constexpr bool is_arr = O1::K_ == ARR || O1::K_ == CARR;
    if (O1::R == 0) return rshape();
    int l = c.choose(is_arr ? 2 : sizeof...(O) > 1 && !mc::thorough() ? 3 : 4);
    bool w = c.flip();
    rshape r = operand_shape<O1>(b, k, w, l);
    if (is_arr && !ref::empty(r) && !injective(r)) c.discard();
    return r;
  }
  static void run(ctx& c) { go(c, std::make_index_sequence<sizeof...(O)>()); }
};

#define EXPR(NAME, TXT, EXPR_ARGS, EXPR_BODY, EVAL_ARGS, EVAL_BODY, APPLY) \
  struct NAME { static const char* name() { return TXT; } \
    template <class D, class A = int, class B = int, class E = int, class L = int> static auto expr EXPR_ARGS { return EXPR_BODY; } \
    static long eval EVAL_ARGS { return EVAL_BODY; } static void apply(long& d, long v) { APPLY; } };
#define DABL (const D& d, const A& a, const B& b, const E& l)
#define DAL (const D& d, const A& a, const B& l)
#define DABEL (const D& d, const A& a, const B& b, const E& e, const L& l)
EXPR(sum1, "d += a", DAL, d += a + l, (long a), a, d += v)
EXPR(set1, "d = a", DAL, d = a + l, (long a), a, d = v)
EXPR(sub1, "d -= a", DAL, d -= l + a, (long a), a, d -= v)
EXPR(mul1, "d *= a", DAL, d *= a - l, (long a), a, d *= v)
EXPR(neg1, "d = -a", DAL, d = -(a + l), (long a), -a, d = v)
EXPR(negneg, "d = -(-a) - -a", DAL, d = -(-a) - -a + l, (long a), 2 * a, d = v)
EXPR(cast1, "d += cast<signed char>(a * a)", DAL, d += nda::cast<signed char>(a * a) + l, (long a), (long)(signed char)(a * a), d += v)
EXPR(prod2, "d += a * b", DABL, d += a * b + l, (long a, long b), a * b, d += v)
EXPR(set2, "d = a * b", DABL, d = a * b + l, (long a, long b), a * b, d = v)
EXPR(add2, "d *= a + b", DABL, d *= a + b + l, (long a, long b), a + b, d = (long)((unsigned long)d * (unsigned long)v))
EXPR(sub2, "d -= a - b", DABL, d -= a - b + l, (long a, long b), a - b, d -= v)
EXPR(div2, "d = a / b", DABL, d = a / (b + l), (long a, long b), a / b, d = v)
EXPR(min2, "d += min(a, b)", DABL, d += nda::min(a, b + l), (long a, long b), std::min(a, b), d += v)
EXPR(max2, "d = max(a, b)", DABL, d = max(a + l, b), (long a, long b), std::max(a, b), d = v)
EXPR(maxd, "d = max(d, a)", DAL, d = max(d, a + l), (long a), a, d = std::max(d, v))
EXPR(mind, "d = min(d, a)", DAL, d = min(a + l, d), (long a), a, d = std::min(d, v))
EXPR(hist, "d = d - a", DAL, d = d - (a + l), (long a), a, d = d - v)
EXPR(horner, "d = d * a + a", DAL, d = d * a + (a + l), (long a), a, d = (long)((unsigned long)d * (unsigned long)v + (unsigned long)v))
EXPR(prod3, "d += a * b * e", DABEL, d += a * b * e + l, (long a, long b, long e), a * b * e, d += v)
EXPR(mixed3, "d -= (a + b) * (a - e)", DABEL, d -= (a + b) * (a - e) + l, (long a, long b, long e), (a + b) * (a - e), d -= v)
EXPR(sel3, "d = -a + min(b, max(a, e))", DABEL, d = -a + min(b, max(a, e + l)), (long a, long b, long e), -a + std::min(b, std::max(a, e)), d = v)

using v1 = shape<dim<>>; using d1 = shape<dense_dim<>>; using f1 = shape<dim<dynamic, 3>>; using z1 = shape<dim<0, 2, 1>>; using m1 = shape<dim<2>>;
using v2 = shape_of_rank<2>; using d2 = dense_shape<2>; using x2 = nda::matrix_shape<>; using f2 = nda::fixed_dense_shape<2, 3>; using b2 = shape<dim<>, nda::broadcast_dim<>>;
using v3 = shape_of_rank<3>; using d3 = dense_shape<3>; using c3 = nda::chunky_image_shape<2>; using v4 = shape_of_rank<4>; using v5 = shape_of_rank<5>; using v6 = shape_of_rank<6>; using d5 = dense_shape<5>;
template <kind K, class S, size_t... I> using o = opnd<K, S, I...>;
template <class X, size_t N, class D, class... O> using e = expr_case<X, N, D, O...>;
using s0 = scalar_opnd; using cs = const_scalar_opnd;

using group0 = types<
  e<sum1, 1, s0, o<REF, v1, 0>>, e<sum1, 1, s0, o<CARR, d1, 0>>, e<sum1, 1, o<ARR, shape<>>, o<CREF, f1, 0>>, e<sum1, 1, s0, ptr_opnd<0>>, e<sum1, 1, s0, carray_opnd<0, 3>>, e<hist, 1, s0, o<REF, v1, 0>>, e<horner, 1, s0, o<REF, v1, 0>>,
  e<set1, 0, s0, cs>, e<sum1, 0, s0, s0>, e<mul1, 0, s0, cs>, e<prod2, 0, o<ARR, shape<>>, s0, cs>, e<prod2, 1, s0, cs, o<REF, v1, 0>>,
  e<set1, 1, o<REF, v1, 0>, o<REF, v1, 0>>, e<set1, 1, o<ARR, d1, 0>, o<ARR, d1, 0>>, e<set1, 1, o<ARR, d1, 0>, o<CARR, d1, 0>>, e<set1, 1, o<REF, f1, 0>, o<REF, v1, 0>>, e<set1, 1, o<REF, v1, 0>, o<REF, f1, 0>>, e<set1, 1, ptr_opnd<0>, ptr_opnd<0>>, e<sum1, 1, carray_opnd<0, 2>, o<CREF, v1, 0>>, e<sum1, 1, o<REF, m1, 0>, o<REF, v1, 0>>, e<sum1, 1, o<REF, v1, 0>, o<REF, m1, 0>>,
  e<set1, 1, o<REF, v1, 0>, cs>, e<set1, 1, o<ARR, d1, 0>, s0>, e<sub1, 1, o<REF, v1, 0>, s0>, e<sub1, 1, o<REF, v1, 0>, o<REF, d1, 0>>, e<mul1, 1, o<REF, d1, 0>, o<CREF, v1, 0>>, e<neg1, 1, o<REF, v1, 0>, o<REF, v1, 0>>, e<negneg, 1, o<ARR, v1, 0>, o<CARR, v1, 0>>, e<cast1, 1, o<REF, v1, 0>, o<REF, v1, 0>>,
  e<maxd, 1, s0, o<REF, v1, 0>>, e<mind, 1, s0, o<REF, v1, 0>>, e<maxd, 1, o<REF, v1, 0>, o<REF, v1, 0>>>;
using group1 = types<
  e<prod2, 1, s0, o<REF, v1, 0>, o<REF, v1, 0>>, e<prod2, 1, s0, o<REF, z1, 0>, o<REF, v1, 0>>, e<prod2, 1, s0, ptr_opnd<0>, carray_opnd<0, 3>>, e<prod2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<CREF, d1, 0>>, e<set2, 1, o<REF, v1, 0>, o<REF, v1, 0>, cs>, e<add2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<sub2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<div2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<min2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<max2, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<mixed3, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, d1, 0>, s0>, e<sel3, 1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, d1, 0>, s0>,
  // repeated indices
  e<sum1, 1, s0, o<REF, v2, 0, 0>>, e<sum1, 1, s0, o<CARR, d2, 0, 0>>, e<set1, 1, o<REF, v1, 0>, o<REF, v2, 0, 0>>, e<set1, 1, o<ARR, d1, 0>, o<CREF, x2, 0, 0>>, e<sum1, 1, o<REF, v2, 0, 0>, o<REF, v1, 0>>, e<sum1, 1, o<ARR, d2, 0, 0>, o<REF, v2, 0, 0>>, e<sum1, 1, s0, o<REF, v3, 0, 0, 0>>, e<prod2, 1, s0, o<REF, v2, 0, 0>, o<REF, v2, 0, 0>>, e<sum1, 2, o<REF, v1, 1>, o<REF, v3, 0, 1, 0>>, e<sum1, 2, s0, o<REF, v3, 1, 0, 0>>, e<set1, 2, o<REF, v2, 1, 0>, o<REF, v3, 0, 1, 1>>,
  // unused and skipped indices
  e<sum1, 2, s0, o<REF, v1, 1>>, e<sum1, 3, o<REF, v1, 0>, o<REF, v2, 2, 0>>, e<set1, 3, o<REF, v1, 2>, o<REF, v1, 2>>, e<prod2, 4, o<REF, v1, 1>, o<REF, v2, 1, 3>, o<REF, v1, 3>>,
  e<sum1, 1, o<REF, v1, 0>, o<REF, v1, 0>>, e<sum1, 2, o<REF, v2, 0, 1>, cs>, e<sum1, 2, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<sum1, 2, o<REF, v2, 0, 1>, o<REF, v1, 0>>, e<sum1, 2, o<REF, v1, 1>, o<REF, v1, 0>>, e<sum1, 2, o<REF, v1, 0>, o<REF, v1, 1>>>;
using group2 = types<
  e<set1, 2, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, e<set1, 2, o<ARR, d2, 0, 1>, o<CARR, d2, 1, 0>>, e<set1, 2, o<REF, v2, 0, 1>, o<REF, v2, 0, 1>>, e<sum1, 2, o<REF, v2, 1, 0>, o<REF, v2, 1, 0>>, e<set1, 2, o<REF, x2, 0, 1>, o<REF, d2, 0, 1>>, e<set1, 2, o<REF, f2, 0, 1>, o<REF, v2, 0, 1>>, e<set1, 2, o<REF, v2, 1, 0>, o<REF, f2, 0, 1>>, e<hist, 2, o<REF, v1, 0>, o<REF, v2, 0, 1>>, e<horner, 2, o<REF, v1, 1>, o<REF, v2, 0, 1>>, e<horner, 2, s0, o<REF, v2, 1, 0>>, e<hist, 2, s0, o<REF, v2, 0, 1>>,
  e<sum1, 2, s0, o<REF, v2, 0, 1>>, e<sum1, 2, s0, o<CARR, x2, 0, 1>>, e<sum1, 2, o<REF, v1, 0>, o<CREF, b2, 0, 1>>, e<sum1, 2, o<REF, v1, 1>, o<REF, v2, 0, 1>>, e<maxd, 2, s0, o<REF, v2, 1, 0>>, e<maxd, 2, o<REF, v1, 1>, o<REF, v2, 0, 1>>,
  e<set2, 2, o<REF, v2, 0, 1>, o<REF, v1, 0>, o<REF, v1, 1>>, e<set2, 2, o<ARR, d2, 1, 0>, o<REF, v1, 0>, o<CARR, d1, 1>>, e<prod2, 2, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<prod2, 2, o<REF, v1, 1>, o<REF, v2, 1, 0>, o<REF, v1, 0>>, e<add2, 2, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<sub2, 2, o<REF, v1, 1>, o<REF, v1, 0>, o<REF, v1, 1>>, e<prod2, 2, s0, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, e<min2, 2, s0, o<REF, v1, 0>, o<REF, v1, 1>>, e<div2, 2, o<REF, v2, 0, 1>, o<REF, v2, 0, 1>, o<REF, v1, 0>>, e<sel3, 2, o<REF, v2, 0, 1>, o<REF, v2, 0, 1>, o<CREF, v1, 0>, o<CREF, v1, 1>>, e<prod3, 2, s0, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>>;
using group3 = types<
  e<prod2, 3, o<REF, v2, 0, 1>, o<REF, v2, 0, 2>, o<REF, v2, 2, 1>>, e<prod2, 3, o<ARR, d2, 0, 1>, o<CARR, d2, 0, 2>, o<CARR, d2, 2, 1>>, e<prod2, 3, o<REF, x2, 1, 0>, o<REF, x2, 1, 2>, o<REF, x2, 2, 0>>, e<prod2, 3, o<REF, v2, 2, 1>, o<REF, v2, 2, 0>, o<REF, v2, 0, 1>>, e<set1, 3, o<REF, v3, 2, 0, 1>, o<REF, v3, 0, 1, 2>>, e<set1, 3, o<REF, c3, 1, 2, 0>, o<REF, v3, 0, 1, 2>>, e<maxd, 3, s0, o<REF, v3, 0, 1, 2>>, e<sum1, 3, o<REF, v1, 1>, o<REF, d3, 0, 1, 2>>, e<horner, 3, s0, o<REF, v3, 2, 0, 1>>, e<hist, 3, o<REF, v1, 2>, o<REF, v3, 0, 1, 2>>, e<sum1, 3, o<REF, v3, 0, 1, 2>, o<REF, v1, 1>>, e<set2, 3, o<REF, v3, 0, 1, 2>, o<REF, v2, 0, 2>, o<REF, v1, 1>>,
  e<prod3, 3, s0, o<REF, v1, 0>, o<REF, v1, 1>, o<REF, v1, 2>>, e<prod3, 3, o<REF, v1, 0>, o<REF, v3, 0, 1, 2>, o<REF, v1, 1>, o<REF, v1, 2>>, e<prod3, 4, o<REF, v2, 0, 3>, o<REF, v3, 0, 1, 2>, o<REF, v2, 1, 3>, o<REF, v2, 2, 3>>, e<set1, 4, o<REF, v4, 3, 1, 2, 0>, o<REF, v4, 0, 1, 2, 3>>, e<sum1, 4, o<REF, v2, 3, 1>, o<REF, v4, 0, 1, 2, 3>>, e<prod2, 4, o<REF, v2, 0, 1>, o<REF, v3, 0, 2, 3>, o<REF, v3, 3, 1, 2>>,
  e<set1, 5, o<REF, v5, 4, 1, 3, 0, 2>, o<REF, v5, 0, 1, 2, 3, 4>>, e<hist, 5, o<REF, v2, 3, 1>, o<REF, v5, 2, 0, 4, 3, 1>>, e<prod2, 5, o<REF, v3, 4, 0, 2>, o<CARR, d5, 0, 1, 2, 3, 4>, o<REF, v2, 1, 3>>, e<prod2, 5, s0, o<REF, v3, 0, 2, 4>, o<REF, v2, 1, 3>>,
  e<sum1, 6, o<REF, v3, 5, 3, 1>, o<REF, v6, 0, 1, 2, 3, 4, 5>>, e<hist, 6, s0, o<REF, v6, 5, 3, 1, 0, 2, 4>>, e<prod2, 6, o<REF, v3, 1, 4, 5>, o<REF, v3, 0, 1, 2>, o<REF, v3, 3, 4, 5>>, e<set1, 7, o<REF, v2, 6, 2>, o<REF, v2, 2, 6>>>;
static register_all<exprs> reg("ein", part<concat<group0, group1, group2, group3>::type>());

// Callables: as operands, as the only user of an index, as destinations, move-only.
#if PART == 0
MC_SUITE("callables") {
  long mi = c.pick({0l, -1l, 2l}), ni = c.pick({0l, 1l, 3l}), mj = c.pick({0l, 4l}), nj = c.pick({0l, 2l, 3l});
  if (!c.mine()) return;
  c.note("[%ld,%ld) x [%ld,%ld)", mi, mi + ni, mj, mj + nj);
  c.obs(mi); c.obs(ni); c.obs(mj); c.obs(nj); c.nontrivial();
  auto f = [](index_t a, index_t b) -> long { return 100 * a + b; };
  nda::array<long, shape_of_rank<2>> d({{(index_t)mi, (index_t)ni}, {(index_t)mj, (index_t)nj}}, -1);
  nda::ein_reduce(nda::ein<0, 1>(d) = nda::ein<1, 0>(f));
  d.shape(); for (long i = mi; i < mi + ni; i++) for (long j = mj; j < mj + nj; j++) MC_CHECK(d(i, j) == 100 * j + i, "callable operand at (%ld,%ld): %ld", i, j, d(i, j));
  nda::array<long, shape_of_rank<1>> v({{(index_t)mi, (index_t)ni}}, 5);
  long calls = 0;
  nda::ein_reduce(nda::ein<0>(v) -= nda::ein<1>([&](index_t j) -> long { calls++; MC_CHECK(j == 0, "an index without bounds is %ld", (long)j); return 3; }) * nda::ein<0>([](index_t i) { return i; }));
  MC_CHECK(calls == ni, "%ld calls", calls);
  for (long i = mi; i < mi + ni; i++) MC_CHECK(v(i) == 5 - 3 * i, "v(%ld) is %ld", i, v(i));
  // destination callable: bounds come from the operands
  std::map<long, long> dst; std::vector<long> order;
  nda::ein_reduce(nda::ein<0>([&](index_t i) -> long& { order.push_back(i); return dst[i]; }) += nda::ein<1, 0>([&](index_t, index_t) { return 1l; }) * nda::ein<0, 1>(d));
  std::map<long, long> want; if (nj) for (long i = mi; i < mi + ni; i++) for (long j = mj; j < mj + nj; j++) want[i] += 100 * j + i;
  MC_CHECK(dst == want, "callable destination");
  MC_CHECK((long)order.size() == ni * nj, "callable destination: %zu calls", order.size());
  // scalars on both sides of a callable that is only called once
  long s = 2; calls = 0;
  nda::ein_reduce(nda::ein(s) *= nda::ein<>([&] { calls++; return 21l; }));
  MC_CHECK(s == 42 && calls == 1, "scalar callable: %ld after %ld calls", s, calls);
}
#endif
