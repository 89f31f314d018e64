// C20: inferred Einstein sums have the right bounds, layout and value.
#include "ein.h"
#include "world.h"
using namespace ein_;

template <class X, size_t N, class Res, class... O> struct sum_case {};
template <size_t... I> struct res { static std::vector<int> ix() { return {(int)I...}; } static constexpr size_t R = sizeof...(I);
  template <class T, class E> static auto sum(const E& e) { return nda::make_ein_sum<T, I...>(e); }
  template <class T, class E> static auto sum(const E& e, const T& init) { return nda::make_ein_sum<T, I...>(e, init); }
  template <class T, class E, class A> static auto sum(const E& e, const T& init, const A& a) { return nda::make_ein_sum<T, I...>(e, init, a); }
  template <class E> static auto shape_of(const E& e) { return nda::make_ein_reduce_shape<I...>(e); } };
template <class C> struct sums;
template <class X, size_t N, class Q, class... O> struct sums<sum_case<X, N, Q, O...>> {
  static constexpr size_t R = Q::R;
  static std::string name() { std::string s = X::name(); std::string d[] = {shape_name<typename O::shape>()...}; int n[] = {(int)O::K_...}; for (auto& q : d) s += " " + q; for (int q : n) s += std::to_string(q); std::vector<int> ix[] = {Q::ix(), O::ix()...}; for (auto& v : ix) { s += "/"; for (int q : v) s += std::to_string(q); } return s; }
  // dims of the result: of the first operand that uses the index
  template <class O1> static void first_dims(std::vector<bound>& b, std::vector<char>& have, const rshape& r) { auto ix = O1::ix(); for (size_t d = 0; d < ix.size(); d++) if (!have[ix[d]]) { have[ix[d]] = 1; b[ix[d]] = bound{r[d].min, r[d].extent}; } }
  template <class A> static void check(const A& got, const std::vector<bound>& b, const std::map<idx, long>& want, const char* what) {
    rshape r = from_shape(got.shape());
    auto ix = Q::ix();
    for (size_t d = 0; d < R; d++) if (r[d].min != b[ix[d]].min || r[d].extent != b[ix[d]].extent) mc::fail("%s: dimension %zu is [%ld,%ld), expected [%ld,%ld)", what, d, r[d].min, r[d].min + r[d].extent, b[ix[d]].min, b[ix[d]].min + b[ix[d]].extent);
    if (!ref::empty(r) || R == 0) {
      MC_CHECK(R == 0 || injective(r), "%s: the result overlaps itself: %s", what, ref::str(r).c_str());
      MC_CHECK(R == 0 || flat_span(r).extent() == ref::size(r), "%s: the result is not compact: %s", what, ref::str(r).c_str());
      long n = 1; for (auto& d : r) { if (d.extent > 1 && d.stride != n) mc::fail("%s: the result is not stored in the order of its indices: %s", what, ref::str(r).c_str()); n *= d.extent; }
    }
    for (auto& kv : want) { long g = (long)got[to_tuple<R>(kv.first)]; if (g != kv.second) mc::fail("%s: element %s is %ld, expected %ld", what, ref::str(kv.first).c_str(), g, kv.second); }
  }
  template <size_t... J> static void go(ctx& c, std::index_sequence<J...>) {
    std::vector<known> k(N); int dummy[] = {(know<O>(k, false), 0)..., 0}; (void)dummy;
    auto rx = Q::ix(); for (int q : rx) k[q].dst = true;
    std::vector<bound> b = choose_bounds(c, k);
    if (!c.mine()) return;
    bool first = true;
    rshape rops[] = {pick_one<O>(c, b, k, first)..., rshape()};
    std::tuple<mat<O>...> ops;
    int d2[] = {(std::get<J>(ops).make(rops[J], (long)J + 1), 0)..., 0}; (void)d2;
    std::string all; for (auto& x : rops) all += " " + ref::str(x);
    c.note("%s with loops %s, operands%s", X::name(), str(b).c_str(), all.c_str());
    for (auto& x : b) { c.obs(x.min); c.obs(x.extent); } for (auto& r : rops) for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    std::vector<char> have(N); std::vector<bound> rb = b;
    int d3[] = {(first_dims<O>(rb, have, rops[J]), 0)..., 0}; (void)d3;
    for (auto& q : rx) MC_CHECK(rb[q].min == b[q].min && rb[q].extent == b[q].extent, "harness: bounds");
    std::vector<idx> log, wantlog;
    auto fill = [&](long init) {
      std::map<idx, long> m; std::vector<bound> only; for (int q : rx) only.push_back(b[q]);
      each_loop(only, [&](const idx& i) { m[i] = init; });
      wantlog.clear();
      each_loop(b, [&](const idx& i) { wantlog.push_back(i); m[select(i, rx)] += X::eval(std::get<J>(ops).at(select(i, O::ix()))...); });
      return m;
    };
    auto expr = X::expr(std::get<J>(ops).ein()..., logger<N>(log));
    { auto g = Q::template sum<long>(expr); static_assert(std::is_same<typename decltype(g)::value_type, long>::value && decltype(g)::rank() == R, ""); check(g, b, fill(0), "make_ein_sum"); MC_CHECK(log == wantlog, "evaluations differ from one per index in order (%zu, expected %zu)", log.size(), wantlog.size()); }
    log.clear();
    { auto g = Q::template sum<long>(expr, 1000l); check(g, b, fill(1000), "make_ein_sum with an initial value"); MC_CHECK(log == wantlog, "with an initial value: evaluations differ"); }
    world::reset();
    {
      using AL = world::alloc<int, 0>;
      auto g = Q::template sum<int>(expr, 7, AL(9)); static_assert(std::is_same<typename decltype(g)::value_type, int>::value && std::is_same<typename decltype(g)::allocator_type, AL>::value, "");
      check(g, b, fill(7), "make_ein_sum with an allocator");
      MC_CHECK(g.get_allocator().id == 9, "make_ein_sum with an allocator: the allocator is another");
      if (g.size() && R) { const world::block* k = world::block_of(g.data()); MC_CHECK(k && k->owner == 9, "make_ein_sum with an allocator: the result is not stored in its memory"); }
    }
    world::all_gone(); c.check_soft();
    { auto s = Q::shape_of(expr); rshape r = from_shape(s); for (size_t d = 0; d < R; d++) MC_CHECK(r[d].min == b[rx[d]].min && r[d].extent == b[rx[d]].extent && r[d].stride != UN, "make_ein_reduce_shape: %s", ref::str(r).c_str()); }
    if (!wantlog.empty()) c.nontrivial();
  }
  // The first operand gives the bounds; later ones may be wider in result indices. (Conservatively widened only where an earlier operand gives the bounds.)
  template <class O1> static rshape pick_one(ctx& c, const std::vector<bound>& b, std::vector<known>& k, bool& first) {
    constexpr bool is_arr = O1::K_ == ARR || O1::K_ == CARR;
    if (O1::R == 0) return rshape();
    int l = c.choose(is_arr ? 2 : 4);
    auto ix = O1::ix();
    bool may = false; for (int q : ix) may = may || (k[q].dst && given(k, q));
    bool w = may && c.flip();
    std::vector<known> kk = k; for (auto& q : kk) q.dst = q.dst && q.used && given_flag(q);
    rshape r = operand_shape<O1>(b, kk, w, l);
    for (int q : ix) k[q].min = k[q].min == DYN ? DYN + 1 : k[q].min, mark(k[q]);
    if (is_arr && !ref::empty(r) && !injective(r)) c.discard();
    (void)first;
    return r;
  }
  static std::vector<const known*>& marks() { static std::vector<const known*> m; return m; }
  static bool given_flag(const known& q) { return q.min == GIVEN; }
  static bool given(const std::vector<known>& k, int q) { return k[q].min == GIVEN; }
  static void mark(known& q) { q.min = GIVEN; }
  static constexpr long GIVEN = 123456;
  static void run(ctx& c) { go(c, std::make_index_sequence<sizeof...(O)>()); }
};
#define EXPR(NAME, TXT, EXPR_ARGS, EXPR_BODY, EVAL_ARGS, EVAL_BODY) \
  struct NAME { static const char* name() { return TXT; } template <class A, class B = int, class E = int, class L = int> static auto expr EXPR_ARGS { return EXPR_BODY; } static long eval EVAL_ARGS { return EVAL_BODY; } };
#define AL (const A& a, const B& l)
#define ABL (const A& a, const B& b, const E& l)
#define ABEL (const A& a, const B& b, const E& e, const L& l)
EXPR(one, "a", AL, a + l, (long a), a)
EXPR(neg, "-a", AL, -(a - l), (long a), -a)
EXPR(sq, "a * a", AL, a * a + l, (long a), a * a)
EXPR(prod, "a * b", ABL, a * b + l, (long a, long b), a * b)
EXPR(add, "a + b", ABL, a + b - l, (long a, long b), a + b)
EXPR(mn, "min(a, b)", ABL, nda::min(a, b + l), (long a, long b), std::min(a, b))
EXPR(dv, "a / b", ABL, a / b + l, (long a, long b), a / b)
EXPR(prod3, "a * b * e", ABEL, a * b * e + l, (long a, long b, long e), a * b * e)
EXPR(mix3, "(a + b) * e", ABEL, (a + b) * e + l, (long a, long b, long e), (a + b) * e)

using v1 = shape<dim<>>; using d1 = shape<dense_dim<>>; using f1 = shape<dim<dynamic, 3>>; using m1 = shape<dim<2>>; using z1 = shape<dim<0, 2, 1>>;
using v2 = shape_of_rank<2>; using d2 = dense_shape<2>; using x2 = nda::matrix_shape<>; using f2 = nda::fixed_dense_shape<2, 3>; using b2 = shape<dim<>, nda::broadcast_dim<>>;
using v3 = shape_of_rank<3>; using d3 = dense_shape<3>; using c3 = nda::chunky_image_shape<2>; using v4 = shape_of_rank<4>; using v5 = shape_of_rank<5>; using v6 = shape_of_rank<6>; using d5 = dense_shape<5>;
template <kind K, class S, size_t... I> using o = opnd<K, S, I...>;
template <class X, size_t N, class Q, class... O> using e = sum_case<X, N, Q, O...>;
using s0 = scalar_opnd; using cs = const_scalar_opnd;
using all = types<
  e<one, 1, res<>, o<REF, v1, 0>>, e<one, 1, res<>, o<CARR, d1, 0>>, e<one, 1, res<0>, o<REF, v1, 0>>, e<one, 1, res<0>, o<CARR, d1, 0>>, e<one, 1, res<0>, o<REF, f1, 0>>, e<neg, 1, res<0>, o<REF, m1, 0>>, e<sq, 1, res<>, o<ARR, v1, 0>>, e<one, 1, res<0>, ptr_opnd<0>>, e<one, 1, res<0>, carray_opnd<0, 3>>, e<one, 0, res<>, s0>, e<prod, 0, res<>, s0, cs>, e<prod, 1, res<0>, cs, o<REF, v1, 0>>, e<prod, 1, res<>, o<REF, v1, 0>, s0>,
  e<one, 1, res<>, o<REF, v2, 0, 0>>, e<one, 1, res<0>, o<REF, v2, 0, 0>>, e<one, 1, res<0, 0>, o<REF, v1, 0>>, e<one, 1, res<>, o<REF, v3, 0, 0, 0>>, e<one, 2, res<1>, o<REF, v3, 0, 1, 0>>,
  e<prod, 1, res<>, o<REF, v1, 0>, o<REF, v1, 0>>, e<prod, 1, res<0>, o<REF, v1, 0>, o<CREF, d1, 0>>, e<add, 1, res<0>, o<REF, z1, 0>, o<REF, v1, 0>>, e<add, 1, res<0>, o<REF, v1, 0>, o<REF, z1, 0>>, e<mn, 1, res<0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<dv, 1, res<>, o<REF, v1, 0>, o<REF, v1, 0>>, e<prod3, 1, res<>, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<mix3, 1, res<0>, o<REF, v1, 0>, o<REF, v1, 0>, s0>,
  e<one, 2, res<>, o<REF, v2, 0, 1>>, e<one, 2, res<0>, o<REF, v2, 0, 1>>, e<one, 2, res<1>, o<REF, v2, 0, 1>>, e<one, 2, res<0, 1>, o<REF, v2, 0, 1>>, e<one, 2, res<1, 0>, o<REF, v2, 0, 1>>, e<one, 2, res<0, 1>, o<CARR, d2, 1, 0>>, e<one, 2, res<0, 1>, o<REF, x2, 0, 1>>, e<one, 2, res<1, 0>, o<REF, f2, 0, 1>>, e<one, 2, res<0>, o<REF, b2, 0, 1>>, e<one, 2, res<1>, o<REF, b2, 0, 1>>, e<one, 2, res<1, 0>, o<CREF, b2, 0, 1>>,
  e<prod, 2, res<0, 1>, o<REF, v1, 0>, o<REF, v1, 1>>, e<prod, 2, res<1, 0>, o<REF, d1, 0>, o<REF, v1, 1>>, e<prod, 2, res<0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<prod, 2, res<1>, o<REF, v1, 0>, o<REF, v2, 0, 1>>, e<add, 2, res<0, 1>, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, e<prod, 2, res<>, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, e<prod3, 2, res<>, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<one, 2, res<1, 0>, o<REF, v1, 1>>, e<one, 3, res<0, 2>, o<REF, v1, 2>>,
  e<prod, 3, res<0, 1>, o<REF, v2, 0, 2>, o<REF, v2, 2, 1>>, e<prod, 3, res<0, 1>, o<CARR, d2, 0, 2>, o<CARR, d2, 2, 1>>, e<prod, 3, res<1, 0>, o<CREF, x2, 0, 2>, o<CREF, x2, 2, 1>>, e<prod, 3, res<2, 1>, o<REF, v2, 2, 0>, o<REF, v2, 0, 1>>, e<one, 3, res<2, 0, 1>, o<REF, v3, 0, 1, 2>>, e<one, 3, res<1>, o<REF, d3, 0, 1, 2>>, e<one, 3, res<0, 1>, o<REF, c3, 0, 1, 2>>, e<one, 3, res<2, 1, 0>, o<CREF, c3, 0, 1, 2>>, e<prod3, 3, res<0, 1, 2>, o<REF, v1, 0>, o<REF, v1, 1>, o<REF, v1, 2>>, e<prod3, 4, res<0, 3>, o<REF, v3, 0, 1, 2>, o<REF, v2, 1, 3>, o<REF, v2, 2, 3>>, e<one, 4, res<3, 1, 0, 2>, o<REF, v4, 0, 1, 2, 3>>, e<one, 4, res<2, 0>, o<REF, v4, 0, 1, 2, 3>>,
  e<one, 5, res<4, 1, 3, 0, 2>, o<REF, v5, 0, 1, 2, 3, 4>>, e<one, 5, res<3, 1>, o<REF, v5, 2, 0, 4, 3, 1>>, e<prod, 5, res<4, 0, 2>, o<CARR, d5, 0, 1, 2, 3, 4>, o<REF, v2, 1, 3>>, e<prod, 5, res<>, o<REF, v3, 0, 2, 4>, o<REF, v2, 1, 3>>,
  e<one, 6, res<5, 3, 1>, o<REF, v6, 0, 1, 2, 3, 4, 5>>, e<prod, 6, res<1, 4, 5, 0>, o<REF, v3, 0, 1, 2>, o<REF, v3, 3, 4, 5>>, e<one, 7, res<6, 2>, o<REF, v2, 2, 6>>>;
static register_all<sums> reg("sum", part<all>());
