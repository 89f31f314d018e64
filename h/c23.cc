// C23: the predicates about layouts agree with the offsets a shape really addresses.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dynamic;

static bool no_gap(const rshape& r) {
  auto v = offsets(r); std::sort(v.begin(), v.end());
  for (size_t k = 1; k < v.size(); k++) if (v[k] > v[k - 1] + 1) return false;
  return true;
}
template <class S> struct predicates {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    const bool th = mc::thorough();
    alphabet a;
    if (R <= 1) a = {{0, -3}, {1, 2, 3, 4, 5, 9}, {0, 1, -1, 2, -2, 3, 5, -7, 100}};
    if (R == 2) a = {{-3}, {1, 2, 3, 4, 5}, {0, 1, -1, 2, -2, 3, -3, 4, 5, 6, 8, -8, 12}};
    if (R == 3) a = {{2}, {1, 2, 3}, {0, 1, -1, 2, -2, 3, 4, -4, 6, 9}};
    if (R == 4) a = {{0}, {1, 2}, {0, 1, -2, 2, 4, 8, -8, 16}};
    if (R >= 5) a = {{0}, {1, 2}, {1, -2, 4, 16}};
    if (th && R == 2) a = {{-3}, {1, 2, 3, 4, 5, 7, 9}, {0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, 7, 8, -8, 9, 10, 12, 15, 20, 25, -30, 100}};
    if (th && R == 3) a = {{2}, {1, 2, 3, 4}, {0, 1, -1, 2, -2, 3, -3, 4, -4, 6, 8, 9, 12, -16, 20}};
    if (th && R == 4) a = {{0}, {1, 2, 3}, {0, 1, -1, 2, -2, 3, 4, 6, -8, 9, 12, 18}};
    rshape r = pick_shape<S>(c, a);
    if (!c.mine() || empty(r)) return;
    c.note("shape %s", str(r).c_str());
    const S s = to_shape<S>(r);
    const bool compact = s.is_compact(), one = s.is_one_to_one();
    const bool gapless = R == 0 || no_gap(r), inj = R == 0 || injective(r), clean = nested(r);
    if (clean) {
      if (compact != gapless) mc::fail("is_compact() is %d, but the offsets %s a gap", compact, gapless ? "do not have" : "have");
      if (one != inj) mc::fail("is_one_to_one() is %d, but distinct indices %s", one, inj ? "have distinct offsets" : "share an offset");
      c.nontrivial();
    }
    if (!compact && gapless) mc::fail("is_compact() is false, but the offsets leave no gap");
    if (!one && inj) mc::fail("is_one_to_one() is false, but distinct indices have distinct offsets");
    span sp = R == 0 ? span{0, 0} : flat_span(r);
    if (s.flat_min() != sp.lo || s.flat_max() != sp.hi || (long)s.flat_extent() != sp.extent()) mc::fail("the flat interval is [%ld,%ld] (%ld), expected [%ld,%ld]", (long)s.flat_min(), (long)s.flat_max(), (long)s.flat_extent(), sp.lo, sp.hi);
    nda::array_ref<char, S> v(nullptr, s);
    MC_CHECK(v.is_compact() == compact, "array_ref::is_compact differs from its shape's");
    if (inj && sp.extent() < 4000) { nda::array<char, S> o(s); MC_CHECK(o.is_compact() == compact, "array::is_compact differs from its shape's"); }
    c.obs(compact); c.obs(one); c.obs(gapless); c.obs(inj); c.obs(clean); c.obs(sp.lo); c.obs(sp.hi);
  }
};
template <class P> struct subsets;
template <class A, class B> struct pair_ { using a = A; using b = B; };
template <class A, class B> struct subsets<pair_<A, B>> {
  static std::string name() { return shape_name<A>() + " in " + shape_name<B>(); }
  template <class S> static rshape pick(ctx& c) {
    const bool th = mc::thorough();
    alphabet a = {{0, -2}, {0, 1, 2, 4}, {0, 1, -1, 3, -3}};
    if (S::rank() == 2) a = {{1}, {0, 1, 3}, {1, -1, 2, -4}};
    if (S::rank() == 3) a = {{0}, {0, 1, 2}, {1, -3, 5}};
    if (th) { if (S::rank() == 2) a = {{1, -1}, {0, 1, 2, 3}, {0, 1, -1, 2, -4}}; if (S::rank() == 1) a = {{0, -2}, {0, 1, 2, 3, 4, 6}, {0, 1, -1, 2, 3, -3}}; }
    return pick_shape<S>(c, a);
  }
  static void run(ctx& c) {
    rshape ra = pick<A>(c), rb = pick<B>(c);
    if (!c.mine()) return;
    const A a = to_shape<A>(ra); const B b = to_shape<B>(rb);
    const bool ea = A::rank() && empty(ra), eb = B::rank() && empty(rb);
    span sa = ea ? span{0, 0} : flat_span(ra), sb = eb ? span{0, 0} : flat_span(rb);
    for (long o = -12; o <= 12; o++) {
      bool got = a.is_subset_of(b, o);
      bool want = ea || (!eb && sa.lo >= sb.lo + o && sa.hi <= sb.hi + o);
      if (got != want) mc::fail("%s is_subset_of(%s, %ld) is %d: offsets [%ld,%ld]%s and [%ld,%ld]%s", str(ra).c_str(), str(rb).c_str(), o, got, sa.lo, sa.hi, ea ? " (empty)" : "", sb.lo + o, sb.hi + o, eb ? " (empty)" : "");
      c.obs(got);
    }
    if (!ea && !eb) c.nontrivial();
  }
};
using d1 = types<dim<>, dim<0>, dim<dynamic, 1>, dim<dynamic, 3>, dim<dynamic, dynamic, 0>, nda::dense_dim<>, dim<dynamic, dynamic, -1>, dim<dynamic, dynamic, 2>, dim<dynamic, 2, 4>, dim<0, 1, 5>, dim<0, 3, 0>>;
using d3 = types<dim<>, dim<dynamic, 2>, nda::dense_dim<>, dim<dynamic, dynamic, -2>>;
using list = concat<all_shapes<0, d1>::type, all_shapes<1, d1>::type, all_shapes<2, d1>::type, all_shapes<3, d3>::type,
  types<nda::shape_of_rank<4>, nda::dense_shape<4>, nda::shape_of_rank<5>, nda::fixed_dense_shape<2, 3, 2>, nda::matrix_shape<3, 2>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>>>::type;
#ifdef RANKED
using nda::shape_of_rank; using nda::dense_shape;
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, nda::dense_dim<>, dim<>>; using mixed5 = nda::shape<dim<>, dim<>, dim<dynamic, dynamic, -1>, dim<-1>, dim<>>;
static register_all<ranked_<predicates>::body> rreg("ranked predicates", types<shape_of_rank<4>, dense_shape<4>, mixed4, shape_of_rank<5>, mixed5, dense_shape<5>, nda::shape<dim<>, dim<>, dim<dynamic, dynamic, 0>, dim<>, dim<>>, shape_of_rank<6>, shape_of_rank<7>, shape_of_rank<8>, nda::fixed_dense_shape<2, 2, 1, 2, 2, 2, 2>>());
#else
static register_all<large_<predicates>::body> lreg("large predicates", part<types<nda::shape_of_rank<1>, nda::dense_shape<1>, nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<>, nda::chunky_image_shape<>, nda::fixed_dense_shape<100>, nda::fixed_dense_shape<40, 3>, nda::matrix_shape<33, 17>>>());
static register_all<predicates> reg("predicates", part<list>());
using v1 = nda::shape<dim<>>; using v2 = nda::shape_of_rank<2>; using v3 = nda::shape_of_rank<3>;
static register_all<subsets> reg_subsets("subset", part<types<pair_<nda::shape<>, nda::shape<>>, pair_<nda::shape<>, v1>, pair_<v1, nda::shape<>>, pair_<v1, v1>, pair_<nda::dense_shape<1>, v2>, pair_<v1, nda::shape<dim<dynamic, 2>>>, pair_<v2, v1>, pair_<v2, v2>, pair_<nda::dense_shape<2>, v2>, pair_<v3, v2>, pair_<v2, v3>, pair_<nda::fixed_dense_shape<2, 2>, v2>, pair_<v3, nda::fixed_dense_shape<3, 2>>>>());
#endif
