// C17: shape conversions preserve every dimension, and predicates predict them.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::shape; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;

template <class A, class B> struct pair_ { using a = A; using b = B; };
template <class A, class B> struct xpairs;
template <class B> struct xpairs<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xpairs<types<A0, A...>, types<B...>> { using type = typename concat_<types<pair_<A0, B>...>, typename xpairs<types<A...>, types<B...>>::type>::type; };

constexpr bool differ(index_t a, index_t b) { return a != nda::dynamic && b != nda::dynamic && a != b; }
// Do the constants of the dims contradict each other?
template <class D, class S> struct contradicts { static constexpr bool value = differ(D::Min, S::Min) || differ(D::Extent, S::Extent) || differ(D::Stride, S::Stride); };
template <class D> bool dim_ok(const rd& s) {
  return (D::Min == nda::dynamic || (long)D::Min == s.min) && (D::Extent == nda::dynamic || (long)D::Extent == s.extent) && (D::Stride == nda::dynamic || s.stride == UN || (long)D::Stride == s.stride);
}
template <class D> rd dim_conv(const rd& s) { return rd{s.min, s.extent, s.stride == UN && D::Stride != nda::dynamic ? (long)D::Stride : s.stride}; }
template <class D> rd dim_added() { return rd{D::Min == nda::dynamic ? 0 : (long)D::Min, 1, D::Stride == nda::dynamic ? UN : (long)D::Stride}; }

template <class D, class S> struct shapes_contradict;
template <class... D, class... S> struct shapes_contradict<shape<D...>, shape<S...>> {
  template <size_t... I> static constexpr bool f(std::index_sequence<I...>) {
    bool r = false;
    bool x[] = {contradicts<dim_of<shape<D...>, I>, dim_of<shape<S...>, I>>::value..., false};
    for (bool v : x) r = r || v;
    return r;
  }
  static constexpr bool value = f(std::make_index_sequence<(sizeof...(D) < sizeof...(S) ? sizeof...(D) : sizeof...(S))>());
};
template <class D, size_t I, bool In = (I < D::rank())> struct nth { static bool ok(const rd& s) { return dim_ok<dim_of<D, I>>(s); } static rd conv(const rd& s) { return dim_conv<dim_of<D, I>>(s); } static rd added() { return dim_added<dim_of<D, I>>(); } static bool one() { return dim_of<D, I>::Extent == nda::dynamic || dim_of<D, I>::Extent == 1; } };
template <class D, size_t I> struct nth<D, I, false> { static bool ok(const rd&) { return true; } static rd conv(const rd& s) { return s; } static rd added() { return rd(); } static bool one() { return true; } };
// The reference conversion: is it allowed, and what does it give?
template <class D, size_t... I> bool ref_conv(const rshape& s, rshape& out, std::index_sequence<I...>) {
  bool ok = true; out.clear();
  auto one = [&](size_t i, bool (*okf)(const rd&), rd (*cf)(const rd&), rd (*af)(), bool (*of)()) {
    if (i < s.size() && i < D::rank()) { ok = ok && okf(s[i]); out.push_back(cf(s[i])); }
    else if (i < s.size()) ok = ok && s[i].extent == 1;
    else { ok = ok && of(); out.push_back(af()); }
  };
  int d[] = {(one(I, &nth<D, I>::ok, &nth<D, I>::conv, &nth<D, I>::added, &nth<D, I>::one), 0)..., 0}; (void)d;
  return ok;
}
constexpr size_t larger(size_t a, size_t b) { return a > b ? a : b; }

static void same(const rshape& got, const rshape& want, const char* what) { if (!(got == want)) mc::fail("%s: %s, expected %s", what, ref::str(got).c_str(), ref::str(want).c_str()); }
constexpr long G = 1l << 32, H = 1l << 31;
#ifdef FAR  // values that agree with others in their low 31 or 32 bits; no memory
constexpr bool far = true;
static alphabet far_alpha(size_t R) {
  if (R <= 1) return {{0, 2, G, G + 2, -H, H + 2}, {0, 1, 3, G, G + 1, G + 3, H + 1}, {UN, 1, 4, G + 1, G + 4, H + 4, -G}};
  if (R == 2) return {{0, 2, G}, {1, 3, G + 1}, {UN, 1, 4, G + 4}};
  return {{0, G}, {1, 3, G + 1}, {1, 4}};
}
#else
constexpr bool far = false;
static alphabet far_alpha(size_t) { return alphabet(); }
#endif
static alphabet alpha(size_t R) {
  if (far) return far_alpha(R);
  bool th = mc::thorough();
  alphabet a{{0, 2, -1}, {0, 1, 3}, {UN, 1, 4, -2}};
  if (th) a = alphabet{{0, 2, -1, 5}, {0, 1, 2, 3}, {UN, 0, 1, 2, 4, -2}};
  if (R == 2) { a.strides = {UN, 1, 4}; a.mins = {0, 2}; if (th) { a.strides = {UN, 1, 4, -2}; a.mins = {0, 2, -1}; a.extents = {0, 1, 3}; } }
  if (R == 3) { a = alphabet{{0, 2}, {1, 3}, {UN, 1, 4}}; if (th) a.extents = {0, 1, 3}; }
  if (R >= 4) { a = alphabet{{0, 2}, {1, 3}, {1, 4}}; if (R == 4 && th) a.strides = {UN, 1, 4}; if (R > 4) a = alphabet{{0}, {1, 2}, {1, 3}}; }
  return a;
}

// A shape that has been used before, with other values (and other strides, or none) in every field that can change.
template <class D> D used_dim(int k) { return to_dim<D>(rd{D::Min == dynamic ? 77 : (long)D::Min, D::Extent == dynamic ? (k == 2 ? 0 : 9) : (long)D::Extent, D::Stride == dynamic ? (k == 1 ? UN : -13) : (long)D::Stride}); }
template <class B> struct used_; template <class... D> struct used_<shape<D...>> { static shape<D...> get(int k) { (void)k; return shape<D...>(used_dim<D>(k)...); } };
template <> struct used_<shape<>> { static shape<> get(int) { return shape<>(); } };

// Conversions that only some pairs have.
template <class B, class A, bool Same = (A::rank() == B::rank())> struct implicit_ {
  template <class F> static void each_way(const A&, F&&) {}
  static bool predicate(const A&, bool ok) { return ok; }
};
template <class B, class A> struct implicit_<B, A, true> {
  template <size_t... I, class F> static void dims_way(const A& a, F&& f, std::index_sequence<I...>) { f("make_shape of dims", [&] { return B(dim<>(a.template dim<I>())...); }); }
  template <class F> static void dims_way(const A&, F&&, std::index_sequence<>) {}
  template <class F> static void each_way(const A& a, F&& f) {
    f("construction", [&] { return B(a); });
    f("implicit conversion", [&] { auto g = [](const B& b) { return b; }; return g(a); });
    f("assignment", [&] { B b; b = a; return b; });
    for (int k = 0; k < 3; k++) f("assignment to a shape with other values", [&] { B b = used_<B>::get(k); b = a; return b; });
    f("assignment by move to a shape with other values", [&] { B b = used_<B>::get(0); A t = a; b = std::move(t); return b; });
    f("construction from a tuple of dims", [&] { return B(a.dims()); });
    dims_way(a, f, std::make_index_sequence<A::rank()>());
  }
  static bool predicate(const A& a, bool) { return nda::is_compatible<B>(a); }
};
template <bool Contradict> struct ways {
  template <class B, class A, class F> static void each_way(const A& a, F&& f) { implicit_<B, A>::each_way(a, f); f("convert_shape", [&] { return nda::convert_shape<B>(a); }); }
};
template <> struct ways<true> { template <class B, class A, class F> static void each_way(const A&, F&&) {} };

// Views: the converted view addresses the elements of the original.
template <bool Same> struct views {
  template <class B, class A> static void run(const rshape&, const rshape&, const A&, int*) {}
};
template <> struct views<true> {
  template <class B, class A> static void run(const rshape& ra, const rshape& rb, const A& a, int* base) {
    constexpr size_t RB = B::rank();
    nda::array_ref<int, A> va(base, a);
    std::vector<nda::array_ref<int, B>> vs;
    vs.push_back(nda::convert_shape<B>(va));
    convert(vs, va, std::integral_constant<bool, A::rank() == B::rank()>());
    int n = 0;
    for (auto& v : vs) {
      const char* what = n == 0 ? "convert_shape(view)" : n == 1 ? "converted view" : "assigned view"; n++;
      MC_CHECK(v.base() == base, "%s: the base differs", what);
      rshape got = from_shape(v.shape());
      same(got, rb, what);
      long want = 0, calls = 0;
      auto one = [&](const idx& ib) {
        idx ia(ra.size());
        for (size_t k = 0; k < ra.size(); k++) ia[k] = k < ib.size() ? ib[k] : ra[k].min;
        int* p = base + offset(ra, ia);
        MC_CHECK(&v[to_tuple<RB>(ib)] == p, "%s: index %s addresses another element", what, ref::str(ib).c_str());
        want++; *p = 1;
      };
      if (RB == 0) one(idx()); else each(rb, one);
      v.for_each_value([&](int& x) { calls++; if (x != 1) mc::fail("%s: for_each_value reaches an element outside the view", what); });
      MC_CHECK(calls == want, "%s: for_each_value makes %ld calls, expected %ld", what, calls, want);
      if (RB == 0) *base = 0; else each(rb, [&](const idx& ib) { v[to_tuple<RB>(ib)] = 0; });
    }
  }
  template <class B, class A> static void convert(std::vector<nda::array_ref<int, B>>& vs, const nda::array_ref<int, A>& va, std::true_type) {
    vs.push_back(nda::array_ref<int, B>(va));
    nda::array_ref<int, B> d; d = va; vs.push_back(d);
    nda::array_ref<int, B> u(nullptr, used_<B>::get(0)); u = va; vs.push_back(u);
  }
  template <class B, class A> static void convert(std::vector<nda::array_ref<int, B>>&, const nda::array_ref<int, A>&, std::false_type) {}
};

template <class P> struct conv {
  using A = typename P::a; using B = typename P::b;
  static std::string name() { return shape_name<A>() + " to " + shape_name<B>(); }
  static void run(ctx& c) {
    constexpr bool bad = shapes_contradict<B, A>::value;
    rshape ra = pick_shape<A>(c, alpha(A::rank())), rb;
    if (!c.mine()) return;
    c.note("convert %s", ref::str(ra).c_str());
    A a = to_shape<A>(ra);
    same(from_shape(a), ra, "source");
    bool ok = ref_conv<B>(ra, rb, std::make_index_sequence<larger(A::rank(), B::rank())>());
    MC_CHECK((implicit_<B, A>::predicate(a, ok)) == ok, "is_compatible is %d, expected %d", !ok, ok);
    MC_CHECK(nda::is_explicitly_compatible<B>(a) == ok, "is_explicitly_compatible is %d, expected %d", !ok, ok);
    c.obs(ok);
    for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    if (ok) {
      ways<bad>::template each_way<B>(a, [&](const char* what, auto&& f) {
        B b = f();
        same(from_shape(b), rb, what);
        // dim by dim equality ignores what is known at compile time
        MC_CHECK((b == to_shape<B>(rb)) && !(b != to_shape<B>(rb)), "%s: the result is not equal to itself", what);
      });
      for (auto& d : rb) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
      bool resolved = true; for (auto& d : ra) resolved = resolved && d.stride != UN;
      if (resolved && !far) {
        bool em = ref::empty(ra); span f = em ? span{0, 0} : flat_span(ra);
        std::vector<int> mem(f.extent() + 2, 0);
        views<!bad>::template run<B>(ra, rb, a, mem.data() + 1 - f.lo);
      }
      if (!bad) c.nontrivial();
    }
#if MC_ASSERTS
    else if (!bad) {
      ways<bad>::template each_way<B>(a, [&](const char* what, auto&& f) { if (!mc::rejected([&] { f(); })) mc::fail("%s: a conversion that contradicts the constants is not reported", what); });
      c.nontrivial();
    }
#endif
  }
};

// Dims alone, and equality of dims and shapes of different types.
template <class P> struct equal_ {
  using A = typename P::a; using B = typename P::b;
  static std::string name() { return shape_name<A>() + " == " + shape_name<B>(); }
  static void dims(const A& a, const B& b, bool eq, std::true_type) {
    MC_CHECK((a.template dim<0>() == b.template dim<0>()) == eq, "equality of dims is %d", !eq);
    MC_CHECK((a.template dim<0>() != b.template dim<0>()) == !eq, "inequality of dims is %d", eq);
  }
  static void dims(const A&, const B&, bool, std::false_type) {}
  static void run(ctx& c) {
    alphabet al{{0, 2}, {1, 3}, {UN, 1, 4}};
    if (A::rank() == 1) al = alphabet{{0, 2, -1}, {0, 1, 3}, {UN, 0, 1, 4, -2}};
    if (A::rank() >= 3) { al.extents = {3}; al.strides = {1, 4}; if (mc::thorough()) al.extents = {1, 3}; }
    if (far) { al = far_alpha(A::rank()); if (A::rank() == 1 && !mc::thorough()) { al.mins = {0, G, G + 2}; al.extents = {1, 3, G + 3}; al.strides = {UN, 4, G + 4, -G}; } if (A::rank() == 2) al = alphabet{{0, G}, {3, G + 3}, {1, G + 1}}; if (A::rank() == 3) al = alphabet{{0, G}, {3}, {1, G + 1}}; }
    rshape ra = pick_shape<A>(c, al);
    if (!c.mine()) return;
    rshape rb = pick_shape<B>(c, al);
    c.note("%s and %s", ref::str(ra).c_str(), ref::str(rb).c_str());
    A a = to_shape<A>(ra); B b = to_shape<B>(rb);
    bool eq = ra == rb;
    MC_CHECK((a == b) == eq, "equality is %d", !eq);
    MC_CHECK((a != b) == !eq, "inequality is %d", eq);
    MC_CHECK((b == a) == eq && (b != a) == !eq, "equality is not symmetric");
    dims(a, b, eq, std::integral_constant<bool, A::rank() == 1>());
    c.obs(eq);
    for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    for (auto& d : rb) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    c.nontrivial();
  }
};
template <class P> struct dim_conv_ {
  using SA = typename P::a; using SB = typename P::b;
  using A = dim_of<SA, 0>; using B = dim_of<SB, 0>;
  static std::string name() { return dim_name<A>() + " to " + dim_name<B>(); }
  static void go(ctx& c, const rd& r, std::false_type) {
    A a = to_dim<A>(r);
    bool ok = dim_ok<B>(r); rd want = dim_conv<B>(r);
    auto get = [](const B& b) { return rd{(long)b.min(), (long)b.extent(), b.stride() == nda::unresolved ? UN : (long)b.stride()}; };
    auto f1 = [&] { return B(a); };
    auto f2 = [&] { B b; b = a; return b; };
    auto f3 = [&](int k) { B b = used_dim<B>(k); b = a; return b; };
    c.obs(ok); c.obs(r.min); c.obs(r.extent); c.obs(r.stride);
    if (ok) { MC_CHECK(get(f1()) == want, "constructed dim differs"); MC_CHECK(get(f2()) == want, "assigned dim differs"); for (int k = 0; k < 3; k++) MC_CHECK(get(f3(k)) == want, "dim assigned to a dim with other values differs"); c.nontrivial(); }
#if MC_ASSERTS
    else { MC_CHECK(mc::rejected([&] { f1(); }), "construction of a dim with other constants is not reported"); MC_CHECK(mc::rejected([&] { f2(); }), "assignment of a dim with other constants is not reported"); c.nontrivial(); }
#endif
  }
  static void go(ctx&, const rd&, std::true_type) {}
  static void run(ctx& c) {
    alphabet al = alpha(1);
    rshape ra = pick_shape<SA>(c, al);
    if (!c.mine()) return;
    c.note("convert %s", ref::str(ra).c_str());
    go(c, ra[0], std::integral_constant<bool, contradicts<B, A>::value>());
  }
};

using d1 = types<dim<>, dim<0>, dim<2>, dim<dynamic, 1>, dim<dynamic, 3>, dense_dim<>, nda::strided_dim<4>, dim<0, 3>, dim<2, 1>, dense_dim<0>, dense_dim<dynamic, 3>, dim<0, 1, 1>, dim<2, 3, 4>, dim<0, 3, 1>>;
using r1d = all_shapes<1, d1>::type;
using r1 = all_shapes<1, types<dim<>, dim<2>, dim<dynamic, 1>, dim<dynamic, 3>, dense_dim<>, nda::strided_dim<4>, dim<0, 3>, dim<0, 1, 1>, dim<2, 3, 4>>>::type;
using r2 = types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::matrix_shape<3, 1>, nda::fixed_dense_shape<3, 3>, shape<dim<>, dim<0>>, shape<dim<2>, dim<dynamic, 1>>, shape<dense_dim<0>, nda::strided_dim<4>>>;
using r3 = types<shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<3>, nda::chunky_image_shape<>, nda::fixed_dense_shape<3, 1, 3>, shape<dim<>, dim<2>, dim<0, 1>>>;
using r4 = types<shape_of_rank<4>, dense_shape<4>, shape<dim<>, dim<0>, dim<dynamic, 1>, nda::strided_dim<4>>>;
using r5 = types<shape_of_rank<5>, dense_shape<5>>;
using r6 = types<shape_of_rank<6>>;
using r0 = types<shape<>>;
using r1s = types<shape<dim<>>, shape<dense_dim<>>, shape<dim<0, 3>>, shape<dim<2, 1>>>;
using r2s = types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<3, 1>, shape<dim<2>, dim<dynamic, 1>>, nda::fixed_dense_shape<3, 3>>;
using r3s = types<shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<1>, shape<dim<>, dim<2>, dim<0, 1>>>;
using r4s = types<shape_of_rank<4>, dense_shape<4>>;
using same_rank = concat<xpairs<r0, r0>::type, xpairs<r1, r1>::type, xpairs<r2, r2>::type, xpairs<r3, r3>::type, xpairs<r4, r4>::type, xpairs<r5, r5>::type>::type;
template <class L, class... M> struct against { using type = typename concat<typename xpairs<L, M>::type...>::type; };
using other_rank = concat<against<r0, r1s, r2s, r3s, r4s>::type, against<r1s, r0, r2s, r3s, r4s>::type, against<r2s, r0, r1s, r3s, r4s>::type, against<r3s, r0, r1s, r2s, r4s>::type, against<r4s, r0, r1s, r2s, r3s, r5>::type, xpairs<r5, r4s>::type, xpairs<r6, r1s>::type, xpairs<r2s, r6>::type>::type;
#ifdef FAR
using f2 = types<shape_of_rank<2>, nda::matrix_shape<>, nda::matrix_shape<3, 1>, shape<dim<>, dim<0>>, shape<dim<2>, dim<dynamic, 1>>>;
using f3 = types<shape_of_rank<3>, nda::chunky_image_shape<3>>;
static register_all<conv> freg("far shape", part<concat<xpairs<r1, r1>::type, xpairs<f2, f2>::type, xpairs<f3, f3>::type, xpairs<f2, types<shape<dim<>>, shape<dim<2, 1>>, shape<>>>::type, xpairs<types<shape<dim<>>, shape<dim<0, 3>>>, types<shape_of_rank<2>, shape<dim<2>, dim<dynamic, 1>>>>::type>::type>());
static register_all<equal_> freg2("far equality", part<concat<xpairs<types<shape<dim<>>, shape<dim<2>>, shape<dim<dynamic, 3>>, shape<nda::strided_dim<4>>>, types<shape<dim<>>, shape<dim<0, 3>>>>::type, xpairs<types<shape_of_rank<2>, nda::matrix_shape<>>, types<shape_of_rank<2>, dense_shape<2>>>::type, types<pair_<shape_of_rank<3>, shape_of_rank<3>>>>::type>());
static register_all<dim_conv_> freg3("far dim", part<xpairs<r1d, r1d>::type>());
#else
static register_all<conv> reg("shape", part<concat<same_rank, other_rank>::type>());
static register_all<equal_> reg2("equality", part<concat<xpairs<r1, r1>::type, xpairs<r2, r2>::type, xpairs<types<shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<3>>, types<shape_of_rank<3>, nda::planar_image_shape, nda::chunky_image_shape<>>>::type>::type>());
static register_all<dim_conv_> reg3("dim", part<xpairs<r1d, r1d>::type>());
#endif
