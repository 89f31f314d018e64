// C04: value loops touch each addressed element exactly once per index; paired loops pair equal indices.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;

static alphabet alpha(size_t rank, bool th) {
  alphabet a{{-2, 0, 1}, {0, 1, 2, 3}, {-7, -3, -1, 0, 1, 2, 3, 6}};
  if (rank == 1) { a.extents = {0, 1, 2, 3, 5, 17}; a.strides = {-5, -2, -1, 0, 1, 2, 3, 9}; }
  if (rank == 2) { a.mins = {-2, 1}; a.extents = {0, 1, 2, 3, 4, 5}; a.strides = {-8, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 12}; if (!th) a.mins = {1}; }
  if (rank == 3) { a.mins = {1}; a.extents = {0, 1, 2, 3}; a.strides = {-6, -3, -1, 0, 1, 2, 3, 4, 6, 9}; if (!th) { a.extents = {0, 1, 2, 3}; a.strides = {-3, -1, 0, 1, 2, 3, 6}; } }
  if (rank == 4) { a.mins = {1}; a.extents = {1, 2, 3}; a.strides = {-1, 1, 2, 4, 8}; if (!th) { a.extents = {1, 2}; a.strides = {-2, 0, 1, 2, 4, 8}; } }
  if (rank == 5) { a.mins = {-1}; a.extents = {1, 2}; a.strides = {1, 2, 4}; if (th) a.strides = {-1, 1, 2, 4}; }
  if (rank >= 6) { a.mins = {-1}; a.extents = {2}; a.strides = {1, 2, 4}; }
  return a;
}

template <class P> static std::vector<long> sorted(std::vector<P> v) { std::sort(v.begin(), v.end()); return v; }
static void same(const std::vector<long>& got, const std::vector<long>& want, const char* what) {
  if (got != want) mc::fail("%s: %zu calls, expected %zu; visited addresses differ from the addressed elements", what, got.size(), want.size());
}

template <class Shape> struct values {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<Shape>(c, alpha(R, mc::thorough()));
    if (!c.mine()) return;
    c.note("shape %s", str(r).c_str());
    Shape s = to_shape<Shape>(r);
    span f = ref::empty(r) ? span{0, 0} : flat_span(r);
    std::vector<int> mem(f.extent());
    int* base = mem.data() - f.lo;
    std::vector<long> want = R == 0 ? std::vector<long>{0} : offsets(r);
    std::sort(want.begin(), want.end());
    for (long o : want) c.obs(o);
    nda::array_ref<int, Shape> a(base, s);
    nda::array_ref<const int, Shape> ca = a;
    std::vector<long> g; size_t cap = want.size() * 4 + 100;
    auto rec = [&](const int& x) { g.push_back((long)(&x - base)); if (g.size() > cap) mc::fail("too many calls"); };
    a.for_each_value([&](int& x) { rec(x); });
    same(sorted(g), want, "array_ref::for_each_value"); g.clear();
    ca.for_each_value([&](const int& x) { rec(x); });
    same(sorted(g), want, "const array_ref::for_each_value"); g.clear();
    nda::shape_traits<Shape>::for_each_value(s, base, [&](int& x) { rec(x); });
    same(sorted(g), want, "shape_traits::for_each_value"); g.clear();
    if (R > 0) {
      // rank R view of the in-order value loop: exact order, first dim innermost
      in_order(c, r, s, base, std::integral_constant<bool, (R > 0)>());
    }
    // a view visits the same elements through run-time dims
    nda::array_ref<int, nda::shape_of_rank<R>> dyn(a);
    dyn.for_each_value([&](int& x) { rec(x); });
    same(sorted(g), want, "dynamic array_ref::for_each_value"); g.clear();
    if (ref::empty(r)) {
      nda::array_ref<int, Shape> n(nullptr, s);
      n.for_each_value([&](int&) { mc::fail("call for an empty null view"); });
    } else c.nontrivial();
  }
  static void in_order(ctx&, const rshape&, const Shape&, int*, std::false_type) {}
  static void in_order(ctx&, const rshape& r, const Shape& s, int* base, std::true_type) {
    std::vector<long> want = offsets(r), g;
    nda::for_each_value_in_order(s, base, [&](int& x) { g.push_back((long)(&x - base)); });
    if (!ref::empty(r) || !g.empty()) same(g, want, "for_each_value_in_order");
  }
};

// Two layouts of the same indices.
template <class SA, class SB> struct pair_ { using a = SA; using b = SB; };
template <class P> struct pairs {
  using SA = typename P::a;
  using SB = typename P::b;
  static constexpr size_t R = SA::rank();
  static std::string name() { return shape_name<SA>() + " " + shape_name<SB>(); }
  template <size_t... I> static void pick(ctx& c, const alphabet& al, rshape& a, rshape& b, std::index_sequence<I...>) {
    int d[] = {(one<dim_of<SA, I>, dim_of<SB, I>>(c, al, a, b), 0)..., 0};
    (void)d;
  }
  template <class DA, class DB> static void one(ctx& c, const alphabet& al, rshape& a, rshape& b) {
    auto is_static = [](long v) { return v != (long)nda::dynamic; };
    rd x, y;
    x.min = is_static(DA::Min) ? (long)DA::Min : is_static(DB::Min) ? (long)DB::Min : c.pick(al.mins);
    x.extent = is_static(DA::Extent) ? (long)DA::Extent : is_static(DB::Extent) ? (long)DB::Extent : c.pick(al.extents);
    y = x;
    x.stride = is_static(DA::Stride) ? (long)DA::Stride : c.pick(al.strides);
    y.stride = is_static(DB::Stride) ? (long)DB::Stride : c.pick(al.strides);
    a.push_back(x); b.push_back(y);
  }
  static void run(ctx& c) {
    alphabet al{{1}, {0, 1, 2, 3}, {-6, -3, -1, 0, 1, 2, 3, 6}};
    if (R == 1) al = alphabet{{-1, 2}, {0, 1, 2, 5}, {-3, -1, 0, 1, 2, 4}};
    if (R == 2) { al.strides = {-4, -3, -1, 0, 1, 2, 3, 4, 6}; if (mc::thorough()) al.extents = {0, 1, 2, 3, 4}; }
    if (R == 3) { al.extents = {1, 2, 3}; al.strides = {-1, 1, 2, 3, 6}; if (!mc::thorough()) { al.extents = {1, 2}; al.strides = {-1, 1, 2, 4}; } }
    if (R == 4) { al.extents = {2}; al.strides = {1, 2, 4, 8}; if (!mc::thorough()) al.strides = {1, 2, 4}; }
    rshape ra, rb;
    if (large_mode()) {
      // the same box in two of the layouts
      ra = pick_shape<SA>(c, al);
      auto st = statics_of<SB>(); rb = ra;
      for (size_t k = 0; k < R; k++) if ((st[k].min != (long)nda::dynamic && st[k].min != ra[k].min) || (st[k].extent != (long)nda::dynamic && st[k].extent != ra[k].extent)) return c.skip();
      if (large_mode() >= 4) ranked_layout(c, rb, st, false, true); else set_layout(rb, st, c.choose(5));
    } else pick(c, al, ra, rb, std::make_index_sequence<R>());
    if (!c.mine()) return;
    c.note("shapes %s and %s", str(ra).c_str(), str(rb).c_str());
    SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb);
    bool em = ref::empty(ra);
    span fa = em ? span{0, 0} : flat_span(ra), fb = em ? span{0, 0} : flat_span(rb);
    std::vector<char> ma(fa.extent()); std::vector<short> mb(fb.extent());
    char* pa = ma.data() - fa.lo; short* pb = mb.data() - fb.lo;
    using pr = std::pair<long, long>;
    std::vector<pr> want, got;
    if (R == 0) want.push_back(pr(0, 0));
    else each(ra, [&](const idx& i) { want.push_back(pr(offset(ra, i), offset(rb, i))); });
    nda::copy_shape_traits<SA, SB>::for_each_value(sa, pa, sb, pb, [&](char& x, short& y) { got.push_back(pr(&x - pa, &y - pb)); if (got.size() > want.size() + 100) mc::fail("too many calls"); });
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    MC_CHECK(got == want, "paired loop: pairs differ from the elements with equal indices (%zu calls, expected %zu)", got.size(), want.size());
    for (auto& p : got) { c.obs(p.first); c.obs(p.second); }
    if (!em) c.nontrivial();
    copies(c, ra, rb, sa, sb, pa, pb);
  }
  // the same traversal with value pointers swapped
  static void copies(ctx&, const rshape& ra, const rshape& rb, const SA& sa, const SB& sb, char* pa, short* pb) {
    using pr = std::pair<long, long>;
    std::vector<pr> want, got;
    if (R == 0) want.push_back(pr(0, 0));
    else each(ra, [&](const idx& i) { want.push_back(pr(offset(rb, i), offset(ra, i))); });
    nda::copy_shape_traits<SB, SA>::for_each_value(sb, (const short*)pb, sa, pa, [&](const short& y, char& x) { got.push_back(pr(&y - pb, &x - pa)); if (got.size() > want.size() + 100) mc::fail("too many calls"); });
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    MC_CHECK(got == want, "paired loop (swapped): pairs differ from the elements with equal indices");
  }
};

// Owning arrays with automatically chosen layouts: every element, exactly once.
template <class Shape> struct owning {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    alphabet a{{-2, 1}, {0, 1, 2, 3, 4}, {UN, 1, 5, -2}};
    if (R >= 3) { a.extents = {0, 1, 2, 3}; a.strides = {UN, 1}; }
    if (R == 2) a.strides = {UN, 0, 1, 5, -7};
    rshape r = pick_shape<Shape>(c, a);
    if (!c.mine()) return;
    c.note("array of %s", str(r).c_str());
    nda::array<int, Shape> x(to_shape<Shape>(r));
    rshape q = from_shape(x.shape());
    std::vector<long> want = R == 0 ? std::vector<long>{0} : offsets(q), g;
    std::sort(want.begin(), want.end());
    x.for_each_value([&](int& v) { g.push_back(&v - x.base()); });
    same(sorted(g), want, "array::for_each_value"); g.clear();
    const auto& cx = x;
    cx.for_each_value([&](const int& v) { g.push_back(&v - cx.base()); });
    same(sorted(g), want, "const array::for_each_value");
    for (long o : want) c.obs(o);
    if (!want.empty()) c.nontrivial();
  }
};

using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
using d5 = types<dim<>, dense_dim<>, dim<dynamic, 3>, dim<0, 2, 3>, nda::broadcast_dim<>>;
using d3 = types<dim<>, dense_dim<>, dim<1, 2>>;
using sp = types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<dynamic, 4>, nda::matrix_shape<2, 3>, nda::matrix_shape<1, 1>, nda::vector_shape<>, nda::vector_shape<5>,
  nda::chunky_image_shape<>, nda::chunky_image_shape<1>, nda::chunky_image_shape<2>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<dynamic, 4>, nda::chunky_image_shape<4, 6>, nda::planar_image_shape, nda::image_shape,
  nda::fixed_dense_shape<3, 2, 4>, nda::fixed_dense_shape<5>, nda::fixed_dense_shape<1, 1, 2>, nda::fixed_dense_shape<2, 2, 2, 2, 2>>;
using big_sp = types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<dynamic, 4>, nda::vector_shape<>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>, nda::planar_image_shape, nda::image_shape,
  nda::fixed_dense_shape<8>, nda::fixed_dense_shape<17>, nda::fixed_dense_shape<64>, nda::fixed_dense_shape<129>, nda::fixed_dense_shape<33, 3>, nda::fixed_dense_shape<3, 65>, nda::matrix_shape<16, 16>, nda::matrix_shape<65, 7>, nda::shape<dim<0, 100>>, nda::shape<dim<>, dim<0, 40, 1>>>;
#if PART == 0
static register_all<large_<values>::body> lreg("large values", types<shape_of_rank<1>, dense_shape<1>, shape_of_rank<2>, dense_shape<2>, shape_of_rank<3>, dense_shape<3>>());
static register_all<values> reg("values", typename concat<all_shapes<0, d5>::type, all_shapes<1, d5>::type, all_shapes<2, d5>::type>::type());
#elif PART == 1
static register_all<values> reg("values", typename concat<all_shapes<3, d3>::type, types<shape_of_rank<4>, shape_of_rank<5>, shape_of_rank<6>, dense_shape<4>, dense_shape<5>, nda::shape<dim<>, dim<1, 2>, dim<dynamic, dynamic, 4>, dim<0, 2, 1>>>>::type());
static register_all<values> reg2("values special", sp());
static register_all<large_<values>::body> lreg("large values", big_sp());
#elif PART == 2
template <class A, class B> struct xpairs;
template <class B> struct xpairs<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xpairs<types<A0, A...>, types<B...>> { using type = typename concat_<types<pair_<A0, B>...>, typename xpairs<types<A...>, types<B...>>::type>::type; };
using r0 = all_shapes<0, d3>::type; using r1 = types<nda::shape<dim<>>, nda::shape<dense_dim<>>, nda::shape<dim<2>>>; using r2 = types<shape_of_rank<2>, dense_shape<2>, nda::shape<dim<>, dim<dynamic, 3, 1>>, nda::matrix_shape<>>;
using r3 = types<shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>>;
static register_all<pairs> reg("pairs", typename concat<xpairs<r0, r0>::type, xpairs<r1, r1>::type, xpairs<r2, r2>::type, xpairs<r3, r3>::type, types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<dense_shape<4>, shape_of_rank<4>>>>::type());
static register_all<large_<pairs>::body> lreg("large pairs", typename concat<xpairs<types<shape_of_rank<1>, dense_shape<1>>, types<shape_of_rank<1>, dense_shape<1>>>::type, xpairs<types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>>, types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>>>::type,
  types<pair_<shape_of_rank<3>, nda::chunky_image_shape<>>, pair_<nda::chunky_image_shape<>, nda::planar_image_shape>, pair_<dense_shape<3>, dense_shape<3>>, pair_<nda::shape<dim<0, 100>>, nda::shape<dense_dim<0, 100>>>, pair_<nda::matrix_shape<33, 17>, nda::fixed_dense_shape<33, 17>>>>::type());
#elif PART == 4
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>; using mixed5 = nda::shape<dim<>, dim<>, dim<dynamic, dynamic, -1>, dim<-1>, dim<>>;
static register_all<ranked_<values>::body> rreg("ranked values", types<shape_of_rank<4>, dense_shape<4>, mixed4, shape_of_rank<5>, dense_shape<5>, mixed5, shape_of_rank<6>, dense_shape<6>, shape_of_rank<7>, nda::fixed_dense_shape<2, 2, 1, 2, 2, 2, 2>, shape_of_rank<8>>());
static register_all<ranked_<owning>::body> rrego("ranked array", types<shape_of_rank<4>, dense_shape<4>, nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>, shape_of_rank<5>, dense_shape<5>>());
static register_all<ranked_<owning, true>::body> rreg6("ranked array few", types<shape_of_rank<6>, dense_shape<7>>());
#elif PART == 5
static register_all<ranked_<pairs>::body> rreg("ranked pairs", types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<dense_shape<4>, shape_of_rank<4>>, pair_<shape_of_rank<5>, shape_of_rank<5>>, pair_<shape_of_rank<5>, dense_shape<5>>, pair_<dense_shape<5>, nda::shape<dim<>, dim<>, dense_dim<>, dim<>, dim<>>>, pair_<shape_of_rank<6>, shape_of_rank<6>>>());
static register_all<ranked_<pairs, true>::body> rreg7("ranked pairs few", types<pair_<shape_of_rank<7>, dense_shape<7>>, pair_<shape_of_rank<8>, shape_of_rank<8>>>());
#else
static register_all<owning> reg("array", typename concat<all_shapes<0, d3>::type, all_shapes<1, d3>::type, all_shapes<2, d3>::type, types<shape_of_rank<3>, dense_shape<3>, shape_of_rank<4>>>::type());
static register_all<owning> reg2("array special", sp());
static register_all<large_<owning>::body> lreg("large array", typename concat<types<shape_of_rank<1>, shape_of_rank<2>, dense_shape<2>>, big_sp>::type());
#endif
