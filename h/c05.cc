// C05: copies and moves transfer exactly the destination's region.
#include "ref.h"
#include "world.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using world::elem;

template <class SA, class SB> struct pair_ { using a = SA; using b = SB; };
template <class A, class B> struct xpairs;
template <class B> struct xpairs<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xpairs<types<A0, A...>, types<B...>> { using type = typename concat_<types<pair_<A0, B>...>, typename xpairs<types<A...>, types<B...>>::type>::type; };

static bool within(const rshape& d, const rshape& s) {
  if (ref::empty(d)) return true;
  for (size_t k = 0; k < d.size(); k++) if (d[k].min < s[k].min || d[k].max() > s[k].max()) return false;
  return true;
}
static span span_of(const rshape& r) { return r.empty() ? span{0, 0} : ref::empty(r) ? span{0, 0} : flat_span(r); }
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }

template <class SA> static alphabet src_alpha() {
  constexpr size_t R = SA::rank();
  bool th = mc::thorough();
  if (R <= 1) return {{-1, 2}, {0, 1, 2, 4}, {-3, -1, 0, 1, 2, 4}};
  if (R == 2) return {{-1}, {1, 2, 3}, {-6, -3, -1, 0, 1, 2, 3, 4}};
  if (R == 3) return {{1}, th ? std::vector<long>{1, 2, 3} : std::vector<long>{1, 2}, th ? std::vector<long>{-2, 1, 2, 3, 6} : std::vector<long>{-2, 1, 2, 4}};
  return {{1}, {2}, {1, 2, 4}};
}
template <class SB> static alphabet dst_alpha() {
  constexpr size_t R = SB::rank();
  bool th = mc::thorough();
  if (R <= 1) return {{-2, -1, 0, 2, 3}, {0, 1, 2, 3, 4}, {-4, -1, 1, 2, 3}};
  if (R == 2) return {{-1, 0}, th ? std::vector<long>{0, 1, 2, 3} : std::vector<long>{0, 1, 2, 3}, {-4, -2, -1, 1, 2, 3, 4}};
  if (R == 3) return {{1, 2}, th ? std::vector<long>{1, 2, 3} : std::vector<long>{1, 2}, {-1, 1, 2, 4}};
  return {{1, 2}, {1, 2}, {1, 2, 4, 8}};
}

// views over guarded buffers
template <class P> struct views {
  using SA = typename P::a;
  using SB = typename P::b;
  static constexpr size_t R = SA::rank();
  static std::string name() { return shape_name<SA>() + " -> " + shape_name<SB>(); }
  static void run(ctx& c) {
    rshape ra = pick_shape<SA>(c, src_alpha<SA>()), rb;
    if (!large_mode()) rb = pick_shape<SB>(c, dst_alpha<SB>());
    else if (!pick_within<SB>(c, ra, dst_alpha<SB>(), rb)) return c.skip();
    if (!within(rb, ra) || !injective(rb)) return c.skip();
    if (!c.mine()) return;
    c.note("from %s to %s", str(ra).c_str(), str(rb).c_str());
    SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb);
    span fa = span_of(ra), fb = span_of(rb);
    {
      guarded<short> s(fa.lo, fa.hi, 3, [](long i) { return (short)(100 + i); });
      guarded<int> d(fb.lo, fb.hi, 9, [](long i) { return (int)(-5 - i); });
      nda::array_ref<short, SA> vs(s.base(), sa); nda::array_ref<const short, SA> cs(s.base(), sa);
      nda::array_ref<int, SB> vd(d.base(), sb);
      each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = s.model(offset(ra, i)); c.obs(offset(ra, i) * 1000 + offset(rb, i)); });
      nda::copy(cs, vd);
      d.check("copy: destination"); s.check("copy: source");
      nda::copy(vs, vd);
      d.check("copy again: destination"); s.check("copy again: source");
    }
    {
      guarded<short> s(fa.lo, fa.hi, 3, [](long i) { return (short)(100 + i); });
      guarded<int> d(fb.lo, fb.hi, 9, [](long i) { return (int)(-5 - i); });
      nda::array_ref<short, SA> vs(s.base(), sa); nda::array_ref<int, SB> vd(d.base(), sb);
      each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = s.model(offset(ra, i)); });
      nda::move(vs, vd);
      d.check("move: destination"); s.check("move of scalars: source");
    }
    if (injective(ra)) {
      world::reset();
      guarded<elem> s(fa.lo, fa.hi, 2, [](long i) { return elem((int)(100 + i)); });
      guarded<elem> d(fb.lo, fb.hi, 5, [](long i) { return elem((int)(-5 - i)); });
      nda::array_ref<elem, SA> vs(s.base(), sa); nda::array_ref<elem, SB> vd(d.base(), sb);
      long n = 0;
      each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = s.model(offset(ra, i)); s.model(offset(ra, i)) = elem(world::MOVED); n++; });
      world::counts() = world::counts_t();
      nda::move(vs, vd);
      auto k = world::counts();
      MC_CHECK(k.massign == n && k.move == 0 && k.copy == 0 && k.cassign == 0, "move: %ld move assignments, %ld moves, %ld copies for %ld elements", k.massign, k.move, k.copy + k.cassign, n);
      d.check("move: destination"); s.check("move: source");
    }
    if (!ref::empty(rb)) c.nontrivial();
  }
};

// owning arrays and the functions that return one
#ifndef AFLAGS  // the allocator's propagation (both kinds are built: see checks.py)
#define AFLAGS (world::CCA | world::CMA)
#endif
using A5 = world::alloc<elem, AFLAGS>;
template <class Shape, class Al> static void check_result(const nda::array<elem, Shape, Al>& x, const rshape& want, const std::map<idx, int>& m, const char* what) {
  rshape q = from_shape(x.shape());
  MC_CHECK(q == want, "%s: result shape %s, expected %s", what, str(q).c_str(), str(want).c_str());
  each0(q, [&](const idx& i) {
    int got = world::value_of(x[to_tuple<Shape::rank()>(i)]), w = m.at(i);
    MC_CHECK(got == w, "%s: result%s = %d, expected %d", what, str(i).c_str(), got, w);
  });
}
template <class P> struct arrays {
  using SA = typename P::a;
  using SB = typename P::b;
  static constexpr size_t R = SA::rank();
  static std::string name() { return shape_name<SA>() + " -> " + shape_name<SB>(); }
  using AA = nda::array<elem, SA, A5>;
  using AB = nda::array<elem, SB, A5>;
  static alphabet with_unresolved(alphabet a) { a.strides = {UN, 1, -2, 7}; if (R >= 3) a.strides = {UN, 1}; return a; }
  static void run(ctx& c) {
    rshape ra = pick_shape<SA>(c, with_unresolved(src_alpha<SA>())), rb;
    if (!large_mode()) rb = pick_shape<SB>(c, with_unresolved(dst_alpha<SB>()));
    else if (!pick_within<SB>(c, ra, with_unresolved(dst_alpha<SB>()), rb)) return c.skip();
    if (!within(rb, ra)) return c.skip();
    {  // resolved layouts must not alias
      SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb); sa.resolve(); sb.resolve();
      rshape qa = from_shape(sa), qb = from_shape(sb);
      if (!injective(qa) || !injective(qb)) return c.skip();
    }
    if (!c.mine()) return;
    c.note("from array %s to array %s", str(ra).c_str(), str(rb).c_str());
    SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb);
    for (int op = 0; op < 16; op++) one(c, op, sa, sb);
    if (!ref::empty(rb)) c.nontrivial();
  }
  static void fill_(AA& a, std::map<idx, int>& m) {
    rshape q = from_shape(a.shape()); int n = 10;
    each0(q, [&](const idx& i) { a[to_tuple<R>(i)] = elem(n); m[i] = n; n++; });
  }
  // every element of the source: in `moved` (by index in region) or unchanged
  static void check_src(const AA& a, const std::map<idx, int>& m, const rshape* region, const char* what) {
    rshape q = from_shape(a.shape());
    each0(q, [&](const idx& i) {
      int w = region && contains(*region, i) ? world::MOVED : m.at(i), got = world::value_of(a[to_tuple<R>(i)]);
      MC_CHECK(got == w, "%s: source%s = %d afterwards, expected %d", what, str(i).c_str(), got, w);
    });
  }
  static void one(ctx& c, int op, const SA& sa, const SB& sb) {
    world::reset();
    {
      std::map<idx, int> m;
      AA a(sa, A5(1));
      fill_(a, m);
      rshape qa = from_shape(a.shape()), qb; { SB t = sb; t.resolve(); qb = from_shape(t); }
      long n = 0; each0(qb, [&](const idx&) { n++; });
      long na = 0; each0(qa, [&](const idx&) { na++; });
      auto zero = [&] { world::counts() = world::counts_t(); };
      auto moves_only = [&](long k, const char* what) {
        auto t = world::counts();
        MC_CHECK(t.copy + t.cassign == 0, "%s: %ld elements were copied", what, t.copy + t.cassign);
        MC_CHECK(t.move + t.massign == k, "%s: %ld element moves, expected %ld", what, t.move + t.massign, k);
      };
      const AA& ca = a;
      switch (op) {
        case 0: { AB b(sb, elem(5), A5(2)); nda::copy(a, b); check_result(b, qb, m, "copy(array, array)"); check_src(a, m, nullptr, "copy"); break; }
        case 1: { AB b(sb, A5(2)); nda::copy(a.cref(), b); check_result(b, qb, m, "copy(ref, array)"); check_src(a, m, nullptr, "copy"); break; }
        case 2: { AB b(sb, A5(2)); nda::copy(ca, b.ref()); check_result(b, qb, m, "copy(array, ref)"); check_src(a, m, nullptr, "copy"); break; }
        case 3: { AB b(sb, A5(2)); zero(); nda::move(a, b); moves_only(n, "move(array, array)"); check_result(b, qb, m, "move(array, array)"); check_src(a, m, &qb, "move"); break; }
        case 4: { AB b(sb, A5(2)); zero(); nda::move(a.ref(), b); moves_only(n, "move(ref, array)"); check_result(b, qb, m, "move(ref, array)"); check_src(a, m, &qb, "move"); break; }
        case 5: { AB b(sb, A5(2)); zero(); nda::move(a, b.ref()); moves_only(n, "move(array, ref)"); check_result(b, qb, m, "move(array, ref)"); check_src(a, m, &qb, "move"); break; }
        case 6: { auto b = nda::make_copy(ca, A5(3)); static_assert(std::is_same<decltype(b), AA>::value, ""); check_result(b, qa, m, "make_copy(array, alloc)"); MC_CHECK(b.get_allocator().id == 3, "make_copy: allocator"); check_src(a, m, nullptr, "make_copy"); auto b2 = nda::make_copy(a); check_result(b2, qa, m, "make_copy(array)"); break; }
        case 7: { auto b = nda::make_copy(ca.ref(), A5(3)); check_result(b, qa, m, "make_copy(ref, alloc)"); MC_CHECK(b.get_allocator().id == 3, "make_copy: allocator"); auto b2 = nda::make_copy(a.ref()); check_result(b2, qa, m, "make_copy(ref)"); check_src(a, m, nullptr, "make_copy"); break; }
        case 8: { auto b = nda::make_copy(ca, sb, A5(3)); static_assert(std::is_same<decltype(b), AB>::value, ""); check_result(b, qb, m, "make_copy(array, shape, alloc)"); MC_CHECK(b.get_allocator().id == 3, "make_copy: allocator"); check_src(a, m, nullptr, "make_copy"); auto b2 = nda::make_copy(ca.ref(), sb); check_result(b2, qb, m, "make_copy(ref, shape)"); break; }
        case 9: {
          auto cs = nda::make_compact(a.shape()); rshape qc = from_shape(cs);
          auto b = nda::make_compact_copy(ca, A5(3)); check_result(b, qc, m, "make_compact_copy(array, alloc)"); MC_CHECK(b.get_allocator().id == 3, "make_compact_copy: allocator");
          auto b2 = nda::make_compact_copy(a.ref()); check_result(b2, qc, m, "make_compact_copy(ref)"); check_src(a, m, nullptr, "make_compact_copy"); break;
        }
        case 10: { zero(); auto b = nda::make_move(a.ref(), sb, A5(3)); moves_only(n, "make_move(ref, shape)"); check_result(b, qb, m, "make_move(ref, shape)"); MC_CHECK(b.get_allocator().id == 3, "make_move: allocator"); check_src(a, m, &qb, "make_move"); break; }
        case 11: { zero(); auto b = nda::make_move(a, sb, A5(3)); moves_only(n, "make_move(array&, shape)"); check_result(b, qb, m, "make_move(array&, shape)"); check_src(a, m, &qb, "make_move"); break; }
        case 12: {  // rvalue: the same shape and an equal allocator hand over the block
          SA same = a.shape();
          zero();
          long al = world::heap().allocs;
          auto b = nda::make_move(std::move(a), same, A5(1));
          moves_only(0, "make_move(array&&, same shape)"); check_result(b, qa, m, "make_move(array&&, same shape)");
          MC_CHECK(world::heap().allocs == al, "make_move(array&&, same shape): allocated a new block");
          break;
        }
        case 13: { SA same = a.shape(); zero(); auto b = nda::make_move(std::move(a), same, A5(4)); moves_only(na, "make_move(array&&, same shape, other allocator)"); check_result(b, qa, m, "make_move(array&&, same shape, other allocator)"); MC_CHECK(b.get_allocator().id == 4, "make_move: allocator"); break; }
        case 14: { auto cs = nda::make_compact(a.shape()); rshape qc = from_shape(cs); zero(); auto b = nda::make_compact_move(a, A5(3)); moves_only(na, "make_compact_move(array&)"); check_result(b, qc, m, "make_compact_move(array&)"); break; }
        case 15: { auto cs = nda::make_compact(a.shape()); rshape qc = from_shape(cs); zero(); auto b = nda::make_compact_move(std::move(a), A5(1)); auto t = world::counts(); MC_CHECK(t.copy + t.cassign == 0 && t.move + t.massign <= na, "make_compact_move(array&&): copies or repeated moves"); check_result(b, qc, m, "make_compact_move(array&&)"); break; }
      }
      for (auto& kv : m) c.obs(kv.second);
    }
    world::all_gone();
    c.check_soft();
  }
};

using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
using r1 = types<nda::shape<dim<>>, nda::shape<dense_dim<>>, nda::shape<dim<2>>, nda::shape<dim<dynamic, 2>>>;
using r2 = types<shape_of_rank<2>, dense_shape<2>, nda::shape<dim<>, dim<-1, 2, 1>>, nda::matrix_shape<>>;
using r3 = types<shape_of_rank<3>, dense_shape<3>, nda::shape<dim<>, dim<>, dim<1, 2>>>;
using r3a = types<shape_of_rank<3>, nda::planar_image_shape>;
using bigs = types<nda::matrix_shape<33, 17>, nda::fixed_dense_shape<100>>;
#if PART == 0
static register_all<large_<views>::body> lreg("large view", typename concat<xpairs<types<nda::shape<dim<>>, nda::shape<dense_dim<>>>, types<nda::shape<dim<>>, nda::shape<dense_dim<>>>>::type, types<pair_<nda::shape<dim<>>, nda::shape<dim<0, 64>>>, pair_<nda::shape<dim<0, 100>>, nda::shape<dense_dim<0, 100>>>>>::type());
static register_all<views> reg("view", typename concat<types<pair_<nda::shape<>, nda::shape<>>>, xpairs<r1, r1>::type, xpairs<r2, r2>::type>::type());
#elif PART == 1
static register_all<large_<views, 2>::body> lreg("large view", typename concat<xpairs<types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>>, types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>>>::type, types<pair_<shape_of_rank<3>, dense_shape<3>>, pair_<dense_shape<3>, shape_of_rank<3>>, pair_<nda::matrix_shape<33, 17>, nda::fixed_dense_shape<33, 17>>, pair_<nda::chunky_image_shape<>, nda::planar_image_shape>, pair_<nda::planar_image_shape, nda::chunky_image_shape<3>>>>::type());
static register_all<views> reg("view", typename concat<xpairs<r3, r3>::type, types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<shape_of_rank<3>, nda::chunky_image_shape<2>>>>::type());
#elif PART == 3
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>;
static register_all<ranked_<views>::body> rreg("ranked view", types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<shape_of_rank<4>, dense_shape<4>>, pair_<dense_shape<4>, mixed4>, pair_<mixed4, shape_of_rank<4>>, pair_<shape_of_rank<5>, dense_shape<5>>>());
static register_all<ranked_<views, true>::body> rreg6("ranked view few", types<pair_<shape_of_rank<5>, shape_of_rank<5>>, pair_<dense_shape<6>, shape_of_rank<6>>, pair_<shape_of_rank<7>, dense_shape<7>>, pair_<shape_of_rank<8>, shape_of_rank<8>>>());
static register_all<ranked_<arrays, true>::body> rrega("ranked array few", types<pair_<dense_shape<4>, shape_of_rank<4>>, pair_<shape_of_rank<5>, dense_shape<5>>>());
#else
static register_all<large_<arrays, 3>::body> lreg("large array", types<pair_<nda::shape<dim<>>, nda::shape<dim<>>>, pair_<dense_shape<2>, dense_shape<2>>, pair_<nda::matrix_shape<>, shape_of_rank<2>>, pair_<nda::chunky_image_shape<>, nda::planar_image_shape>, pair_<nda::fixed_dense_shape<40>, nda::shape<dim<>>>>());
static register_all<arrays> reg("array", typename concat<types<pair_<nda::shape<>, nda::shape<>>, pair_<dense_shape<2>, dense_shape<2>>, pair_<shape_of_rank<2>, shape_of_rank<2>>, pair_<nda::matrix_shape<>, shape_of_rank<2>>, pair_<shape_of_rank<2>, nda::matrix_shape<>>,
  pair_<nda::shape<dim<>, dim<-1, 2, 1>>, dense_shape<2>>, pair_<dense_shape<2>, nda::shape<dim<>, dim<-1, 2, 1>>>, pair_<shape_of_rank<3>, nda::chunky_image_shape<>>, pair_<nda::planar_image_shape, shape_of_rank<3>>>, xpairs<types<nda::shape<dim<>>, nda::shape<dense_dim<>>, nda::shape<dim<dynamic, 2>>>, types<nda::shape<dim<>>, nda::shape<dim<2>>>>::type>::type());
#endif
