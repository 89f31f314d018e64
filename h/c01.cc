// C01: a shape is the affine map of its dims, and its queries agree with it.
#include "ref.h"
using namespace ref;

template <class Shape, class Ix> static bool lib_in_range(const Shape& s, const Ix& ix) { return s.is_in_range(ix); }

template <class Shape> struct queries {
  static constexpr size_t R = Shape::rank();
  static void check(ctx& c, const rshape& r, const Shape& s, bool all_indices) {
    // dims and accessors
    rshape got = from_shape(s);
    for (auto& d : r) { c.obs(d.min); c.obs(d.extent); }
    MC_CHECK(got == r, "dims read back as %s, constructed as %s", str(got).c_str(), str(r).c_str());
    idx mn = from_tuple(s.min()), mx = from_tuple(s.max()), ex = from_tuple(s.extent()), sd = from_tuple(s.stride());
    for (size_t d = 0; d < R; d++) {
      MC_CHECK(mn[d] == r[d].min && mx[d] == r[d].max() && ex[d] == r[d].extent && sd[d] == r[d].stride, "min/max/extent/stride tuple of dim %zu", d);
      auto dd = s.dim(d);
      MC_CHECK(dd.min() == r[d].min && dd.extent() == r[d].extent && dd.stride() == r[d].stride && dd.max() == r[d].max(), "run-time dim(%zu)", d);
    }
    MC_CHECK((long)s.size() == ref::size(r), "size %zu, expected %ld", (size_t)s.size(), ref::size(r));
    MC_CHECK(s.empty() == ref::empty(r), "empty()");
    MC_CHECK(Shape::rank() == r.size() && Shape::is_scalar() == r.empty(), "rank");
    if (!ref::empty(r)) {
      span f = flat_span(r);
      MC_CHECK(s.flat_min() == f.lo && s.flat_max() == f.hi && (long)s.flat_extent() == f.extent(), "flat bounds %ld %ld %zu, expected %ld %ld", (long)s.flat_min(), (long)s.flat_max(), (size_t)s.flat_extent(), f.lo, f.hi);
      c.nontrivial();
    }
    auto at = [&](const idx& i) {
      long want = offset(r, i);
      auto t = to_tuple<R>(i);
      MC_CHECK((long)s[t] == want, "s[%s] = %ld, expected %ld", str(i).c_str(), (long)s[t], want);
      long got2 = spread<R>([&](auto... a) { return (long)s(a...); }, i);
      MC_CHECK(got2 == want, "s%s = %ld, expected %ld", str(i).c_str(), got2, want);
      c.obs((uint64_t)want);
    };
    if (all_indices) {
      long lo = LONG_MAX, hi = LONG_MIN, n = 0;
      each(r, [&](const idx& i) { at(i); long o = offset(r, i); lo = std::min(lo, o); hi = std::max(hi, o); n++; });
      if (n) MC_CHECK(lo == s.flat_min() && hi == s.flat_max() && n == (long)s.size(), "enumerated bounds");
      // membership in a box one larger on each side
      rshape box = r; for (auto& d : box) { d.min -= 1; d.extent = std::max(0l, d.extent) + 2; }
      each(box, [&](const idx& i) { in(c, r, s, i); });
    } else {
      // corners and their neighbours
      rshape corner; for (size_t d = 0; d < R; d++) corner.push_back(rd{0, 4, 0});
      each(corner, [&](const idx& k) {
        idx i(R); bool inside = true;
        for (size_t d = 0; d < R; d++) { long v[4] = {r[d].min, r[d].min + 1, r[d].max() - 1, r[d].max()}; i[d] = v[k[d]]; }
        if (contains(r, i)) at(i); else inside = false;
        (void)inside;
      });
    }
  }
  static void in(ctx&, const rshape& r, const Shape& s, const idx& i) { in_(r, s, i, std::integral_constant<bool, (R > 0)>()); }
  static void in_(const rshape&, const Shape&, const idx&, std::false_type) {}
  static void in_(const rshape& r, const Shape& s, const idx& i, std::true_type) {
    bool want = contains(r, i);
    MC_CHECK(s.is_in_range(to_tuple<R>(i)) == want, "is_in_range%s of %s: expected %d", str(i).c_str(), str(r).c_str(), want);
    bool got = spread<R>([&](auto... a) { return s.is_in_range(a...); }, i);
    MC_CHECK(got == want, "is_in_range(%s...) of %s: expected %d", str(i).c_str(), str(r).c_str(), want);
  }
};

static const alphabet& alpha(size_t rank) {
  static const alphabet a1{{-3, -1, 0, 1, 5}, {0, 1, 2, 3, 5}, {-4, -1, 0, 1, 2, 3, 7}};
  static const alphabet a2{{-2, 0, 1, 3}, {0, 1, 2, 3, 4}, {-3, -1, 0, 1, 2, 5}};
  static const alphabet a3{{-1, 0, 2}, {0, 1, 3}, {-2, 0, 1, 4}};
  static const alphabet a4{{-1, 1}, {0, 1, 2}, {-2, 3}};
  static const alphabet a5{{-1, 1}, {2}, {-5, 3}};
  static const alphabet t2{{-2, -1, 0, 1, 3, 9}, {0, 1, 2, 3, 4, 5, 8, 9}, {-7, -3, -1, 0, 1, 2, 5, 8}};
  static const alphabet t3{{-1, 0, 2}, {0, 1, 2, 3}, {-2, -1, 0, 1, 2, 4}};
  static const alphabet t4{{-1, 0, 1}, {0, 1, 2}, {-2, 0, 3}};
  if (mc::thorough()) return rank <= 1 ? a1 : rank == 2 ? t2 : rank == 3 ? t3 : rank == 4 ? t4 : a4;
  return rank <= 1 ? a1 : rank == 2 ? a2 : rank == 3 ? a3 : rank == 4 ? a4 : a5;
}

template <class Shape> struct mapping {
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<Shape>(c, alpha(Shape::rank()));
    if (!c.mine()) return;
    c.note("shape %s values %s", shape_name<Shape>().c_str(), str(r).c_str());
    queries<Shape>::check(c, r, to_shape<Shape>(r), true);
  }
};

using dims7 = types<nda::dim<>, nda::dense_dim<>, nda::dim<2>, nda::dim<nda::dynamic, 3>, nda::dim<-1, 2, 3>, nda::broadcast_dim<>, nda::dim<0, nda::dynamic, -2>>;
using dims4 = types<nda::dim<>, nda::dense_dim<0>, nda::dim<nda::dynamic, 2, -3>, nda::dim<-1, 3>>;
using dims2 = types<nda::dim<>, nda::dim<1, 2, 5>>;
#if PART == 0
using list = concat<all_shapes<0, dims7>::type, all_shapes<1, dims7>::type, all_shapes<2, dims7>::type>::type;
#elif PART == 1
using list = all_shapes<3, dims4>::type;
#else
using list = concat<all_shapes<4, dims2>::type, types<nda::shape_of_rank<5>, nda::shape_of_rank<6>, nda::dense_shape<5>, nda::dense_shape<6>,
  nda::shape<nda::dim<>, nda::dim<1>, nda::dim<nda::dynamic, 2>, nda::dim<>, nda::dim<nda::dynamic, nda::dynamic, -7>>,
  nda::shape<nda::dim<>, nda::dim<>, nda::dim<>, nda::dim<-4, 2, 9>, nda::dense_dim<>, nda::dim<>, nda::dim<2, 2>>>>::type;
#endif
static register_all<mapping> reg("map", list());

#if PART == 0
// Magnitudes: indices, mins and strides whose products need more than 32 bits (also sub-ranges and slices).
template <class Shape> struct big {
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
#ifdef NDARRAY_INT_INDICES
    alphabet a{{-1000, 0, 70000}, {1, 3, 20000}, {-700, 1, 40, 900}};
#else
    alphabet a{{-5000000000l, -1, 0, 70000, 3000000000l}, {1, 3, 70000, 4294967297l}, {-3000000000l, -65537, 0, 1, 131072, 4294967296l}};
#endif
    if (Shape::rank() == 2 && !mc::thorough()) { a.mins = {a.mins[0], a.mins.back()}; }
    if (Shape::rank() > 2) { // every dim near or far, so that each term of the sum is at times the only one beyond 32 bits
      long far = a.strides.back(), neg = a.strides[0];
      if (Shape::rank() <= 4) a = alphabet{{0, mc::thorough() || Shape::rank() == 3 ? a.mins.back() : 5}, {1, 3}, {1, neg, far}};
      else a = alphabet{{0}, {Shape::rank() == 5 ? 3 : 2}, {1, neg, far}};
    }
    rshape r = pick_shape<Shape>(c, a);
    if (!c.mine()) return;
    // keep the exact value representable
    __int128 lo = 0, hi = 0, n = 1;
    for (auto& d : r) { __int128 e = (__int128)(d.extent - 1) * d.stride; (e < 0 ? lo : hi) += e; n *= d.extent; }
    __int128 lim = sizeof(index_t) == 4 ? (__int128)1 << 30 : (__int128)1 << 62;
    if (hi > lim || lo < -lim || n > lim) return;
    c.note("shape %s", str(r).c_str());
    queries<Shape>::check(c, r, to_shape<Shape>(r), false);
  }
};
static register_all<big> reg_big("big", types<nda::shape_of_rank<1>, nda::shape_of_rank<2>, nda::shape<nda::dim<>, nda::dense_dim<>>, nda::shape_of_rank<3>, nda::shape_of_rank<4>, nda::shape_of_rank<5>, nda::shape_of_rank<6>, nda::shape_of_rank<7>>());

// Range queries with a sub-range per dimension (or a mixture of ranges and indices), as intervals and as dims.
static bool sub(long a0, long a1, const rd& d) { return a0 >= d.min && a1 <= d.max(); }
MC_SUITE("subrange rank 1") {
  rd d{(long)c.range(-2, 1), (long)c.range(0, 4), (long)c.pick({-1, 1, 3})};
  long m = c.range(-4, 4), e = c.range(1, 5);
  if (!c.mine()) return;
  nda::shape_of_rank<1> s = to_shape<nda::shape_of_rank<1>>({d});
  bool want = sub(m, m + e - 1, d);
  if (want) c.nontrivial();
  c.obs(m * 10 + e);
  c.note("dim %s range [%ld,%ld)", str(rshape{d}).c_str(), m, m + e);
  MC_CHECK(s.is_in_range(nda::interval<>(m, e)) == want, "interval in range");
  MC_CHECK(s.is_in_range(nda::dim<>(m, e, 7)) == want, "dim in range");
  MC_CHECK(s.is_in_range(std::make_tuple(nda::interval<>(m, e))) == want, "tuple of interval in range");
  MC_CHECK(s.template dim<0>().is_in_range(nda::interval<>(m, e)) == want, "dim::is_in_range(interval)");
  MC_CHECK(s.template dim<0>().is_in_range(nda::dim<>(m, e)) == want, "dim::is_in_range(dim)");
}
MC_SUITE("subrange rank 3") {
  rshape r; for (int k = 0; k < 3; k++) r.push_back(rd{(long)c.pick({-1, 2}), (long)c.pick({1, 3}), 1});
  long m[3], e[3];
  for (int k = 0; k < 3; k++) { m[k] = c.range(-2, 3); e[k] = c.pick({1, 3}); }
  if (!c.mine()) return;
  auto s = to_shape<nda::shape_of_rank<3>>(r);
  bool w[3], p[3];
  for (int k = 0; k < 3; k++) { w[k] = sub(m[k], m[k] + e[k] - 1, r[k]); p[k] = sub(m[k], m[k], r[k]); }
  using I = nda::interval<>;
  I i0(m[0], e[0]), i1(m[1], e[1]), i2(m[2], e[2]);
  MC_CHECK(s.is_in_range(i0, i1, i2) == (w[0] && w[1] && w[2]), "three intervals");
  MC_CHECK(s.is_in_range((index_t)m[0], i1, i2) == (p[0] && w[1] && w[2]), "index, interval, interval");
  MC_CHECK(s.is_in_range(i0, (index_t)m[1], i2) == (w[0] && p[1] && w[2]), "interval, index, interval");
  MC_CHECK(s.is_in_range(i0, i1, (index_t)m[2]) == (w[0] && w[1] && p[2]), "interval, interval, index");
  MC_CHECK(s.is_in_range(std::make_tuple((index_t)m[0], i1, nda::dim<>(m[2], e[2]))) == (p[0] && w[1] && w[2]), "tuple");
  if (w[0] && w[1] && w[2]) c.nontrivial();
  c.obs(w[0] + 2 * w[1] + 4 * w[2] + 8 * p[0] + 16 * p[1] + 32 * p[2]);
}
#endif
