// C02: automatic strides follow the documented rule and never overlap.
#include "ref.h"
using namespace ref;

// Reference: dims innermost first; each takes the smallest candidate that fits beside every placed dim.
static bool fits(long stride, long extent, const rd& d) {
  if (extent == 1 && d.extent > 1 && stride == std::labs(d.stride)) return false;
  return d.extent * std::labs(d.stride) <= stride || extent * stride <= std::labs(d.stride);
}
static bool ref_resolve(rshape& s) {
  for (auto& d : s) {
    if (d.stride != UN) continue;
    std::set<long> cand{1};
    for (auto& p : s) if (p.stride != UN) cand.insert(std::max(1l, std::labs(p.stride) * p.extent));
    long best = -1;
    for (long k : cand) {
      bool ok = true;
      for (auto& p : s) if (p.stride != UN && !fits(k, d.extent, p)) ok = false;
      if (ok) { best = k; break; }
    }
    if (best < 0) return false;  // no candidate: only possible when explicit strides interleave
    d.stride = best;
  }
  return true;
}

static bool distinct_offsets(const rshape& s) {
  // injective over the dims that are not broadcast
  rshape t; for (auto& d : s) if (d.stride != 0) t.push_back(d);
  return injective(t);
}

static alphabet alpha(size_t rank) {
  alphabet a{{0, -3}, {0, 1, 2, 3, 4, 5, 7, 8}, {UN, -3, -1, 0, 1, 2, 3, 4, 6, 7, 12, 20}};
  if (rank == 2) a.mins = {-3};
  if (rank == 3) { a.mins = {2}; a.extents = {0, 1, 2, 3, 5}; a.strides = {UN, -2, 0, 1, 2, 3, 5, 6, 12}; }
  if (rank == 4) { a.mins = {0}; a.extents = {1, 2, 3}; a.strides = {UN, -2, 1, 3, 4, 9}; if (mc::thorough()) { a.extents = {0, 1, 2, 3, 5}; a.strides = {UN, -2, 0, 1, 3, 4, 9}; } }
  if (rank == 5) { a.mins = {0}; a.extents = {1, 2}; a.strides = {UN, 1, 4, -8}; if (mc::thorough()) { a.extents = {1, 2, 3}; a.strides = {UN, 1, 2, 4, -8}; } }
  return a;
}

template <class Shape> struct resolve {
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) { rshape r = pick_shape<Shape>(c, alpha(Shape::rank())); if (c.mine()) check(c, r, true); }
  static void check(ctx& c, const rshape& r, bool small) {
    c.note("shape %s", str(r).c_str());
    rshape explicit_dims; int open = 0;
    for (auto& d : r) { if (d.stride != UN) explicit_dims.push_back(d); else open++; }
    Shape s = to_shape<Shape>(r);
    MC_CHECK(s.is_resolved() == (open == 0), "is_resolved() before resolving");
    bool ok_pre = nested(explicit_dims);
    rshape want = r;
    bool have = ref_resolve(want);
    if (!ok_pre && !have) return;  // explicit strides interleave and nothing fits: no claim
    s.resolve();
    rshape got = from_shape(s);
    c.note("resolved %s", str(got).c_str());
    MC_CHECK(s.is_resolved(), "unresolved stride left in %s", str(got).c_str());
    for (size_t k = 0; k < r.size(); k++) {
      MC_CHECK(got[k].min == r[k].min && got[k].extent == r[k].extent, "resolve changed min or extent of dim %zu", k);
      if (r[k].stride != UN) MC_CHECK(got[k].stride == r[k].stride, "resolve changed the explicit stride of dim %zu", k);
      c.obs(got[k].stride); c.obs(got[k].extent);
    }
    if (ok_pre) {
      MC_CHECK(have, "reference found no candidate");
      MC_CHECK(got == want, "resolved to %s, the documented rule gives %s", str(got).c_str(), str(want).c_str());
      if (small && !ref::empty(r)) {
        bool strict = true;  // explicit dims themselves must be injective
        for (auto& d : explicit_dims) if (d.stride == 0) strict = false;
        (void)strict;
        MC_CHECK(distinct_offsets(got), "distinct indices share an offset in %s", str(got).c_str());
      }
      if (open == (int)r.size() && !ref::empty(r)) {
        long st = 1;
        for (size_t k = 0; k < r.size(); k++) { if (got[k].extent > 1) MC_CHECK(got[k].stride == st, "dim %zu of an automatic shape is not packed: %s", k, str(got).c_str()); st *= got[k].extent; }
      }
      if (open) c.nontrivial();
    }
    Shape t = s; t.resolve();
    MC_CHECK(from_shape(t) == got && t == s, "resolving twice changed the shape");
    // The containers resolve the same way.
    if (ok_pre) {
      nda::array_ref<char, Shape> ar(nullptr, to_shape<Shape>(r));
      MC_CHECK(from_shape(ar.shape()) == got, "array_ref resolved differently: %s", str(from_shape(ar.shape())).c_str());
      if (small) {
        nda::array<char, Shape> a(to_shape<Shape>(r));
        MC_CHECK(from_shape(a.shape()) == got, "array resolved differently: %s", str(from_shape(a.shape())).c_str());
        auto m = nda::make_array<char>(to_shape<Shape>(r), 'x');
        MC_CHECK(from_shape(m.shape()) == got, "make_array resolved differently");
        MC_CHECK(from_shape(a.bounds()) == [&] { rshape q = got; for (auto& d : q) d.stride = UN; return q; }(), "bounds()");
      }
    }
  }
};

using dims1 = types<nda::dim<>, nda::dense_dim<>, nda::dim<0, nda::dynamic, 3>, nda::broadcast_dim<>, nda::dim<nda::dynamic, 3>, nda::dim<1, 2, -6>, nda::dim<nda::dynamic, 1>>;
using dims3 = types<nda::dim<>, nda::dense_dim<>, nda::dim<nda::dynamic, 2>>;
#if PART == 0
using list = concat<all_shapes<1, dims1>::type, all_shapes<2, dims1>::type>::type;
#else
using list = concat<all_shapes<3, dims3>::type, types<nda::shape_of_rank<4>, nda::dense_shape<4>, nda::shape<nda::dim<>, nda::dim<>, nda::dense_dim<>, nda::dim<>>, nda::shape_of_rank<5>,
  nda::shape<nda::dim<>, nda::dim<>, nda::dim<>, nda::dim<>, nda::dense_dim<>>>>::type;
#endif
static register_all<resolve> reg("resolve", list());

#if PART == 0
#ifndef NDARRAY_INT_INDICES
template <class Shape> struct big {
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    alphabet a{{0}, {1, 1000, 65536, 100000}, {UN, 1, 1000, 65536, 1l << 33, -(1l << 34)}};
    rshape r = pick_shape<Shape>(c, a);
    if (!c.mine()) return;
    // keep the span representable
    long double span = 1; for (auto& d : r) span *= d.extent; for (auto& d : r) if (d.stride != UN) span = std::max(span, (long double)d.extent * std::labs(d.stride) * 100000.0L * (r.size() > 2 ? 100000.0L : 1.0L));
    if (span > 4e18L) return;
    resolve<Shape>::check(c, r, false);
  }
};
static register_all<big> reg_big("big", types<nda::shape_of_rank<2>, nda::shape_of_rank<3>, nda::shape<nda::dense_dim<>, nda::dim<>>>());
#endif
MC_SUITE("documented examples") {
  int k = c.choose(2);
  if (!c.mine()) return;
  c.nontrivial();
  if (k == 0) {
    nda::shape_of_rank<2> s(nda::dim<>(0, 5), nda::dim<>(0, 10)); s.resolve();
    MC_CHECK((from_shape(s) == rshape{{0, 5, 1}, {0, 10, 5}}), "documented example 1 gives %s", str(from_shape(s)).c_str());
  } else {
    nda::shape_of_rank<3> s(nda::dim<>(0, 5), nda::dim<>(0, 10), nda::dim<>(0, 3, 1)); s.resolve();
    MC_CHECK((from_shape(s) == rshape{{0, 5, 3}, {0, 10, 15}, {0, 3, 1}}), "documented example 2 gives %s", str(from_shape(s)).c_str());
  }
}
#endif
