// C22, C23: layouts whose extents, strides and spans pass 2^31 and 2^32. No memory; the reference is exact arithmetic on 128 bits.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::dynamic; using nda::shape_of_rank; using nda::dense_shape;
constexpr long G = 1l << 32, H = 1l << 31, DYN = (long)dynamic;
typedef __int128 big;
static big count(const rshape& r, bool broadcast) { big n = 1; for (auto& d : r) if (broadcast || d.stride != 0) n *= d.extent; return n; }
static void span_(const rshape& r, big& lo, big& hi) { lo = hi = 0; for (auto& d : r) { big e = (big)(d.extent - 1) * d.stride; if (e < 0) lo += e; else hi += e; } }
static bool fits(big x) { return x < ((big)1 << 61) && x > -((big)1 << 61); }
// The span and the number of elements must be representable.
static bool sane(const rshape& r) { big lo, hi; span_(r, lo, hi); return fits(lo) && fits(hi) && fits(hi - lo) && fits(count(r, true)); }
static bool apart(const rshape& r) {  // as nested(), without overflow
  std::vector<rd> d; for (auto& x : r) if (x.extent > 1 && x.stride != 0) d.push_back(x);
  for (size_t a = 0; a < d.size(); a++) for (size_t b = 0; b < a; b++) { big sa = d[a].stride < 0 ? -(big)d[a].stride : d[a].stride, sb = d[b].stride < 0 ? -(big)d[b].stride : d[b].stride; if (!(sa * d[a].extent <= sb || sb * d[b].extent <= sa)) return false; }
  return true;
}
template <class S> struct body {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static std::vector<long> extents() {
    if (R <= 2) return {1, 2, 3, 65536, 70000, H - 1, H, H + 5, G - 1, G, G + 3, 5 * G};
    if (R == 3) return {1, 2, 65536, 70000, G + 3};
    return {1, 3, 40000, 70000};
  }
#if PROP == 22
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alphabet{R <= 2 ? std::vector<long>{0, -G - 1} : std::vector<long>{H + 3}, extents(), {UN}});
    if (!c.mine()) return;
    auto st = statics_of<S>();
    { rshape t = r; for (auto& d : t) if (d.stride == UN) d.stride = 1; if (!fits(count(t, true) * 8)) return c.skip(); big f = count(t, true); for (auto& d : t) if (d.stride != 0) f *= d.stride < 0 ? -d.stride : d.stride; if (!fits(f * 8)) return c.skip(); }
    c.note("make_compact(%s)", str(r).c_str());
    const auto m = nda::make_compact(to_shape<S>(r));
    rshape q = from_shape(m);
    bool unit = true; int ones = 0;
    for (size_t d = 0; d < R; d++) {
      MC_CHECK(q[d].min == r[d].min && q[d].extent == r[d].extent, "dimension %zu: the indices changed: %s", d, str(q).c_str());
      MC_CHECK(q[d].stride != UN && (st[d].stride == DYN || q[d].stride == st[d].stride), "dimension %zu: stride %ld", d, q[d].stride);
      if (st[d].stride != DYN && st[d].stride != 0 && st[d].stride != 1) unit = false;
      if (st[d].stride == 1) ones++;
    }
    rshape own; for (auto& d : q) if (d.stride != 0) own.push_back(d);
    MC_CHECK(apart(own), "%s overlaps", str(q).c_str());
    big lo, hi; span_(own, lo, hi);
    if (unit) MC_CHECK(hi - lo + 1 == count(own, true), "%s has padding", str(q).c_str());
    if (unit && ones == 0) { big n = 1; for (size_t d = 0; d < R; d++) if (st[d].stride != 0) { if (r[d].extent > 1) MC_CHECK(q[d].stride == n, "dimension %zu of %s is not packed in order", d, str(q).c_str()); n *= r[d].extent; } }
    if (unit && own.size() == R) MC_CHECK(m.is_compact() && m.is_one_to_one() && (big)m.size() == count(q, true) && (big)m.flat_extent() == count(q, true), "%s: size or flat_extent", str(q).c_str());
    for (auto& d : q) { c.obs(d.extent); c.obs(d.stride); } c.nontrivial();
  }
#else
  static void run(ctx& c) {
    alphabet a{{G + 1}, extents(), {0, 1, -1, 2, 65536, -H, G, G + 3, -5 * G, 1l << 40}};
    if (R == 2) a.extents = {1, 3, 65536, 70000, H, G - 1, G + 3};
    if (R == 3) { a.extents = {1, 65536, 70000, G + 3}; a.strides = {0, 1, -2, 65536, 70000, -G, 5 * G, 70000l * 70000}; }
    if (R >= 4) { a.extents = {1, 40000}; a.strides = {1, 40000, -1600000000, 64000000000000}; }
    rshape r = pick_shape<S>(c, a);
    if (!c.mine()) return;
    if (!sane(r)) return c.skip();
    c.note("shape %s", str(r).c_str());
    const S s = to_shape<S>(r);
    big lo, hi; span_(r, lo, hi);
    MC_CHECK((big)s.flat_min() == lo && (big)s.flat_max() == hi && (big)s.flat_extent() == hi - lo + 1, "the flat interval is [%ld,%ld] (%ld)", (long)s.flat_min(), (long)s.flat_max(), (long)s.flat_extent());
    MC_CHECK((big)s.size() == count(r, true), "size is %zu", s.size());
    if (apart(r)) {
      bool one = true; for (auto& d : r) if (d.stride == 0 && d.extent > 1) one = false;
      const bool compact = hi - lo + 1 == count(r, false);
      if (!fits((hi - lo + 1) * (count(r, true) / count(r, false)))) return c.skip();
      MC_CHECK(s.is_compact() == compact, "is_compact() is %d", (int)s.is_compact());
      MC_CHECK(s.is_one_to_one() == one, "is_one_to_one() is %d", (int)s.is_one_to_one());
      c.obs(compact); c.obs(one); c.nontrivial();
    }
    // containment in itself and in far neighbours
    for (long o : {0l, 1l, -1l, G, -G, H}) MC_CHECK(s.is_subset_of(s, (index_t)o) == (o == 0), "is_subset_of itself, offset %ld", o);
    const rshape w1{rd{0, 1 + (long)(hi - lo), 1}};
    const auto whole = to_shape<shape_of_rank<1>>(w1);
    for (long o : {(long)lo, (long)lo - 1, (long)lo + 1, (long)lo + G, (long)lo - G}) MC_CHECK(s.is_subset_of(whole, (index_t)o) == (o == lo), "is_subset_of its span, offset %ld", o);
    c.obs((long)lo); c.obs((long)hi);
  }
#endif
};
static register_all<body> reg("huge", types<nda::shape<dim<>>, dense_shape<1>, nda::shape<dim<0>>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::shape<dim<>, dim<dynamic, 70000>>, nda::shape<dim<>, nda::broadcast_dim<>>, nda::fixed_dense_shape<70000, 70000>,
  nda::shape<dim<dynamic, dynamic, -1>, dim<>>, shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::fixed_dense_shape<70000, 3, 70000>, shape_of_rank<4>, dense_shape<4>>());
