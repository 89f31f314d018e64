// C16: reshape preserves exactly the common region.
#include "ref.h"
#include "world.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using world::elem;

static alphabet alpha(size_t R, bool th) {
  alphabet a{{-2, 0, 1, 3}, {0, 1, 2, 3, 5}, {UN, 1, 2, -1, -3}};
  if (R == 2) { a = alphabet{{0, 1}, {0, 2, 3}, {UN, 1, -2, 6}}; if (th) a = alphabet{{0, 1, -2}, {0, 1, 2, 3}, {UN, 1, -2, 4}}; }
  if (R == 3) { a = alphabet{{0}, {1, 2}, {UN}}; if (th) a = alphabet{{0, 1}, {1, 2}, {UN, 8}}; }
  if (R >= 4) { a = alphabet{{1}, {1, 3}, {UN}}; if (th) a.extents = {0, 1, 2}; }
  return a;
}
template <class F> static void each0(const rshape& s, F&& f) { if (s.empty()) f(idx()); else each(s, f); }

template <class S> struct reshapes {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    alphabet al = alpha(R, mc::thorough());
    rshape ro = pick_shape<S>(c, al);
    if (!c.mine()) return;
    alphabet am = al; if (R >= 3) am.mins.push_back(1);
    rshape rn;
    if (!large_mode()) rn = pick_shape<S>(c, am);
    else if (large_mode() >= 4) {  // every dim moves or one of them does; grows, shrinks, or both; in another order in memory
      auto st = statics_of<S>(); rn = ro; int by = c.choose(5);
      for (size_t k = 0; k < R; k++) {
        long dm = by == 1 ? 1 : by == 2 && k == 2 ? -1 : by == 4 ? (long)(k % 3) - 1 : 0, de = by == 3 && k == 1 ? 1 : by == 4 ? (long)((k + 1) % 3) - 1 : 0;
        if (st[k].min == (long)nda::dynamic) rn[k].min += dm;
        if (st[k].extent == (long)nda::dynamic) rn[k].extent = std::max(0l, rn[k].extent + de);
      }
      ranked_layout(c, rn, st, true, true);
    }
    else {  // the large dim grows, shrinks or moves a little
      auto st = statics_of<S>(); rn = ro; int by = c.choose(6);
      static const long dm[] = {0, 1, -3, 0, 0, 2}, de[] = {0, 0, 0, 1, -1, -5};
      for (size_t k = 0; k < R; k++) if (ro[k].extent >= 4) { if (st[k].min == (long)nda::dynamic) rn[k].min += dm[by]; if (st[k].extent == (long)nda::dynamic) rn[k].extent = std::max(0l, rn[k].extent + de[by]); }
      set_layout(rn, st, c.choose(6));
    }
    S so = to_shape<S>(ro), sn = to_shape<S>(rn), to = so, tn = sn; to.resolve(); tn.resolve();
    rshape qo = from_shape(to), qn = from_shape(tn);
    if ((!ref::empty(qo) && !injective(qo)) || (!ref::empty(qn) && !injective(qn))) c.discard();
    c.note("reshape %s to %s", str(qo).c_str(), str(qn).c_str());
    bool any = one<world::alloc<elem, 0>>(c, so, sn, qo, qn, "stateful", world::alloc<elem, 0>(1));
    one<world::alloc<elem, world::STATELESS | world::CMA>>(c, so, sn, qo, qn, "stateless", {});
    one<world::alloc<elem, world::CMA | world::CCA>>(c, so, sn, qo, qn, "propagating", world::alloc<elem, world::CMA | world::CCA>(2));
    one<nda::auto_allocator<elem, 4, alignof(elem), world::alloc<elem, world::STATELESS>>>(c, so, sn, qo, qn, "in-object", {});
    if (any) c.nontrivial();
    for (auto& d : qo) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } for (auto& d : qn) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
  template <class A> static bool one(ctx& c, const S& so, const S& sn, const rshape& qo, const rshape& qn, const char* what, const A& al) {
    world::reset(); bool any = false;
    {
      nda::array<elem, S, A> a(so, al);
      const auto& ca = a;
      int k = 100;
      std::map<idx, int> val;
      each0(qo, [&](const idx& i) { a[to_tuple<R>(i)] = elem(k); val[i] = k++; });
      world::counts() = world::counts_t();
      a.reshape(sn);
      auto n = world::counts();
      rshape got = from_shape(a.shape());
      if (!(got == qn)) mc::fail("%s: the shape is %s, expected %s", what, str(got).c_str(), str(qn).c_str());
      each0(qn, [&](const idx& i) {
        auto it = val.find(i);
        int want = it == val.end() ? 0 : it->second, v = world::value_of(ca[to_tuple<R>(i)]);
        if (it != val.end()) any = true;
        if (v != want) mc::fail("%s: element %s is %d, expected %d (%s)", what, str(i).c_str(), v, want, it == val.end() ? "new" : "kept");
      });
      if (n.copy + n.cassign) mc::fail("%s: %ld elements were copied", what, n.copy + n.cassign);
      long live = 0; each0(qn, [&](const idx&) { live++; });
      MC_CHECK(world::live() == live, "%s: %ld elements alive, expected %ld", what, world::live(), live);
      c.check_soft();
      if (qn == qo) MC_CHECK(n.constructs() + n.destroy + n.massign == 0, "%s: reshape to the same shape touches elements", what);
      // the reshaped array is a normal array: it can be written, reshaped back, and keeps what both have
      each0(qn, [&](const idx& i) { a[to_tuple<R>(i)] = elem(7); });
      a.reshape(so);
      MC_CHECK(from_shape(a.shape()) == qo, "%s: reshape back: shape", what);
      each0(qo, [&](const idx& i) {
        int want = (qn == qo || R == 0 || contains(qn, i)) ? 7 : 0, v = world::value_of(ca[to_tuple<R>(i)]);
        if (v != want) mc::fail("%s: reshape back: element %s is %d, expected %d", what, str(i).c_str(), v, want);
      });
    }
    world::all_gone(); c.check_soft();
    return any;
  }
};
using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
#ifdef RANKED
static register_all<ranked_<reshapes, true>::body> rreg("ranked reshape", types<shape_of_rank<4>, dense_shape<4>, shape_of_rank<5>, dense_shape<6>>());
#else
static register_all<large_<reshapes, 2>::body> lreg("large reshape", part<types<nda::shape<dim<>>, nda::shape<dense_dim<>>, shape_of_rank<2>, nda::matrix_shape<>, nda::chunky_image_shape<>, nda::fixed_dense_shape<40>>>());
static register_all<reshapes> reg("reshape", part<types<nda::shape<>, nda::shape<dim<>>, nda::shape<dense_dim<>>, nda::shape<dim<1>>, nda::shape<dim<dynamic, 3>>, nda::shape<dim<0, 2>>, nda::shape<nda::strided_dim<-2>>,
  shape_of_rank<2>, dense_shape<2>, nda::shape<dim<>, dim<0, 2>>, nda::shape<dim<dynamic, 2, 1>, dim<>>, nda::matrix_shape<>, nda::matrix_shape<dynamic, 3>, nda::fixed_dense_shape<2, 2>,
  shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<2>, nda::planar_image_shape, shape_of_rank<4>>>());
#endif
