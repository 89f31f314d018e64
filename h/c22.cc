// C22: make_compact keeps the indices and the constant strides, and removes padding.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dynamic; using nda::shape;

template <class S, size_t... I> static rshape statics_(std::index_sequence<I...>) { return rshape{rd{(long)dim_of<S, I>::Min, (long)dim_of<S, I>::Extent, (long)dim_of<S, I>::Stride}...}; }
template <class S> static rshape statics() { return statics_<S>(std::make_index_sequence<S::rank()>()); }
constexpr long DYN = (long)dynamic;

static rshape own(const rshape& r) { rshape t; for (auto& d : r) if (d.stride != 0) t.push_back(d); return t; }  // the dims that are not broadcast

template <class S, bool Copy> struct compact_ {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void check(ctx& c, const rshape& r) {
    const rshape st = statics<S>();
    S s = to_shape<S>(r);
    auto m = nda::make_compact(s);
    using M = decltype(m);
    static_assert(M::rank() == R, "");
    const rshape mt = statics<M>(), q = from_shape(m);
    c.note("make_compact(%s) of type %s is %s of type %s", str(r).c_str(), shape_name<S>().c_str(), str(q).c_str(), shape_name<M>().c_str());
    bool unit = true, constant = true, has_dyn = false;  // no constant stride but 0 and 1; constant extents
    int ones = 0;
    for (size_t d = 0; d < R; d++) {
      c.obs(q[d].stride); c.obs(q[d].extent); c.obs(mt[d].stride);
      MC_CHECK(q[d].min == r[d].min && q[d].extent == r[d].extent, "dimension %zu: the indices changed", d);
      MC_CHECK(q[d].stride != UN, "dimension %zu is unresolved", d);
      if (st[d].stride != DYN) MC_CHECK(q[d].stride == st[d].stride, "dimension %zu: the constant stride changed", d);
      MC_CHECK(mt[d].min == st[d].min && mt[d].extent == st[d].extent && (st[d].stride == DYN || mt[d].stride == st[d].stride), "dimension %zu: the constants of the type changed", d);
      MC_CHECK(mt[d].stride == DYN || mt[d].stride == q[d].stride, "dimension %zu: compile-time and run-time strides differ", d);
      if (st[d].stride != DYN && st[d].stride != 0 && st[d].stride != 1) unit = false;
      if (st[d].extent == DYN) constant = false;
      if (st[d].stride == DYN) has_dyn = true;
      if (st[d].stride == 1) ones++;
    }
    if (!empty(r)) {
      rshape fixed; for (size_t d = 0; d < R; d++) if (st[d].stride != DYN && st[d].stride != 0 && r[d].extent > 1) fixed.push_back(rd{r[d].min, r[d].extent, st[d].stride});
      if (nested(fixed)) {
        rshape o = own(q);
        MC_CHECK(injective(o), "distinct indices share an offset");
        if (unit) MC_CHECK(flat_span(o).extent() == size(o), "there is padding");
        if (unit && st.size() && ones == 0) {  // no constant stride but broadcast: packed in order
          long n = 1; for (size_t d = 0; d < R; d++) if (st[d].stride != 0) { if (r[d].extent > 1) MC_CHECK(q[d].stride == n, "dimension %zu is not packed in order", d); n *= r[d].extent; }
        }
      }
      if (has_dyn) c.nontrivial();
    }
    // constant shapes
    bool zero_free = true; for (auto& d : st) zero_free = zero_free && d.stride != 0;
    if (constant && unit && zero_free && ones <= 1) for (size_t d = 0; d < R; d++) MC_CHECK(mt[d].stride != DYN, "dimension %zu of a constant shape has no constant stride", d);
    // compacting twice is compacting once
    auto m2 = nda::make_compact(m); rshape q2 = from_shape(m2);
    for (size_t d = 0; d < R; d++) MC_CHECK(q2[d].min == q[d].min && q2[d].extent == q[d].extent && (q2[d].stride == q[d].stride || st[d].stride == DYN), "compacting twice gives %s", str(q2).c_str());
    copied(s, m, r, q, std::integral_constant<bool, Copy>());
  }
  template <class M> static void copied(const S&, const M&, const rshape&, const rshape&, std::false_type) {}
  template <class M> static void copied(const S& s, const M&, const rshape& r, const rshape& q, std::true_type) {
    // make_compact_copy has that shape and the elements of the source
    if (!injective(own(q)) || own(q).size() != R) return;
    rshape e = r; bool res = true; for (auto& d : e) res = res && d.stride != UN; if (!res) return;
    if (empty(r)) { auto cp = nda::make_compact_copy(nda::array_ref<int, S>(nullptr, s)); MC_CHECK(from_shape(cp.shape()) == q, "make_compact_copy: shape %s", str(from_shape(cp.shape())).c_str()); return; }
    span sp = flat_span(r); std::vector<int> mem(sp.extent()); for (size_t k = 0; k < mem.size(); k++) mem[k] = 100 + (int)k;
    auto cp = nda::make_compact_copy(nda::array_ref<int, S>(mem.data() - sp.lo, s));
    static_assert(std::is_same<typename decltype(cp)::shape_type, M>::value, "");
    MC_CHECK(from_shape(cp.shape()) == q, "make_compact_copy: shape %s", str(from_shape(cp.shape())).c_str());
    for_all(r, [&](const idx& i) { MC_CHECK(cp[to_tuple<R>(i)] == mem[offset(r, i) - sp.lo], "make_compact_copy: element %s", str(i).c_str()); });
  }
  template <class F> static void for_all(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
  static void run(ctx& c) {
    const bool th = mc::thorough();
    alphabet a;
    if (R <= 1) a = {{0, -2, 5}, {0, 1, 2, 3, 4, 7}, {UN, 0, 1, -1, 2, 5, -7, 20}};
    else if (R == 2) a = {{0, -2}, {0, 1, 2, 3, 4}, {UN, 1, -3, 8}};
    else if (R == 3) a = {{1}, {0, 1, 2, 3}, {UN, 7}};
    else a = {{0}, {0, 1, 2, 3}, {UN}};
    if (th && R == 2) a = {{0, -2, 5}, {0, 1, 2, 3, 4, 5, 8}, {UN, 0, 1, -1, -3, 8}};
    if (th && R == 3) a = {{1, -1}, {0, 1, 2, 3, 5}, {UN, 1, 7}};
    if (th && R == 4) a = {{0}, {0, 1, 2, 3, 4}, {UN, -5}};
    rshape r = pick_shape<S>(c, a);
    if (!c.mine()) return;
    check(c, r);
  }
};
using d1 = types<dim<>, dim<0>, dim<3, dynamic>, dim<dynamic, 0>, dim<dynamic, 1>, dim<dynamic, 3>, dim<-1, 2>, dim<dynamic, dynamic, 0>, dim<dynamic, dynamic, 1>, dim<dynamic, dynamic, -1>, dim<dynamic, dynamic, 2>, dim<dynamic, dynamic, 6>, dim<dynamic, 1, 1>, dim<dynamic, 3, 1>, dim<0, 2, 0>, dim<2, 2, 3>, dim<0, 2, -3>>;
using d3 = types<dim<>, dim<dynamic, 2>, dim<0, dynamic, 1>, dim<0, 3, 1>, dim<0, 1, 1>, dim<0, 1>, dim<dynamic, dynamic, 0>, dim<dynamic, dynamic, 4>>;
using d3s = types<dim<>, dim<dynamic, 2, 1>, dim<dynamic, dynamic, 2>, dim<dynamic, 2, 2>, dim<dynamic, dynamic, -2>>;  // constant strides next to each other
using d4 = types<dim<>, dim<0, 2>, dim<dynamic, dynamic, 1>, dim<0, 3, 1>>;
using list = concat<all_shapes<0, d1>::type, all_shapes<1, d1>::type, all_shapes<2, d1>::type, all_shapes<3, d3>::type, all_shapes<4, d4>::type,
  types<nda::shape_of_rank<5>, nda::dense_shape<5>, nda::fixed_dense_shape<2, 1, 3, 2, 2>>>::type;
using nda::shape_of_rank;
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, nda::dense_dim<>, dim<>>; using mixed5 = nda::shape<dim<>, dim<>, dim<dynamic, dynamic, -1>, dim<-1>, dim<>>;
template <class S> using compact = compact_<S, false>;
template <class S> using compact_copy = compact_<S, true>;
#ifdef RANKED
static register_all<ranked_<compact>::body> rreg("ranked compact", types<shape_of_rank<4>, nda::dense_shape<4>, mixed4, shape_of_rank<5>, mixed5, nda::shape<dim<>, dim<>, dim<dynamic, dynamic, 0>, dim<>, dim<>>, nda::dense_shape<6>, shape_of_rank<7>, shape_of_rank<8>>());
static register_all<ranked_<compact_copy, true>::body> rrego("ranked compact copy few", types<shape_of_rank<4>, mixed4, mixed5, shape_of_rank<6>>());
#else
static register_all<compact> reg("compact", part<list>());
static register_all<compact> reg_strides("compact strides", part<all_shapes<3, d3s>::type>());
static register_all<compact_copy> reg_copy("compact copy", part<typename concat<all_shapes<1, d1>::type, all_shapes<2, types<dim<>, dim<dynamic, 2>, dim<dynamic, dynamic, 1>, dim<dynamic, dynamic, -1>>>::type,
  types<nda::matrix_shape<>, nda::matrix_shape<3, 2>, nda::matrix_shape<dynamic, 3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>, nda::planar_image_shape, nda::image_shape, nda::shape_of_rank<4>>>::type>());
#endif

// fixed_dense_shape: constant and packed
#if PART == 0 && !defined(RANKED)
template <index_t... E> static void fixed(const std::vector<long>& e) {
  using S = nda::fixed_dense_shape<E...>;
  rshape st = statics<S>(), q = from_shape(S()); long n = 1;
  for (size_t d = 0; d < e.size(); d++) {
    MC_CHECK((st[d] == rd{0, e[d], n}) && q[d] == st[d], "fixed_dense_shape: dimension %zu is %s of type %s", d, str(q).c_str(), shape_name<S>().c_str());
    n *= e[d];
  }
  MC_CHECK(S().size() == (size_t)n && S().is_compact(), "fixed_dense_shape: size");
}
MC_SUITE("fixed_dense_shape") {
  int k = c.choose(8); if (!c.mine()) return; c.nontrivial();
  switch (k) {
  case 0: fixed<>({}); break; case 1: fixed<4>({4}); break; case 2: fixed<1, 5>({1, 5}); break; case 3: fixed<3, 2>({3, 2}); break;
  case 4: fixed<3, 1, 2>({3, 1, 2}); break; case 5: fixed<2, 3, 4, 5>({2, 3, 4, 5}); break; case 6: fixed<7, 1, 1, 2, 3, 2>({7, 1, 1, 2, 3, 2}); break; default: fixed<2, 2, 2, 2, 2, 2, 2, 2>({2, 2, 2, 2, 2, 2, 2, 2});
  }
}
#endif
