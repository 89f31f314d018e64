// C03: index loops visit every index exactly once in the promised order.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;

// The promised default order of a shape type: dims listed innermost first.
template <class S> struct default_order { static std::vector<int> get() { std::vector<int> o; for (int i = 0; i < (int)S::rank(); i++) o.push_back(i); return o; } };
template <index_t R, index_t C> struct default_order<nda::shape<nda::dim<nda::dynamic, R>, nda::dense_dim<nda::dynamic, C>>> { static std::vector<int> get() { return {1, 0}; } };
template <index_t Ch, index_t Xs> struct default_order<nda::shape<nda::strided_dim<Xs>, nda::dim<>, nda::dense_dim<0, Ch>>> { static std::vector<int> get() { return {2, 0, 1}; } };

struct log_t {
  std::vector<long> v; size_t rank;
  void add(const idx& i) { rank = i.size(); for (long x : i) v.push_back(x); v.push_back(LONG_MAX); if (v.size() > 4000000) mc::fail("runaway loop"); }
};
static void compare(ctx& c, const log_t& got, const log_t& want, const char* what) {
  if (got.v != want.v) {
    size_t k = 0; while (k < got.v.size() && k < want.v.size() && got.v[k] == want.v[k]) k++;
    mc::fail("%s: call sequence differs from the promised one at call %zu (%zu calls, expected %zu)", what, k / (want.rank + 1), got.v.size() / (want.rank + 1), want.v.size() / (want.rank + 1));
  }
  for (long x : got.v) c.obs(x);
}

static alphabet alpha(size_t rank, bool th) {
  alphabet a{{-2, 0, 3}, {0, 1, 2, 3, 4}, {1}};
  if (rank == 1) { a.mins = {-50, -1, 0, 2}; a.extents.clear(); for (int i = 0; i < 40; i++) a.extents.push_back(i); a.extents.push_back(100); a.extents.push_back(1000); }
  if (rank == 2) { a.extents = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33}; }
  if (rank == 3) { a.mins = {-2, 1}; if (th) a.extents = {0, 1, 2, 3, 4, 5, 8}; }
  if (rank == 4) { a.mins = {-1, 2}; a.extents = {0, 1, 2, 3}; if (!th) a.mins = {-1}; }
  if (rank == 5) { a.mins = {-1}; a.extents = {0, 1, 2, 3}; }
  if (rank >= 6) { a.mins = {-1}; a.extents = {0, 1, 2}; if (rank >= 7) a.extents = {1, 2}; }
  if (sizeof(index_t) == 8) {  // loops that pass 2^31 and 2^32
    if (rank <= 2) { a.mins.push_back((1l << 31) - 2); a.mins.push_back(-(1l << 32) - 1); }
    else if (rank <= 4) a.mins.push_back((1l << 32) - 1);
  }
  return a;
}

// The strides play no part in a loop over indices: smaller extents with every kind of stride in every dim.
static alphabet strides_alpha(size_t rank) {
  alphabet a{{-2, 3}, {0, 1, 2, 3}, {-4, 0, 1, 40, UN}};
  if (rank == 3) { a.mins = {-2}; a.extents = {1, 2, 3}; if (mc::thorough()) a.extents = {0, 1, 2, 3}; }
  if (rank == 4) { a.mins = {-1}; a.extents = {1, 3}; a.strides = {-4, 1, UN}; if (!mc::thorough()) a.extents = {2}; }
  if (rank >= 5) { a.mins = {2}; a.extents = {2}; a.strides = {-4, 1}; }
  return a;
}
template <class Shape, bool Strides> struct loops_ {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    alphabet a = Strides ? strides_alpha(R) : alpha(R, mc::thorough());
    rshape r = pick_shape<Shape>(c, a);
    if (!c.mine()) return;
    c.note("shape %s", str(r).c_str());
    Shape s = to_shape<Shape>(r);
    log_t want; want.rank = R;
    each_in_order(r, default_order<Shape>::get(), [&](const idx& i) { want.add(i); });
    if (R == 0) { want.v.assign(1, LONG_MAX); }
    log_t g1, g2; g1.rank = g2.rank = R;
    nda::for_each_index(s, [&](const typename Shape::index_type& i) { g1.add(from_tuple(i)); });
    compare(c, g1, want, "for_each_index");
    nda::for_all_indices(s, [&](auto... i) { g2.add(idx{(long)i...}); });
    compare(c, g2, want, "for_all_indices");
    log_t g3, w3; g3.rank = w3.rank = R;
    each(r, [&](const idx& i) { w3.add(i); });
    if (R == 0) w3.v.assign(1, LONG_MAX);
    nda::for_each_index_in_order(s, [&](const typename Shape::index_type& i) { g3.add(from_tuple(i)); });
    compare(c, g3, w3, "for_each_index_in_order");
    // the same loop twice (no hidden state)
    log_t g4; g4.rank = R;
    nda::for_each_index(s, [&](const typename Shape::index_type& i) { g4.add(from_tuple(i)); });
    compare(c, g4, want, "second for_each_index");
    if (!ref::empty(r)) c.nontrivial();
  }
};

// ---- explicit loop orders
constexpr size_t fact(size_t n) { return n <= 1 ? 1 : n * fact(n - 1); }
// i-th element of the p-th permutation of [0,n)
constexpr size_t perm_at(size_t n, size_t p, size_t i) {
  bool used[8] = {};
  size_t r = 0;
  for (size_t k = 0; k <= i; k++) {
    size_t f = fact(n - 1 - k), q = p / f; p %= f;
    for (size_t v = 0; v < n; v++) if (!used[v]) { if (q == 0) { used[v] = true; r = v; break; } q--; }
  }
  return r;
}
template <size_t N, size_t P, class S> struct perm_seq;
template <size_t N, size_t P, size_t... I> struct perm_seq<N, P, std::index_sequence<I...>> { using type = std::index_sequence<perm_at(N, P, I)...>; };

template <class Shape, size_t... O> void ordered_one(ctx& c, const rshape& r, const Shape& s, std::index_sequence<O...>) {
  constexpr size_t N = sizeof...(O);
  std::vector<int> order{(int)O...};
  // The loops of the listed dims only, in ascending order of the dims.
  std::vector<int> listed(order); std::sort(listed.begin(), listed.end());
  rshape q; for (int d : listed) q.push_back(r[d]);
  for (int& o : order) o = int(std::lower_bound(listed.begin(), listed.end(), o) - listed.begin());
  log_t want, g1, g2; want.rank = g1.rank = g2.rank = N;
  each_in_order(q, order, [&](const idx& i) { want.add(i); });
  nda::for_each_index<O...>(s, [&](const nda::index_of_rank<N>& i) { g1.add(from_tuple(i)); });
  compare(c, g1, want, "for_each_index<LoopOrder...>");
  nda::for_all_indices<O...>(s, [&](decltype((index_t)O)... i) { g2.add(idx{(long)i...}); });
  compare(c, g2, want, "for_all_indices<LoopOrder...>");
}
template <class Shape, size_t N, size_t... P> void ordered_all(ctx& c, const rshape& r, const Shape& s, std::index_sequence<P...>) {
  int d[] = {(ordered_one(c, r, s, typename perm_seq<N, P, std::make_index_sequence<N>>::type()), 0)...};
  (void)d;
}
// every sequence of distinct dims, not only the leading ones
template <class Shape> void subsets_of(ctx&, const rshape&, const Shape&, std::integral_constant<size_t, 0>) {}
template <class Shape> void subsets_of(ctx&, const rshape&, const Shape&, std::integral_constant<size_t, 1>) {}
template <class Shape> void subsets_of(ctx& c, const rshape& r, const Shape& s, std::integral_constant<size_t, 2>) {
  ordered_one(c, r, s, std::index_sequence<1>());
}
template <class Shape> void subsets_of(ctx& c, const rshape& r, const Shape& s, std::integral_constant<size_t, 3>) {
  ordered_one(c, r, s, std::index_sequence<0>()); ordered_one(c, r, s, std::index_sequence<1>()); ordered_one(c, r, s, std::index_sequence<2>());
  ordered_one(c, r, s, std::index_sequence<0, 2>()); ordered_one(c, r, s, std::index_sequence<2, 0>());
  ordered_one(c, r, s, std::index_sequence<1, 2>()); ordered_one(c, r, s, std::index_sequence<2, 1>());
}
template <class Shape> void subsets_of(ctx& c, const rshape& r, const Shape& s, std::integral_constant<size_t, 4>) {
  ordered_one(c, r, s, std::index_sequence<3>()); ordered_one(c, r, s, std::index_sequence<2>());
  ordered_one(c, r, s, std::index_sequence<0, 3>()); ordered_one(c, r, s, std::index_sequence<3, 0>()); ordered_one(c, r, s, std::index_sequence<1, 3>()); ordered_one(c, r, s, std::index_sequence<3, 1>());
  ordered_one(c, r, s, std::index_sequence<2, 3>()); ordered_one(c, r, s, std::index_sequence<3, 2>()); ordered_one(c, r, s, std::index_sequence<2, 0>());
  ordered_one(c, r, s, std::index_sequence<3, 0, 2>()); ordered_one(c, r, s, std::index_sequence<1, 3, 2>()); ordered_one(c, r, s, std::index_sequence<3, 1, 0>()); ordered_one(c, r, s, std::index_sequence<0, 3, 1>());
  ordered_one(c, r, s, std::index_sequence<2, 3, 0>()); ordered_one(c, r, s, std::index_sequence<1, 2, 3>());
}
template <class Shape, bool Strides> struct orders_ {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    alphabet a{{-2, 1}, {0, 1, 2, 3, 4}, {1}};
    if (R == 4) { a.mins = {-1}; a.extents = {0, 1, 2, 3}; }
    if (R == 2) a.extents = {0, 1, 2, 3, 5, 8, 17};
    if (R <= 3 && sizeof(index_t) == 8) a.mins.push_back((1l << 32) - 1);
    if (Strides) a = strides_alpha(R);
    rshape r = pick_shape<Shape>(c, a);
    if (!c.mine()) return;
    c.note("shape %s, all loop orders", str(r).c_str());
    Shape s = to_shape<Shape>(r);
    ordered_all<Shape, R>(c, r, s, std::make_index_sequence<fact(R)>());
    // a loop order over the leading dims only
    if (R >= 2) ordered_all<Shape, (R >= 2 ? R - 1 : R)>(c, r, s, std::make_index_sequence<fact(R >= 2 ? R - 1 : R)>());
    subsets_of(c, r, s, std::integral_constant<size_t, R>());
    if (!ref::empty(r)) c.nontrivial();
  }
};

template <class S> using loops = loops_<S, false>;
template <class S> using strided_loops = loops_<S, true>;
template <class S> using orders = orders_<S, false>;
template <class S> using strided_orders = orders_<S, true>;
using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape;
using dims3 = types<dim<>, dim<-1, 3>, dim<nda::dynamic, 2, 7>>;
#if PART == 0
static register_all<loops> reg("loop", typename concat<all_shapes<0, dims3>::type, all_shapes<1, dims3>::type, all_shapes<2, dims3>::type, all_shapes<3, dims3>::type,
  types<shape_of_rank<4>, shape_of_rank<5>, shape_of_rank<6>, shape_of_rank<7>, dense_shape<5>, nda::shape<dim<>, dim<1, 2>, dim<>, dim<nda::dynamic, 3>>, nda::shape<dim<0, 2>, dim<>, dim<>, dim<-3, 2>, dense_dim<>>>>::type());
static register_all<strided_loops> regs("strides loop", types<nda::shape<>, shape_of_rank<1>, shape_of_rank<2>, shape_of_rank<3>, shape_of_rank<4>, shape_of_rank<5>, shape_of_rank<6>, nda::shape<dim<>, dim<-1, 3>>, nda::shape<dense_dim<>, dim<>, dim<nda::dynamic, 2>>>());
#elif PART == 1
static register_all<strided_loops> regs("strides loop special", types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<nda::dynamic, 4>, nda::matrix_shape<2, 3>, nda::vector_shape<>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>, nda::planar_image_shape, nda::image_shape>());
static register_all<strided_orders> regs2("strides order special", types<nda::matrix_shape<>, nda::matrix_shape<2, 3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>>());
static register_all<loops> reg("loop special", types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<nda::dynamic, 4>, nda::matrix_shape<2, 3>, nda::matrix_shape<1, 1>, nda::vector_shape<>, nda::vector_shape<5>,
  nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<4>, nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<nda::dynamic, 4>, nda::chunky_image_shape<1>, nda::planar_image_shape, nda::image_shape,
  nda::fixed_dense_shape<3, 2, 4>, nda::fixed_dense_shape<5>, nda::fixed_dense_shape<1, 1, 2>>());
static register_all<orders> reg2("order special", types<nda::matrix_shape<>, nda::matrix_shape<2, 3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::fixed_dense_shape<3, 2, 4>>());
#elif PART == 2
static register_all<strided_orders> regs2("strides order", types<shape_of_rank<1>, shape_of_rank<2>, shape_of_rank<3>, nda::shape<dim<-1, 3>, dim<>>>());
static register_all<orders> reg2("order", types<shape_of_rank<1>, shape_of_rank<2>, shape_of_rank<3>, dense_shape<2>, nda::shape<dim<-1, 3>, dim<>>, nda::shape<dim<>, dim<nda::dynamic, 2>, dim<2>>>());
#else
static register_all<orders> reg2("order", types<shape_of_rank<4>, nda::shape<dim<>, dim<1, 2>, dense_dim<>, dim<nda::dynamic, 3>>>());
#endif
