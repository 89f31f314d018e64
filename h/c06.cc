// C06: fill, generate and transform write every element exactly once, in loop order.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;

template <class S> struct default_order { static std::vector<int> get() { std::vector<int> o; for (int i = 0; i < (int)S::rank(); i++) o.push_back(i); return o; } };
template <index_t R, index_t C> struct default_order<nda::shape<nda::dim<nda::dynamic, R>, nda::dense_dim<nda::dynamic, C>>> { static std::vector<int> get() { return {1, 0}; } };
template <index_t Ch, index_t Xs> struct default_order<nda::shape<nda::strided_dim<Xs>, nda::dim<>, nda::dense_dim<0, Ch>>> { static std::vector<int> get() { return {2, 0, 1}; } };

static alphabet alpha(size_t rank) {
  bool th = mc::thorough();
  alphabet a{{-1, 2}, {0, 1, 2, 3, 5}, {-4, -1, 1, 2, 5}};
  if (rank == 2) { a.extents = {0, 1, 2, 3, 4}; a.strides = {-6, -3, -1, 1, 2, 3, 4, 5, 8}; if (!th) a.mins = {2}; }
  if (rank == 3) { a.mins = {1}; a.extents = {0, 1, 2, 3}; a.strides = {-3, 1, 2, 3, 6, 9}; if (!th) { a.extents = {0, 1, 2, 3}; a.strides = {-4, 1, 2, 3, 6}; } }
  if (rank >= 4) { a.mins = {-1}; a.extents = {1, 2}; a.strides = {1, 2, 4, 8}; }
  if (rank >= 5) a.strides = {1, 2, 4};
  return a;
}
// A value whose assignments are counted.
struct cell {
  int v = 0, writes = 0;
  cell(int x = 0) : v(x) {}
  cell(const cell&) = default;
  cell& operator=(const cell& o) { v = o.v; writes++; return *this; }
  cell& operator=(int x) { v = x; writes++; return *this; }
  bool operator==(const cell& o) const { return v == o.v && writes == o.writes; }
};
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
template <class F> static void each0_order(const rshape& r, const std::vector<int>& o, F&& f) { if (r.empty()) f(idx()); else each_in_order(r, o, f); }

template <class Shape> struct writes {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static guarded<cell> buffer(const rshape& r) {
    span f = r.empty() || ref::empty(r) ? span{0, 0} : flat_span(r);
    guarded<cell> b(f.lo, f.hi, 7, [](long i) { return cell((int)(-100 - i)); });
    for (auto& x : b.mem) x.writes = 0;
    for (auto& x : b.want) x.writes = 0;
    return b;
  }
  static void run(ctx& c) {
    rshape r = pick_shape<Shape>(c, alpha(R));
    if (!injective(r)) return c.skip();
    if (!c.mine()) return;
    c.note("shape %s", str(r).c_str());
    Shape s = to_shape<Shape>(r);
    {
      auto b = buffer(r); nda::array_ref<cell, Shape> v(b.base(), s);
      cell x(42);
      each0(r, [&](const idx& i) { auto& m = b.model(offset(r, i)); m.v = 42; m.writes = 1; c.obs(offset(r, i)); });
      nda::fill(v, x);
      b.check("fill");
    }
    {
      auto b = buffer(r); nda::array_ref<cell, Shape> v(b.base(), s);
      int n = 0; long total = 0; each0(r, [&](const idx&) { total++; });
      auto g = [&n]() { return cell(1000 + n++); };
      nda::generate(v, g);
      MC_CHECK(n == total, "generate: the generator was called %d times for %ld elements", n, total);
      // the values are 1000.. in some order, each written once
      std::vector<int> seen;
      each0(r, [&](const idx& i) { auto& x = b.mem[b.origin + offset(r, i)]; MC_CHECK(x.writes == 1, "generate: element%s written %d times", str(i).c_str(), x.writes); seen.push_back(x.v); b.model(offset(r, i)) = cell(x); b.model(offset(r, i)).v = x.v; b.model(offset(r, i)).writes = 1; });
      b.check("generate");
      std::sort(seen.begin(), seen.end());
      for (long k = 0; k < total; k++) MC_CHECK(seen[k] == 1000 + k, "generate: result %ld lost or duplicated", k);
      // same order as the value loop
      auto b2 = buffer(r); nda::array_ref<cell, Shape> v2(b2.base(), s);
      int k = 0; v2.for_each_value([&](cell& x) { x = cell(1000 + k++); });
      MC_CHECK(b2.mem == b.mem, "generate: order differs from for_each_value");
    }
    std::vector<idx> order; each0_order(r, default_order<Shape>::get(), [&](const idx& i) { order.push_back(i); });
    for (int form = 0; form < 2; form++) {
      auto b = buffer(r); nda::array_ref<cell, Shape> v(b.base(), s);
      std::vector<idx> calls;
      if (form == 0) nda::transform_index(v, [&](const typename Shape::index_type& i) { calls.push_back(from_tuple(i)); if (calls.size() > 50000) mc::fail("runaway transform"); return cell(7 * (int)calls.size()); });
      else nda::transform_indices(v, [&](auto... i) { calls.push_back(idx{(long)i...}); if (calls.size() > 50000) mc::fail("runaway transform"); return cell(7 * (int)calls.size()); });
      const char* what = form ? "transform_indices" : "transform_index";
      MC_CHECK(calls == order, "%s: calls differ from the promised index order (%zu calls, expected %zu)", what, calls.size(), order.size());
      for (size_t k = 0; k < order.size(); k++) { auto& m = b.model(offset(r, order[k])); m.v = 7 * (int)(k + 1); m.writes = 1; }
      b.check(what);
    }
    if (!ref::empty(r)) c.nontrivial();
  }
};

// The overloads for owning arrays.
template <class Shape> struct owned {
  static constexpr size_t R = Shape::rank();
  static std::string name() { return shape_name<Shape>(); }
  static void run(ctx& c) {
    if (c.flip()) go<nda::auto_allocator<cell, 4>>(c); else go<std::allocator<cell>>(c);
  }
  template <class Alloc> static void go(ctx& c) {
    alphabet a = alpha(R); a.strides = {UN, 1, 7};
    rshape r = pick_shape<Shape>(c, a);
    { Shape t = to_shape<Shape>(r); t.resolve(); if (!injective(from_shape(t))) return c.skip(); }
    if (!c.mine()) return;
    c.note("array of %s", str(r).c_str());
    nda::array<cell, Shape, Alloc> x(to_shape<Shape>(r), cell(3));
    rshape q = from_shape(x.shape());
    long total = 0; each0(q, [&](const idx&) { total++; });
    auto at = [&](const idx& i) -> cell& { return x[to_tuple<R>(i)]; };
    nda::fill(x, cell(42));
    each0(q, [&](const idx& i) { MC_CHECK(at(i).v == 42 && at(i).writes == 1, "fill(array) at %s", str(i).c_str()); });
    int n = 0;
    nda::generate(x, [&n]() { return cell(1000 + n++); });
    std::vector<int> seen;
    each0(q, [&](const idx& i) { MC_CHECK(at(i).writes == 2, "generate(array) at %s", str(i).c_str()); seen.push_back(at(i).v); });
    std::sort(seen.begin(), seen.end());
    MC_CHECK(n == total, "generate(array): %d calls for %ld elements", n, total);
    for (long k = 0; k < total; k++) MC_CHECK(seen[k] == 1000 + k, "generate(array): values");
    { std::vector<long> o2; x.for_each_value([&](cell& y) { o2.push_back(y.v); }); for (size_t k = 0; k < o2.size(); k++) MC_CHECK(o2[k] == 1000 + (long)k, "generate(array): order differs from for_each_value"); }
    auto code = [](const idx& i) { int v = 5; for (long y : i) v = v * 31 + (int)y; return v; };
    std::vector<idx> order, calls; each0_order(q, default_order<Shape>::get(), [&](const idx& i) { order.push_back(i); });
    nda::transform_index(x, [&](const typename Shape::index_type& i) { calls.push_back(from_tuple(i)); return cell(code(from_tuple(i))); });
    MC_CHECK(calls == order, "transform_index(array): order");
    each0(q, [&](const idx& i) { MC_CHECK(at(i).v == code(i) && at(i).writes == 3, "transform_index(array) at %s", str(i).c_str()); });
    calls.clear();
    nda::transform_indices(x, [&](auto... i) { calls.push_back(idx{(long)i...}); return cell(code(idx{(long)i...}) + 1); });
    MC_CHECK(calls == order, "transform_indices(array): order");
    each0(q, [&](const idx& i) { MC_CHECK(at(i).v == code(i) + 1 && at(i).writes == 4, "transform_indices(array) at %s", str(i).c_str()); c.obs(code(i)); });
    if (total) c.nontrivial();
  }
};

// Filling a view (crop) of an array with one of its own elements, and stateful generators.
MC_SUITE("fill with an element of the destination") {
  int e0 = c.range(1, 4), e1 = c.range(1, 4), k = c.range(0, 15), m = c.pick({-1, 0, 2});
  if (!c.mine()) return;
  if (k >= e0 * e1) return c.skip();
  c.note("extents %d %d, element %d", e0, e1, k);
  nda::dense_array<int, 2> a({{m, e0}, {m, e1}});
  int n = 0; nda::generate(a, [&] { return n++; });
  int& x = a(m + k % e0, m + k / e0);
  int want = x;
  nda::fill(a.ref(), x);
  a.for_each_value([&](int v) { MC_CHECK(v == want, "fill with its own element: %d, expected %d", v, want); });
  c.nontrivial(); c.obs(want); c.obs(e0);
}

using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
using d4 = types<dim<>, dense_dim<>, dim<dynamic, 3>, dim<0, 2, 3>>;
using sp = types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<dynamic, 4>, nda::matrix_shape<2, 3>, nda::vector_shape<>, nda::vector_shape<5>,
  nda::chunky_image_shape<>, nda::chunky_image_shape<1>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<dynamic, 4>, nda::planar_image_shape,
  nda::fixed_dense_shape<3, 2, 4>, nda::fixed_dense_shape<5>, nda::fixed_dense_shape<2, 2, 2, 2, 2>>;
using big_sp = types<nda::matrix_shape<>, nda::matrix_shape<3>, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::planar_image_shape, nda::fixed_dense_shape<17>, nda::fixed_dense_shape<129>, nda::fixed_dense_shape<3, 65>, nda::matrix_shape<65, 7>, nda::shape<dim<0, 100>>>;
#if PART == 0
static register_all<large_<writes, 2>::body> lreg("large view", typename concat<types<shape_of_rank<1>, dense_shape<1>, shape_of_rank<2>, dense_shape<2>, shape_of_rank<3>>, big_sp>::type());
static register_all<writes> reg("view", typename concat<all_shapes<0, d4>::type, all_shapes<1, d4>::type, all_shapes<2, d4>::type, types<shape_of_rank<3>, dense_shape<3>, shape_of_rank<4>, shape_of_rank<5>, nda::shape<dim<>, dim<1, 2>, dense_dim<>>>>::type());
#elif PART == 2
static register_all<ranked_<writes>::body> rreg("ranked view", types<shape_of_rank<4>, nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>, shape_of_rank<5>>());
static register_all<ranked_<writes, true>::body> rreg6("ranked view few", types<dense_shape<6>, shape_of_rank<7>, shape_of_rank<8>>());
static register_all<ranked_<owned, true>::body> rrego("ranked array few", types<shape_of_rank<4>, dense_shape<6>>());
#else
static register_all<large_<owned, 2>::body> lreg("large array", typename concat<types<shape_of_rank<1>, dense_shape<1>, shape_of_rank<2>, dense_shape<2>>, big_sp>::type());
static register_all<writes> reg("view special", sp());
static register_all<owned> reg2("array", typename concat<types<nda::shape<>, nda::shape<dim<>>, shape_of_rank<2>, dense_shape<2>, shape_of_rank<3>, dense_shape<4>, dense_shape<5>>, sp>::type());
#endif
