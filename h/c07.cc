// C07: slices and crops are exact aliasing views.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::interval; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;

// Each kind of argument picks a value that is in range of the parent dim, and says what the view should get.
struct want_dim { bool sliced; rd d; long at; };
static long pick_at(ctx& c, const rd& p) {
  if (p.extent <= 0) { c.discard(); }
  return c.range(p.min, p.max());
}
static rd pick_range(ctx& c, const rd& p) {
  long lo = c.range(p.min, p.min + p.extent);
  long n = c.range(0, p.min + p.extent - lo);
  return rd{lo, n, p.stride};
}
static void need(ctx& c, const rd& p, long lo, long n) { if (lo < p.min || lo + n > p.min + p.extent) c.discard(); }
struct k_index { using type = index_t; static const char* name() { return "index"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { a = (index_t)pick_at(c, p); return {true, {}, (long)a}; } static type init() { return 0; } };
struct k_short { using type = short; static const char* name() { return "short"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { a = (short)pick_at(c, p); return {true, {}, (long)a}; } static type init() { return 0; } };
struct k_size { using type = size_t; static const char* name() { return "size_t"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { long v = pick_at(c, p); if (v < 0) c.discard(); a = (size_t)v; return {true, {}, v}; } static type init() { return 0; } };
struct k_all { using type = std::decay_t<decltype(nda::_)>; static const char* name() { return "_"; }
  static want_dim pick(ctx&, const rd& p, type&) { return {false, p, 0}; } static type init() { return nda::_; } };
struct k_iv { using type = interval<>; static const char* name() { return "interval<>"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { rd w = pick_range(c, p); a = nda::r((index_t)w.min, (index_t)(w.min + w.extent)); return {false, w, 0}; } static type init() { return {}; } };
struct k_fix { using type = nda::fixed_interval<2>; static const char* name() { return "fixed_interval<2>"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { if (p.extent < 2) c.discard(); long lo = c.range(p.min, p.max() - 1); a = nda::r<2>((index_t)lo); return {false, {lo, 2, p.stride}, 0}; } static type init() { return {}; } };
struct k_static { using type = interval<1, 2>; static const char* name() { return "interval<1,2>"; }
  static want_dim pick(ctx& c, const rd& p, type&) { need(c, p, 1, 2); return {false, {1, 2, p.stride}, 0}; } static type init() { return {}; } };
struct k_smin { using type = interval<0>; static const char* name() { return "interval<0>"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { if (p.min > 0 || p.min + p.extent < 0) c.discard(); long n = c.range(0, p.min + p.extent); a = type(0, (index_t)n); return {false, {0, n, p.stride}, 0}; } static type init() { return {}; } };
struct k_dim { using type = dim<>; static const char* name() { return "dim<>"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { rd w = pick_range(c, p); a = dim<>((index_t)w.min, (index_t)w.extent, 77); return {false, w, 0}; } static type init() { return {}; } };
struct k_sdim { using type = dim<dynamic, 2, 5>; static const char* name() { return "dim<*,2,5>"; }
  static want_dim pick(ctx& c, const rd& p, type& a) { if (p.extent < 2) c.discard(); long lo = c.range(p.min, p.max() - 1); a = type((index_t)lo, 2); return {false, {lo, 2, p.stride}, 0}; } static type init() { return {}; } };

static alphabet alpha(size_t R) {
  bool th = mc::thorough();
  alphabet a{{-2, 0, 1}, {0, 1, 2, 3, 4}, {-3, -1, 0, 1, 2, 5}};
  if (R == 1) { a.mins = {-3, -2, -1, 0, 1, 5}; a.extents = {0, 1, 2, 3, 4, 7}; }
  if (R == 2) { a.mins = {-2, 0, 1}; a.extents = {0, 2, 3}; a.strides = {-4, 1, 3}; if (th) { a.extents = {0, 1, 2, 3, 4}; a.strides = {-4, 0, 1, 3}; } }
  if (R == 3) { a.mins = {-1, 0}; a.extents = {1, 3}; a.strides = {-3, 1, 9}; if (!th) a.strides = {1, 9}; }
  if (R >= 4) { a.mins = {-1}; a.extents = {2}; a.strides = {1, 2, -6}; if (!th) a.strides = {1, -6}; }
  if (R >= 6) { a.strides = {1, 5}; }
  return a;
}

struct view_ref { rshape shape; std::vector<int> keep; idx at; };  // of a parent: kept dims, and indices of the dropped ones
static idx parent_index(const view_ref& v, const idx& i) { idx p = v.at; for (size_t k = 0; k < v.keep.size(); k++) p[v.keep[k]] = i[k]; return p; }
static void add(view_ref& v, int k, const want_dim& w) { if (w.sliced) v.at[k] = w.at; else { v.keep.push_back(k); v.shape.push_back(w.d); } }

// Every in-range index of the view addresses the parent's element.
template <class V> static void check_view(const V& v, const view_ref& w, const rshape& parent, const char* base, const char* what) {
  using S = typename V::shape_type;
  if (S::rank() != w.shape.size()) { mc::fail("%s: rank %zu, expected %zu", what, (size_t)S::rank(), w.shape.size()); }
  rshape got = from_shape(v.shape());
  if (!(got == w.shape)) mc::fail("%s: shape %s, expected %s", what, str(got).c_str(), str(w.shape).c_str());
  each(w.shape, [&](const idx& i) {
    long off = offset(parent, parent_index(w, i));
    const char* p = spread<S::rank()>([&](auto... x) { return (const char*)&v(x...); }, i);
    const char* q = (const char*)&v[to_tuple<S::rank()>(i)];
    if (p != base + off || q != p) mc::fail("%s: index %s is at offset %ld, the parent's element is at %ld", what, str(i).c_str(), (long)(p - base), off);
  });
}

// A view of the view: one dim becomes an index or an interval, the rest stay.
template <size_t D, size_t R, class X, size_t... I> static auto placeholders(const X& x, std::index_sequence<I...>) {
  auto p = std::make_tuple(((void)I, nda::_)...);
  (void)p;
  return std::tuple_cat(std::get<(I == D)>(std::make_tuple(std::make_tuple(nda::_), std::make_tuple(x)))...);
}
template <size_t D, class V> static void slice_again(const V& v, long lo, const view_ref& w2, const rshape& parent, const char* base, std::true_type) {
  check_view(v[placeholders<D, V::shape_type::rank()>((index_t)lo, std::make_index_sequence<V::shape_type::rank()>())], w2, parent, base, "slice of a view");
}
template <size_t D, class V> static void slice_again(const V&, long, const view_ref&, const rshape&, const char*, std::false_type) {}
template <class V, size_t D> static void nested_view(ctx& c, const V& v, const view_ref& w, const rshape& parent, const char* base) {
  constexpr size_t R = V::shape_type::rank();
  const rd& p = w.shape[D];
  long lo = p.extent > 1 ? p.min + 1 : p.min;
  for (int kind = 0; kind < 2; kind++) {
    if (kind == 0 && p.extent <= 0) continue;
    view_ref w2; w2.at = w.at;
    for (size_t k = 0; k < R; k++) {
      if (k == D && kind == 0) { w2.at[w.keep[k]] = lo; continue; }
      w2.keep.push_back(w.keep[k]);
      w2.shape.push_back(k == D ? rd{lo, p.min + p.extent - lo, p.stride} : w.shape[k]);
    }
    if (kind == 0) slice_again<D>(v, lo, w2, parent, base, std::integral_constant<bool, (R > 1)>());
    else check_view(v[placeholders<D, R>(interval<>((index_t)lo, (index_t)(p.min + p.extent - lo)), std::make_index_sequence<R>())], w2, parent, base, "crop of a view");
  }
  (void)c;
}
template <class V, size_t... D> static void nested_views(ctx& c, const V& v, const view_ref& w, const rshape& parent, const char* base, std::index_sequence<D...>) {
  int d[] = {0, (nested_view<V, D>(c, v, w, parent, base), 0)...}; (void)d;
}

template <class Shape, class... K> struct case_ { using shape = Shape; };
template <class C> struct slices;
template <class Shape, class... K> struct slices<case_<Shape, K...>> {
  static constexpr size_t R = Shape::rank();
  static std::string name() { std::string r = shape_name<Shape>() + "("; int d[] = {0, (r += std::string(K::name()) + ",", 0)...}; (void)d; r.back() = ')'; return r; }
  template <size_t... I> static void pick_all(ctx& c, const rshape& r, std::tuple<typename K::type...>& args, view_ref& w, std::index_sequence<I...>) {
    want_dim d[] = {K::pick(c, r[I], std::get<I>(args))...};
    for (size_t k = 0; k < R; k++) add(w, (int)k, d[k]);
  }
  template <class A, size_t... I> static auto call(A&& a, const std::tuple<typename K::type...>& args, std::index_sequence<I...>) { return a(std::get<I>(args)...); }
  static void run(ctx& c) {
    auto seq = std::make_index_sequence<R>();
    rshape r = pick_shape<Shape>(c, alpha(R));
    if (!c.mine()) return;
    std::tuple<typename K::type...> args{K::init()...};
    view_ref w; w.at.assign(R, 0);
    pick_all(c, r, args, w, seq);
    c.note("parent %s, view %s at %s", str(r).c_str(), str(w.shape).c_str(), str(w.at).c_str());
    Shape s = to_shape<Shape>(r);
    bool em = ref::empty(r);
    span f = em ? span{0, 0} : flat_span(r);
    std::vector<char> mem(f.extent() + 2);
    char* base = mem.data() - f.lo;
    nda::array_ref<char, Shape> a(base, s);
    nda::array_ref<const char, Shape> ca(base, s);
    auto v = a[args];
    static_assert(std::is_same<typename decltype(v)::value_type, char>::value, "");
    check_view(v, w, r, base, "array_ref[tuple]");
    check_view(call(a, args, seq), w, r, base, "array_ref(args)");
    check_view(ca[args], w, r, base, "const array_ref[tuple]");
    auto cv = call(ca, args, seq);
    static_assert(std::is_same<typename decltype(cv)::value_type, const char>::value, "a view of a const parent is const");
    check_view(cv, w, r, base, "const array_ref(args)");
    MC_CHECK(from_shape(s[args]) == w.shape && from_shape(call(s, args, seq)) == w.shape, "shape slice %s, expected %s", str(from_shape(s[args])).c_str(), str(w.shape).c_str());
    nested_views(c, v, w, r, base, std::make_index_sequence<(R <= 3 ? decltype(v)::shape_type::rank() : 0)>());
    // null parents
    nda::array_ref<char, Shape> n(nullptr, s);
    MC_CHECK(n[args].base() == nullptr && call(n, args, seq).base() == nullptr, "a view of a null parent is not null");
    nda::array<char, Shape> moved_from(s);
    { nda::array<char, Shape> taken(std::move(moved_from)); }
    if (moved_from.base() == nullptr && from_shape(moved_from.shape()) == r)
      MC_CHECK(moved_from[args].base() == nullptr, "a view of an array without an allocation is not null");
    // owning parents
    nda::array<char, Shape> x(s);
    const auto& cx = x;
    auto xv = x[args];
    check_view(xv, w, r, x.base(), "array[tuple]");
    check_view(call(x, args, seq), w, r, x.base(), "array(args)");
    auto cxv = call(cx, args, seq);
    static_assert(std::is_same<typename decltype(cxv)::value_type, const char>::value, "a view of a const array is const");
    check_view(cx[args], w, r, cx.base(), "const array[tuple]");
    check_view(cxv, w, r, cx.base(), "const array(args)");
    for (auto& d : w.shape) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    for (long i : w.at) c.obs(i);
    if (!ref::empty(w.shape)) c.nontrivial();
  }
};

// all kind lists of rank R, except those that slice every dim (they are element accesses)
template <class K> struct is_index : std::integral_constant<bool, std::is_integral<typename K::type>::value> {};
template <class... K> struct all_indices;
template <> struct all_indices<> : std::true_type {};
template <class K0, class... K> struct all_indices<K0, K...> : std::integral_constant<bool, is_index<K0>::value && all_indices<K...>::value> {};
template <class Prefix, size_t R, class Ks> struct kind_lists;
template <class S, class... P, class... Ks> struct kind_lists<case_<S, P...>, 0, types<Ks...>> { using type = typename std::conditional<all_indices<P...>::value, types<>, types<case_<S, P...>>>::type; };
template <class S, class... P, size_t R, class... Ks> struct kind_lists<case_<S, P...>, R, types<Ks...>> {
  using type = typename concat<typename kind_lists<case_<S, P..., Ks>, R - 1, types<Ks...>>::type...>::type;
};
template <class Shapes, class Ks> struct cases_;
template <class... S, class Ks> struct cases_<types<S...>, Ks> { using type = typename concat<typename kind_lists<case_<S>, S::rank(), Ks>::type...>::type; };
template <class Shapes, class Ks> using cases = typename cases_<Shapes, Ks>::type;

using kall = types<k_index, k_short, k_size, k_all, k_iv, k_fix, k_static, k_smin, k_dim, k_sdim>;
using k6 = types<k_index, k_all, k_iv, k_static, k_fix, k_sdim>;
using k3 = types<k_index, k_all, k_iv>;
using k2 = types<k_index, k_fix>;
using d6 = types<dim<>, dense_dim<>, dim<dynamic, 3>, dim<0, 3, 3>, nda::broadcast_dim<>, nda::strided_dim<-2>>;
using rank1 = cases<all_shapes<1, d6>::type, kall>;
using rank2a = cases<types<nda::shape<dim<>, dim<0, 3, 4>>>, k6>;
using rank2b = cases<all_shapes<2, types<dense_dim<>, dim<dynamic, 3>, nda::strided_dim<-2>>>::type, k3>;
using rank3 = cases<types<shape_of_rank<3>, nda::chunky_image_shape<3>, nda::planar_image_shape>, types<k_index, k_all, k_iv>>;
using rank4 = cases<types<shape_of_rank<4>>, types<k_index, k_fix>>;
using rank6 = types<case_<shape_of_rank<6>, k_all, k_index, k_iv, k_all, k_fix, k_index>, case_<shape_of_rank<6>, k_index, k_index, k_index, k_all, k_index, k_index>, case_<dense_shape<5>, k_iv, k_index, k_all, k_index, k_all>,
  case_<nda::matrix_shape<2, 3>, k_index, k_all>, case_<nda::matrix_shape<2, 3>, k_all, k_index>, case_<nda::matrix_shape<>, k_iv, k_iv>, case_<nda::fixed_dense_shape<3, 2, 4>, k_all, k_fix, k_index>>;
using everything = concat<rank1, rank2a, rank2b, rank3, rank4, rank6>::type;
static register_all<slices> reg("slice", part<everything>());

#if PART == 0
MC_SUITE("rank 0 view of all indices") {
  long m0 = c.range(-2, 2), m1 = c.range(-1, 1), e0 = c.range(1, 3), e1 = c.range(1, 3);
  nda::array<int, shape_of_rank<2>> a({{(index_t)m0, (index_t)e0}, {(index_t)m1, (index_t)e1}});
  for (long y = m1; y < m1 + e1; y++) for (long x = m0; x < m0 + e0; x++) {
    auto row = a(nda::_, y);
    auto cell = row(nda::r<1>(x));
    MC_CHECK(&row(x) == &a(x, y) && &cell(x) == &a(x, y), "cell (%ld,%ld) of a row view", x, y);
    auto col = a(x, nda::all);
    MC_CHECK(&col(y) == &a(x, y), "column view");
    cell(x) = (int)(x * 10 + y);
    MC_CHECK(a(x, y) == (int)(x * 10 + y), "writing through a view of a view");
    c.obs(x * 7 + y);
  }
  c.nontrivial();
}
#endif
