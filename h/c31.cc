// C31: shapes, views and arrays answer every accessor and element access alike.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::dynamic; using nda::shape_of_rank; using nda::dense_shape;

template <class D> static rd from_dim(const D& d) { return rd{(long)d.min(), (long)d.extent(), d.stride() == nda::unresolved ? UN : (long)d.stride()}; }
template <class D> static void same_dim(const D& d, const rd& w, const char* who, const char* what) {
  rd g = from_dim(d);
  if (!(g == w)) mc::fail("%s.%s is %s, expected %s", who, what, str(rshape{g}).c_str(), str(rshape{w}).c_str());
  MC_CHECK((long)d.max() == w.max() && (long)d.size() == w.extent, "%s.%s: max or size", who, what);
}
static void same(long g, long w, const char* who, const char* what) { if (g != w) mc::fail("%s.%s is %ld, expected %ld", who, what, g, w); }

// Each accessor, if the rank has that dim. `x` is a shape, an array_ref or an array, const or not.
#define NAMED(name, D) \
  template <class X, std::enable_if_t<(std::decay_t<X>::rank() > D), int> = 0> static void named_##name(X& x, const rshape& w, const char* who) { \
    same_dim(x.name(), w[D], who, #name "()"); \
    if ((const void*)&x.name() != (const void*)&x.template dim<D>()) mc::fail("%s: " #name "() and dim<%d>() are different objects", who, D); } \
  template <class X, std::enable_if_t<!(std::decay_t<X>::rank() > D), int> = 0> static void named_##name(X&, const rshape&, const char*) {}
NAMED(i, 0) NAMED(j, 1) NAMED(k, 2) NAMED(x, 0) NAMED(y, 1) NAMED(z, 2) NAMED(c, 2) NAMED(w, 3)
#define EXTENT(name, D) \
  template <class X, std::enable_if_t<(std::decay_t<X>::rank() > D), int> = 0> static void extent_##name(X& x, const rshape& w, const char* who) { same((long)x.name(), w[D].extent, who, #name "()"); } \
  template <class X, std::enable_if_t<!(std::decay_t<X>::rank() > D), int> = 0> static void extent_##name(X&, const rshape&, const char*) {}
EXTENT(width, 0) EXTENT(height, 1) EXTENT(channels, 2) EXTENT(rows, 0) EXTENT(columns, 1)

// The constants of a dim, used by reference.
static long by_reference(const index_t& v) { const volatile index_t* p = &v; return (long)*p; }
template <class D> static void constants(const rd& w, const char* who) {
  auto one = [&](const index_t& c, long v, const char* what) { long g = by_reference(c); if (g != (long)dynamic && g != v) mc::fail("%s: the constant %s is %ld, the value is %ld", who, what, g, v); };
  one(D::Min, w.min, "Min"); one(D::Extent, w.extent, "Extent"); one(D::Stride, w.stride, "Stride"); one(D::Max, w.max(), "Max");
  MC_CHECK((by_reference(D::Max) == (long)dynamic) == (by_reference(D::Min) == (long)dynamic || by_reference(D::Extent) == (long)dynamic), "%s: the constant Max", who);
}
template <class X, size_t... D> static void by_number(X& x, const rshape& w, const char* who, std::index_sequence<D...>) {
  int e[] = {0, (same_dim(x.template dim<D>(), w[D], who, "dim<D>()"), constants<std::decay_t<decltype(x.template dim<D>())>>(w[D], who), 0)...}; (void)e;
  for (size_t d = 0; d < sizeof...(D); d++) same_dim(x.dim(d), w[d], who, "dim(d)");
  (void)x; (void)w; (void)who;
}
template <class X> static void dims(X& x, const rshape& w, const char* who) {
  named_i(x, w, who); named_j(x, w, who); named_k(x, w, who); named_x(x, w, who); named_y(x, w, who); named_z(x, w, who); named_c(x, w, who); named_w(x, w, who);
  extent_width(x, w, who); extent_height(x, w, who); extent_channels(x, w, who); extent_rows(x, w, who); extent_columns(x, w, who);
  by_number(x, w, who, std::make_index_sequence<std::decay_t<X>::rank()>());
  same((long)x.size(), empty(w) ? 0 : size(w), who, "size()");
  MC_CHECK(std::decay_t<X>::rank() == w.size() && std::decay_t<X>::is_scalar() == w.empty(), "%s: rank or is_scalar", who);
  rshape b = w; for (auto& d : b) d.stride = UN;
  rshape g = from_shape(x.bounds());
  MC_CHECK(g == b, "%s.bounds() is %s, expected %s", who, str(g).c_str(), str(b).c_str());
}

template <class S, size_t D, bool In> struct free_min_ { static constexpr bool value = false; };
template <class S, size_t D> struct free_min_<S, D, true> { static constexpr bool value = dim_of<S, D>::Min == dynamic; };
template <class S, size_t D, bool In> struct free_extent_ { static constexpr bool value = false; };
template <class S, size_t D> struct free_extent_<S, D, true> { static constexpr bool value = dim_of<S, D>::Extent == dynamic; };
template <class S, size_t D, bool In> struct free_stride_ { static constexpr bool value = false; };
template <class S, size_t D> struct free_stride_<S, D, true> { static constexpr bool value = dim_of<S, D>::Stride == dynamic; };
template <class S, size_t D> using free_min = free_min_<S, D, (D < S::rank())>;
template <class S, size_t D> using free_extent = free_extent_<S, D, (D < S::rank())>;
template <class S, size_t D> using free_stride = free_stride_<S, D, (D < S::rank())>;
static void written(const rshape& g, const rshape& w, const char* who, const char* what) {
  if (!(g == w)) mc::fail("%s: after writing through %s the shape is %s, expected %s", who, what, str(g).c_str(), str(w).c_str());
}
// Writing each run-time field through an accessor changes that dim of that object, and no other.
template <class S, size_t D, class Dim> static void write_dim(Dim& d, const S& s, rshape w, const char* who, const char* what) {
  Dim old = d;
  if (free_min<S, D>::value) { d.set_min((index_t)(w[D].min + 3)); w[D].min += 3; written(from_shape(s), w, who, what); }
  if (free_extent<S, D>::value) { d.set_extent((index_t)(w[D].extent + 2)); w[D].extent += 2; written(from_shape(s), w, who, what); }
  if (free_stride<S, D>::value) { d.set_stride((index_t)(w[D].stride - 4)); w[D].stride -= 4; written(from_shape(s), w, who, what); }
  d = old;
}
#define WRITE(name, D) \
  template <class S, class X, std::enable_if_t<(S::rank() > D), int> = 0> static void write_##name(X& x, const S& s, const rshape& w, const char* who) { write_dim<S, D>(x.name(), s, w, who, #name "()"); } \
  template <class S, class X, std::enable_if_t<!(S::rank() > D), int> = 0> static void write_##name(X&, const S&, const rshape&, const char*) {}
WRITE(i, 0) WRITE(j, 1) WRITE(k, 2) WRITE(x, 0) WRITE(y, 1) WRITE(z, 2) WRITE(c, 2) WRITE(w, 3)
template <class S, class X, size_t... D> static void write_numbers(X& x, const S& s, const rshape& w, const char* who, std::index_sequence<D...>) {
  int e[] = {0, (write_dim<S, D>(x.template dim<D>(), s, w, who, "dim<D>()"), 0)...}; (void)e; (void)x; (void)s; (void)w; (void)who;
}
// x is the mutable object, s the shape it shows.
template <class S, class X> static void writes(X& x, const S& s, const rshape& w, const char* who) {
  write_i(x, s, w, who); write_j(x, s, w, who); write_k(x, s, w, who); write_x(x, s, w, who); write_y(x, s, w, who); write_z(x, s, w, who); write_c(x, s, w, who); write_w(x, s, w, who);
  write_numbers(x, s, w, who, std::make_index_sequence<S::rank()>());
}

// ---- elements ----
template <class Want, class Got> static void ref_type(Got&&, const char*) { static_assert(std::is_same<Want, Got&&>::value, "element access gives a reference of the element type"); }
template <size_t R, class T, class X> static void element(X& x, const idx& i, T* want, const char* who) {
  auto t = to_tuple<R>(i);
  auto&& a = x[t]; ref_type<T&>(x[t], who);
  if (&a != want) mc::fail("%s[%s] is at %ld elements from the expected address", who, str(i).c_str(), (long)(&a - want));
  auto&& b = spread<R>([&](auto... k) -> decltype(auto) { return x(k...); }, i);
  static_assert(std::is_same<T&, decltype(b)>::value, "element access gives a reference of the element type");
  if (&b != want) mc::fail("%s(%s) is at %ld elements from the expected address", who, str(i).c_str(), (long)(&b - want));
  auto&& d = spread<R>([&](auto... k) -> decltype(auto) { return x((int)k...); }, i);
  if (&d != want) mc::fail("%s(%s) with int indices is at %ld elements from the expected address", who, str(i).c_str(), (long)(&d - want));
  bool narrow = true; for (long q : i) narrow = narrow && q >= -128 && q <= 127;
  if (!narrow) return;
  auto&& e = spread<R>([&](auto... k) -> decltype(auto) { return x((signed char)k...); }, i);
  if (&e != want) mc::fail("%s(%s) with char indices is at %ld elements from the expected address", who, str(i).c_str(), (long)(&e - want));
}
template <class T, class X, std::enable_if_t<std::decay_t<X>::rank() == 0, int> = 0> static void scalar(X& x, T* want, const char* who) {
  T& r = x; if (&r != want) mc::fail("%s: converts to a reference of another element", who);
  std::remove_const_t<T> v = x; if (v != *want) mc::fail("%s: converts to %d, expected %d", who, (int)v, (int)*want);
  std::tuple<> t; if (&x() != want || &x[t] != want) mc::fail("%s() or %s[{}] is another element", who, who);
}
template <class T, class X, std::enable_if_t<std::decay_t<X>::rank() != 0, int> = 0> static void scalar(X&, T*, const char*) {}

// Everything a view or array of shape w, whose element at the min index is *base, must say.
template <class T, class X> static void object(X& x, const rshape& w, T* base, const char* who) {
  constexpr size_t R = std::decay_t<X>::rank();
  static_assert(std::is_same<decltype(x.base()), T*>::value && std::is_same<decltype(x.data()), T*>::value, "base and data point to elements");
  dims(x, w, who);
  MC_CHECK(x.base() == base, "%s.base() is %ld elements away", who, (long)(x.base() - base));
  rshape g = from_shape(x.shape());
  MC_CHECK(g == w, "%s.shape() is %s, expected %s", who, str(g).c_str(), str(w).c_str());
  if (base) MC_CHECK(x.empty() == ref::empty(w), "%s.empty() is %d for %s", who, (int)x.empty(), str(w).c_str());
  MC_CHECK(x.is_compact() == x.shape().is_compact(), "%s.is_compact() differs from its shape's", who);
  if (!ref::empty(w) && base) {
    auto sp = flat_span(w);
    MC_CHECK(x.data() == base + sp.lo, "%s.data() is at %ld elements from base(), expected %ld", who, (long)(x.data() - base), sp.lo);
    idx lo(R), hi(R);
    if (R == 0) element<R, T>(x, lo, base, who);
    else each(w, [&](const idx& i) { element<R, T>(x, i, base + offset(w, i), who); });
    scalar<T>(x, base, who);
  }
}
template <class T, class S, class X> static void converts(X& x, const rshape& w, T* base, const char* who) {
  static_assert(std::is_convertible<X&, nda::array_ref<T, S>>::value, "converts to a view");
  { nda::array_ref<T, S> v = x; object<T>(v, w, base, (std::string(who) + " as a view").c_str()); }
  { auto v = x.ref(); object<T>(v, w, base, (std::string(who) + ".ref()").c_str()); }
  { const nda::const_array_ref<T, S> v = x; object<const T>(v, w, base, (std::string(who) + " as a const view").c_str()); }
  { auto v = x.cref(); object<const T>(v, w, base, (std::string(who) + ".cref()").c_str()); }
}

static alphabet alpha(size_t R) {
  bool th = mc::thorough();
  alphabet a{{-2, 0, 1, 5}, {0, 1, 2, 4}, {-3, -1, 0, 1, 2}};
  if (R == 2) { a = alphabet{{-2, 0, 3}, {0, 1, 3}, {-4, 0, 1, 3}}; if (th) a.extents = {0, 1, 2, 3}; }
  if (R == 3) { a = alphabet{{-1, 2}, {0, 2, 3}, {-3, 1, 9}}; if (!th) a.mins = {-1}; }
  if (R == 4) { a = alphabet{{-1}, {1, 3}, {-3, 1, 7}}; if (th) a.extents = {0, 1, 3}; }
  if (R >= 5) { a = alphabet{{2}, {1, 2}, {1, -6}}; if (!th && R >= 6) a.extents = {2}; }
  // different dims are told apart by their mins
  return a;
}
// Distinct dims: the alphabet is shifted by the dim, so that no two dims of a shape have the same min where the min is a run-time value.
template <class S, size_t... D> static void shift(rshape& r, std::index_sequence<D...>) { int e[] = {0, (r[D].min += free_min<S, D>::value ? 10 * (long)D : 0, 0)...}; (void)e; (void)r; }

template <class S> struct views {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape w = pick_shape<S>(c, alpha(S::rank()));
    if (!c.mine()) return;
    shift<S>(w, std::make_index_sequence<S::rank()>());
    c.note("view of shape %s", str(w).c_str());
    S s = to_shape<S>(w); const S cs = s;
    dims(s, w, "shape"); dims(cs, w, "const shape");
    writes(s, s, w, "shape");
    dims(s, w, "shape after writing");
    span sp = ref::empty(w) ? span{0, 0} : flat_span(w);
    guarded<int> g(sp.lo, sp.hi, 3, [](long i) { return (int)i; });
    {
      nda::array_ref<int, S> v(g.base(), s); const auto cv = v;
      object<int>(v, w, g.base(), "array_ref"); object<int>(cv, w, g.base(), "const array_ref");
      converts<int, S>(v, w, g.base(), "array_ref"); converts<int, S>(cv, w, g.base(), "const array_ref");
      writes(v, v.shape(), w, "array_ref");
      object<int>(v, w, g.base(), "array_ref after writing");
      auto m = nda::make_array_ref(g.base(), s); object<int>(m, w, g.base(), "make_array_ref");
      auto mc_ = nda::make_array_ref((const int*)g.base(), s); object<const int>(mc_, w, g.base(), "make_array_ref of const");
      nda::const_array_ref<int, S> k(g.base(), s); const auto ck = k;
      object<const int>(k, w, g.base(), "const_array_ref"); object<const int>(ck, w, g.base(), "const const_array_ref");
      // copies and assignments of views are shallow
      nda::array_ref<int, S> a2(v), a3; a3 = v; nda::array_ref<int, S> a4; a4 = std::move(a2);
      object<int>(a3, w, g.base(), "assigned array_ref"); object<int>(a4, w, g.base(), "move-assigned array_ref");
      nda::array_ref<int, nda::shape_of_rank<S::rank()>> any = v, any2; any2 = v;
      object<int>(any, w, g.base(), "array_ref_of_rank"); object<int>(any2, w, g.base(), "assigned array_ref_of_rank");
      nda::const_array_ref_of_rank<int, S::rank()> cany(k), cany2; cany2 = k;
      object<const int>(cany, w, g.base(), "const_array_ref_of_rank"); object<const int>(cany2, w, g.base(), "assigned const_array_ref_of_rank");
      nda::array_ref<int, S> nul(nullptr, s); const auto cnul = nul;
      object<int>(nul, w, (int*)nullptr, "null array_ref");
      MC_CHECK(nul.empty() && cnul.empty() && nul.cref().empty(), "an array_ref without a base is not empty");
      nda::array_ref<int, S> def;
      MC_CHECK(def.base() == nullptr && def.empty(), "a default array_ref is not empty");
    }
    g.check("accessors");
    if (!ref::empty(w)) c.nontrivial();
    for (auto& d : w) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
};

template <class S> struct arrays {
  static std::string name() { return shape_name<S>(); }
  // The same array under another shape: each dim kept, without its first or last index, renumbered, or reversed.
  template <size_t D> static bool another(rd& d, long& off, int how) {
    bool m = free_min<S, D>::value, e = free_extent<S, D>::value, st = free_stride<S, D>::value;
    switch (how) {
    case 0: return true;
    case 1: if (!m || !e || d.extent < 2) return false; d.min++; d.extent--; off += d.stride; return true;
    case 2: if (!e || d.extent < 2) return false; d.extent--; return true;
    case 3: if (!m) return false; d.min += 4; return true;
    default: if (!st) return false; off += d.stride * (d.extent - 1); d.stride = -d.stride; return true;
    }
  }
  template <class A, size_t... D> static void moved(A& a, const S& s, const rshape& q, int* base, const char* what, std::index_sequence<D...>) {
    constexpr size_t R = sizeof...(D);
    constexpr bool standard = std::is_same<typename A::allocator_type, std::allocator<int>>::value;
    long n = 1; for (size_t d = 0; d < R; d++) n *= R <= 3 ? 5 : (d == 0 || d + 1 == R) ? 5 : 1;
    for (long k = 1; k < n; k++) {
      int how[R + 1]; long t = k; for (size_t d = 0; d < R; d++) { if (R > 3 && d && d + 1 < R) { how[d] = how[0]; continue; } how[d] = t % 5; t /= 5; }
      rshape w = q; long off = 0; bool ok[] = {true, another<D>(w[D], off, how[D])...}; bool all = true; for (bool b : ok) all = all && b;
      if (!all) continue;
      if (!standard && k % 6 && !mc::thorough()) continue; // the same change in every dim
      S next = to_shape<S>(w);
      a.set_shape(next, (index_t)off);
      const A& ca = a; char who[200]; snprintf(who, sizeof who, "%s of %s after set_shape", what, str(q).c_str());
      object<int>(a, w, base + off, who); object<const int>(ca, w, base + off, (std::string("const ") + who).c_str());
      const nda::const_array_ref<int, S> v = ca; object<const int>(v, w, base + off, (std::string(who) + ", as a const view").c_str());
      nda::array_ref<int, S> r = a.ref(); object<int>(r, w, base + off, (std::string(who) + ", as a view").c_str());
      // and back: set_shape accepts only a part of the present shape, so start from a new array
      a = A(s, 7); base = a.base();
    }
    (void)a; (void)s; (void)base; (void)what;
  }
  template <class Alloc> static void one(const S& s, const rshape& q, const char* what) {
    nda::array<int, S, Alloc> a(s, 7); const auto& ca = a;
    int* base = a.base();
    MC_CHECK(ca.base() == base, "%s: base() of the const array differs", what);
    if (!ref::empty(q)) MC_CHECK(base != nullptr, "%s: no base", what);
    object<int>(a, q, base, what); object<const int>(ca, q, base, (std::string("const ") + what).c_str());
    converts<int, S>(a, q, base, what);
    { const nda::const_array_ref<int, S> v = ca; object<const int>(v, q, base, "const array as a const view"); }
    { auto v2 = ca.ref(); object<const int>(v2, q, base, "const array .ref()"); } { auto v2 = ca.cref(); object<const int>(v2, q, base, "const array .cref()"); }
    if (!ref::empty(q)) {
      auto sp = flat_span(q);
      if (S::rank() == 0) { *base = 9; } else { int k = 0; each(q, [&](const idx& i) { a[to_tuple<S::rank()>(i)] = k++; }); k = 0; bool inj = injective(q);
        each(q, [&](const idx& i) { int g = ca[to_tuple<S::rank()>(i)]; if (inj && g != k) mc::fail("%s: element %s reads %d, expected %d", what, str(i).c_str(), g, k); k++; }); }
      MC_CHECK(a.data()[0] == a.data()[0] && &a.data()[sp.extent() - 1] == base + sp.hi, "%s: last address", what);
      moved(a, s, q, base, what, std::make_index_sequence<S::rank()>());
    }
  }
  static void run(ctx& c) {
    alphabet al = alpha(S::rank()); al.strides.push_back(UN);
    if (S::rank() >= 3) al.strides = {UN, 1, -40};
    rshape w = pick_shape<S>(c, al);
    if (!c.mine()) return;
    shift<S>(w, std::make_index_sequence<S::rank()>());
    S s = to_shape<S>(w), t = s; t.resolve();
    rshape q = from_shape(t);
    c.note("array of shape %s", str(q).c_str());
    one<std::allocator<int>>(s, q, "array");
    one<nda::uninitialized_std_allocator<int>>(s, q, "uninitialized array");
    one<nda::auto_allocator<int, 16>>(s, q, "in-object array");
    if (!ref::empty(q)) c.nontrivial();
    for (auto& d : q) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
};

using d7 = types<dim<>, dense_dim<>, dim<2>, dim<dynamic, 3>, dim<-1, 2, 3>, nda::broadcast_dim<>, dim<0, dynamic, -2>>;
using d4 = types<dim<>, dense_dim<0>, dim<dynamic, 2, -3>, dim<-1, 3>>;
using list = concat<all_shapes<0, d7>::type, all_shapes<1, d7>::type, all_shapes<2, d4>::type, types<shape_of_rank<3>, dense_shape<3>,
  nda::chunky_image_shape<3>, nda::planar_image_shape, nda::chunky_image_shape<2, 5>, nda::matrix_shape<>, nda::matrix_shape<3, 2>, nda::vector_shape<3>, nda::fixed_dense_shape<2, 3, 4>,
  nda::shape<dim<0, 2>, dim<>, dim<1>>, nda::shape<dim<>, dim<-2, 2, 1>, dim<dynamic, 3>>,
  shape_of_rank<4>, dense_shape<4>, nda::shape<dim<1>, dim<dynamic, 2>, dense_dim<>, dim<>>, nda::fixed_dense_shape<2, 1, 3, 2>, shape_of_rank<5>, dense_shape<5>, shape_of_rank<6>,
  nda::shape<dim<>, dim<1>, dim<dynamic, 2>, dim<>, dim<dynamic, dynamic, -7>>>>::type;
#ifdef RANKED
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>;
static register_all<ranked_<views>::body> rrv("ranked views", types<shape_of_rank<4>, mixed4, dense_shape<5>>());
static register_all<ranked_<views, true>::body> rrv6("ranked views few", types<shape_of_rank<6>, shape_of_rank<7>>());
static register_all<ranked_<arrays, true>::body> rra("ranked arrays", types<shape_of_rank<4>, shape_of_rank<5>, dense_shape<6>>());
#else
static register_all<large_<views, 2>::body> lrv("large views", part<types<shape_of_rank<1>, dense_shape<1>, shape_of_rank<2>, nda::matrix_shape<>, nda::chunky_image_shape<>, nda::fixed_dense_shape<100>>>());
static register_all<large_<arrays, 2>::body> lra("large arrays", part<types<shape_of_rank<1>, dense_shape<1>, dense_shape<2>, nda::matrix_shape<>, nda::planar_image_shape, nda::fixed_dense_shape<100>>>());
static register_all<views> rv("views", part<list>());
static register_all<arrays> ra("arrays", part<list>());
#endif
