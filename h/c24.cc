// C24: equality compares exactly the shape and the addressed elements.
#include "ref.h"
#include "world.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dynamic; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape;

template <class A, class B> struct pair_ { using a = A; using b = B; };
template <class L, class M> struct xpairs;
template <class... A, class... B> struct xpairs<types<A...>, types<B...>> { template <class X> using row = types<pair_<X, B>...>; using type = typename concat<row<A>...>::type; };

template <class S> static alphabet alpha() {
  const bool th = mc::thorough();
  constexpr size_t R = S::rank();
  if (R <= 1) return {{0, -2, 1}, th ? std::vector<long>{0, 1, 2, 3, 4, 5, 7} : std::vector<long>{0, 1, 2, 3, 5}, {0, 1, -1, 2, -3, 4}};
  if (R == 2) { if (th) return {{0, 1}, {0, 1, 2, 3}, {0, 1, -1, 3, 4, -4}}; return {{0}, {0, 1, 2, 3}, {0, 1, 3, -4}}; }
  if (R == 3) { if (th) return {{0}, {1, 2, 3}, {0, 1, 2, -4, 6, 12}}; return {{0}, {1, 2}, {1, 2, -4, 6}}; }
  return {{0}, {1, 2}, {1, 2, 4, -8}};
}
template <class F> static void for_all(const rshape& r, F&& f) { if (r.empty()) f(idx()); else if (!empty(r)) each(r, f); }

// A second shape: either of the same bounds and any strides, or of other bounds and a few strides.
template <class S, size_t... I> static bool with_bounds_(ctx& c, const rshape& b, const alphabet& a, rshape& r, std::index_sequence<I...>) {
  bool ok = true;
  auto one = [&](long mn, long ex, long st, size_t d) { if ((mn != (long)dynamic && mn != b[d].min) || (ex != (long)dynamic && ex != b[d].extent)) { ok = false; r.push_back(rd{0, 0, 0}); return; } r.push_back(rd{b[d].min, b[d].extent, st != (long)dynamic ? st : c.pick(a.strides)}); };
  int dummy[] = {0, (ok ? one((long)dim_of<S, I>::Min, (long)dim_of<S, I>::Extent, (long)dim_of<S, I>::Stride, I) : void(), 0)...}; (void)dummy;
  return ok;
}
// In large mode: the same box in another layout, or a box of other bounds.
template <class S> static bool large_second(ctx& c, const rshape& first, rshape& r) {
  auto st = statics_of<S>(); r = first; int by = c.choose(4);
  if (large_mode() >= 4) {
    const size_t d = by == 1 ? 1 : by == 2 ? r.size() - 1 : 0;
    if (by == 1) r[d].extent++;
    if (by == 2) r[d].extent = std::max(0l, r[d].extent - 1);
    if (by == 3) r[d].min++;
    for (size_t k = 0; k < r.size(); k++) if ((st[k].min != (long)dynamic && st[k].min != r[k].min) || (st[k].extent != (long)dynamic && st[k].extent != r[k].extent)) return false;
    ranked_layout(c, r, st, false, true);
    return true;
  }
  for (size_t k = 0; k < r.size(); k++) if (r[k].extent >= 4) { if (by == 1) r[k].extent++; if (by == 2) r[k].extent--; if (by == 3) r[k].min++; }
  for (size_t k = 0; k < r.size(); k++) if ((st[k].min != (long)dynamic && st[k].min != r[k].min) || (st[k].extent != (long)dynamic && st[k].extent != r[k].extent)) return false;
  set_layout(r, st, c.choose(5));
  return true;
}
// The positions at which a single difference is tried: all of them; many of them in large mode.
static bool tried(long n, long total) {
  if (!large_mode() || total <= 24) return true;
  return n < 2 || n >= total - 2 || (n & (n - 1)) == 0 || ((n + 1) & n) == 0 || n % 61 == 60;
}
template <class S> static bool pick_second(ctx& c, const rshape& first, rshape& r) {
  alphabet a = alpha<S>();
  if (large_mode()) return large_second<S>(c, first, r);
  if (S::rank() == 0) return true;
  if (c.flip()) return with_bounds_<S>(c, first, a, r, std::make_index_sequence<S::rank()>());
  a.strides = {1, -4};
  r = pick_shape<S>(c, a);
  for (size_t d = 0; d < r.size(); d++) if (r[d].min != first[d].min || r[d].extent != first[d].extent) return true;
  return false;
}

// memory with a view in it; every element holds a function of its index, everything else is noise
template <class T, class S> struct placed {
  rshape r; std::vector<T> mem; T* base;
  placed(const rshape& r_, long noise) : r(r_) {
    const bool e = !r.empty() && empty(r);
    span sp = e || r.empty() ? span{0, 0} : flat_span(r);
    mem.resize(sp.extent() + 6);
    for (size_t k = 0; k < mem.size(); k++) mem[k] = (T)(noise + (long)k);
    base = mem.data() + 3 - sp.lo;
  }
  void set() { long n = 0; for_all(r, [&](const idx& i) { at(i) = (T)value(i); n++; }); }
  static long value(const idx& i) { long v = 7; for (long x : i) v = v * 11 + x; return v % 30011; }
  T& at(const idx& i) { return base[offset(r, i)]; }
  nda::array_ref<T, S> view() { return nda::array_ref<T, S>(base, to_shape<S>(r)); }
  nda::array_ref<const T, S> cview() { return nda::array_ref<const T, S>(base, to_shape<S>(r)); }
};
static bool same_box(const rshape& a, const rshape& b) { for (size_t d = 0; d < a.size(); d++) if (a[d].min != b[d].min || a[d].extent != b[d].extent) return false; return true; }

template <class P> struct views {
  using A = typename P::a; using B = typename P::b;
  static constexpr size_t R = A::rank();
  static std::string name() { return shape_name<A>() + " and " + shape_name<B>(); }
  // aliasing layouts (stride 0, overlaps) hold equal values only if the values are a function of the offset: use a constant there
  static void run(ctx& c) {
    rshape ra = pick_shape<A>(c, alpha<A>()), rb;
    if (!pick_second<B>(c, ra, rb)) return c.skip();
    if (!c.mine()) return;
    const bool inj = (R == 0) || ((empty(ra) || injective(ra)) && (empty(rb) || injective(rb)));
    go<int, int>(c, ra, rb, inj);
    if (inj && R < 4) { go<int, double>(c, ra, rb, true); go<short, long>(c, ra, rb, true); }
  }
  template <class TA, class TB> static void go(ctx& c, const rshape& ra, const rshape& rb, bool inj) {
    c.note("views %s and %s%s", str(ra).c_str(), str(rb).c_str(), std::is_same<TA, TB>::value ? "" : " of different element types");
    placed<TA, A> a(ra, 1000); placed<TB, B> b(rb, 5000);
    const bool box = same_box(ra, rb);
    for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } for (auto& d : rb) { c.obs(d.extent); c.obs(d.stride); }
    const bool ea = R > 0 && empty(ra);
    // Without aliasing the elements are distinct values; with aliasing all are the same value.
    auto fill = [&] { if (inj) { a.set(); b.set(); } else { for_all(ra, [&](const idx& i) { a.at(i) = 3; }); for_all(rb, [&](const idx& i) { b.at(i) = 3; }); } };
    fill();
    compare(c, a, b, box, "equal elements");
    if (!box || ea) return;
    // every single difference
    long n = 0;
    for_all(ra, [&](const idx& i) {
      if (!tried(n, size(ra))) { n++; return; }
      fill();
      b.at(i) += (n % 2) ? 1 : -1;
      compare(c, a, b, false, "one different element");
      fill();
      a.at(i) += 1; b.at(i) += 1;
      compare(c, a, b, true, "one equally changed element", !inj);
      n++;
    });
    fill();
    // a constant in one, that constant but for the last element in the other
    if (n > 1 && inj) {
      long k = 0; for_all(ra, [&](const idx& i) { a.at(i) = 1; b.at(i) = ++k == n ? 2 : 1; }); compare(c, a, b, false, "last element differs");
      k = 0; for_all(ra, [&](const idx& i) { a.at(i) = k == 0 ? 2 : 1; b.at(i) = 1; k++; }); compare(c, a, b, false, "first element differs");
    }
    c.nontrivial();
  }
  template <class PA, class PB> static void compare(ctx& c, PA& a, PB& b, bool want, const char* what, bool aliased = false) {
    auto va = a.view(); auto vb = b.view(); auto ca = a.cview(); auto cb = b.cview();
    if (aliased) return;  // an equal change of aliased elements can change others
    auto one = [&](bool got, const char* f) { if (got != want) mc::fail("%s: %s is %d for %s", what, f, got, want ? "equal contents" : "different contents"); };
    one(nda::equal(va, vb), "equal(view, view)"); one(nda::equal(vb, va), "equal(view, view) reversed"); one(nda::equal(ca, vb), "equal(const view, view)"); one(nda::equal(va, cb), "equal(view, const view)");
    ops(a, b, want, what, std::integral_constant<bool, std::is_same<PA, PB>::value>());
    c.obs(want);
  }
  template <class PA, class PB> static void ops(PA&, PB&, bool, const char*, std::false_type) {}
  template <class PA> static void ops(PA& a, PA& b, bool want, const char* what, std::true_type) {
    want = want && a.r == b.r;
    if (!same_box(a.r, b.r)) want = false;
    auto va = a.view(); auto vb = b.view(); auto ca = a.cview(); auto cb = b.cview();
    auto one = [&](bool got, bool w, const char* f) { if (got != w) mc::fail("%s: %s is %d", what, f, got); };
    one(va == vb, want, "=="); one(va != vb, !want, "!="); one(vb == va, want, "== reversed"); one(vb != va, !want, "!= reversed");
    one(ca == cb, want, "== of const views"); one(ca != cb, !want, "!= of const views"); one(ca == va, true, "== of a view and itself"); one(va != va, false, "!= of a view and itself");
    one(ca == vb, want, "== of a const view and a view"); one(ca != vb, !want, "!= of a const view and a view");
  }
};

// owning arrays; the memory between the elements differs
template <class P> struct arrays {
  using A = typename P::a; using B = typename P::b;
  static constexpr size_t R = A::rank();
  static std::string name() { return shape_name<A>() + " and " + shape_name<B>(); }
  template <class Arr> static void noise(Arr& a, const rshape& r, int n) {
    if (R == 0 || empty(r)) return;
    span sp = flat_span(r); auto v = offsets(r); std::set<long> used(v.begin(), v.end());
    for (long o = sp.lo; o <= sp.hi; o++) if (!used.count(o)) (&*a.base())[o] = n;
  }
  static void run(ctx& c) {
    rshape ra = pick_shape<A>(c, alpha<A>()), rb;
    if (!pick_second<B>(c, ra, rb)) return c.skip();
    if (R > 0 && ((!empty(ra) && !injective(ra)) || (!empty(rb) && !injective(rb)))) return c.skip();
    if (!c.mine()) return;
    c.note("arrays %s and %s", str(ra).c_str(), str(rb).c_str());
    world::reset();
    {
      using AA = nda::array<int, A, world::alloc<int, 0>>; using AB = nda::array<int, B>;
      AA a(to_shape<A>(ra), 0, world::alloc<int, 0>(1)); AB b(to_shape<B>(rb), 0);
      const AA& ca = a; const AB& cb = b;
      noise(a, ra, 111); noise(b, rb, 222);
      auto set = [&] { for_all(ra, [&](const idx& i) { a[to_tuple<R>(i)] = (int)placed<int, A>::value(i); }); for_all(rb, [&](const idx& i) { b[to_tuple<R>(i)] = (int)placed<int, B>::value(i); }); };
      auto all = [&](bool want, const char* what) {
        auto one = [&](bool got, const char* f) { if (got != want) mc::fail("%s: %s is %d", what, f, got); };
        one(nda::equal(a, b), "equal(array, array)"); one(nda::equal(ca, cb), "equal(const array, const array)"); one(nda::equal(a.ref(), b), "equal(view, array)"); one(nda::equal(a, b.cref()), "equal(array, view)"); one(nda::equal(cb, ca), "equal reversed");
      };
      const bool box = R == 0 || same_box(ra, rb);
      set(); all(box, "equal elements");
      AA a2(a); noise(a2, ra, 333); const AA& ca2 = a2;
      MC_CHECK(a == a2 && !(a != a2) && ca == ca2 && ca2 == ca && a == a && !(a != a), "an array differs from its copy");
      long at = 0;
      if (box) for_all(ra, [&](const idx& i) {
        if (!tried(at++, size(ra))) return;
        set(); b[to_tuple<R>(i)] += 5; all(false, "one different element");
        int& e = a2[to_tuple<R>(i)]; e += 5;
        MC_CHECK(!(a == a2) && a != a2 && a2 != a && !(ca2 == ca), "a different element %s is not detected", str(i).c_str());
        e -= 5;
        MC_CHECK(a == a2 && !(a2 != a), "element %s restored: still different", str(i).c_str());
      });
      // shapes that differ
      AA empty_; MC_CHECK((a == empty_) == (from_shape(a.shape()) == from_shape(empty_.shape()) && (R == 0 ? int(a[to_tuple<R>(idx(R))]) == int(empty_[to_tuple<R>(idx(R))]) : empty(ra))) , "comparison with a default array");
      if (box) c.nontrivial();
    }
    world::all_gone(); c.check_soft();
  }
};
// same type, different run-time shape
template <class S> struct same_type {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape ra = pick_shape<S>(c, alpha<S>()), rb;
    if (!pick_second<S>(c, ra, rb)) return c.skip();
    if (R > 0 && ((!empty(ra) && !injective(ra)) || (!empty(rb) && !injective(rb)))) return c.skip();
    if (!c.mine()) return;
    c.note("arrays %s and %s", str(ra).c_str(), str(rb).c_str());
    nda::array<int, S> a(to_shape<S>(ra), 4), b(to_shape<S>(rb), 4);
    const bool want = ra == rb;
    MC_CHECK((a == b) == want && (a != b) == !want && (b == a) == want && (b != a) == !want, "== is %d, != is %d for constant arrays", (int)(a == b), (int)(a != b));
    const bool box = R == 0 || same_box(ra, rb);
    MC_CHECK(nda::equal(a, b) == box && nda::equal(b, a) == box, "equal is %d", (int)nda::equal(a, b));
    c.obs(want); c.obs(box);
    c.nontrivial();
  }
};
using l1 = types<nda::shape<dim<>>, dense_shape<1>, nda::shape<dim<dynamic, 3>>, nda::shape<dim<0>>, nda::shape<dim<1, 2, -1>>>;
using l2 = types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::fixed_dense_shape<3, 2>, nda::shape<dim<>, dim<0, 2, 1>>>;
using l3 = types<shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<2>, nda::shape<dim<>, dim<>, dim<0, 2, 1>>>;
using list = concat<types<pair_<nda::shape<>, nda::shape<>>>, xpairs<l1, l1>::type, xpairs<l2, l2>::type, xpairs<l3, l3>::type, types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<nda::chunky_image_shape<>, nda::planar_image_shape>>>::type;
#ifdef RANKED
using mixed4 = nda::shape<dim<>, dim<dynamic, 2>, dense_dim<>, dim<>>;
static register_all<ranked_<views, true>::body> rreg_views("ranked views", types<pair_<shape_of_rank<4>, shape_of_rank<4>>, pair_<mixed4, dense_shape<4>>, pair_<shape_of_rank<5>, dense_shape<5>>, pair_<dense_shape<6>, shape_of_rank<6>>, pair_<shape_of_rank<8>, shape_of_rank<8>>>());
static register_all<ranked_<arrays, true>::body> rreg_arrays("ranked arrays", types<pair_<shape_of_rank<4>, mixed4>, pair_<dense_shape<5>, shape_of_rank<5>>>());
static register_all<ranked_<same_type, true>::body> rreg_same("ranked same type", types<shape_of_rank<5>, dense_shape<6>>());
#else
static register_all<large_<views, 2>::body> lreg_views("large views", part<types<pair_<nda::shape<dim<>>, nda::shape<dim<>>>, pair_<dense_shape<1>, nda::shape<dim<>>>, pair_<dense_shape<1>, dense_shape<1>>, pair_<shape_of_rank<2>, dense_shape<2>>, pair_<dense_shape<2>, dense_shape<2>>, pair_<nda::matrix_shape<>, shape_of_rank<2>>, pair_<nda::chunky_image_shape<>, nda::planar_image_shape>, pair_<nda::fixed_dense_shape<100>, nda::shape<dim<>>>, pair_<nda::matrix_shape<33, 5>, nda::fixed_dense_shape<33, 5>>>>());
static register_all<large_<arrays, 2>::body> lreg_arrays("large arrays", part<types<pair_<nda::shape<dim<>>, dense_shape<1>>, pair_<dense_shape<2>, nda::matrix_shape<>>, pair_<nda::chunky_image_shape<>, dense_shape<3>>>>());
static register_all<views> reg_views("views", part<list>());
static register_all<arrays> reg_arrays("arrays", part<types<pair_<nda::shape<>, nda::shape<>>, pair_<nda::shape<dim<>>, dense_shape<1>>, pair_<nda::shape<dim<dynamic, 3>>, nda::shape<dim<>>>, pair_<shape_of_rank<2>, dense_shape<2>>, pair_<dense_shape<2>, nda::matrix_shape<>>, pair_<nda::matrix_shape<>, shape_of_rank<2>>, pair_<shape_of_rank<3>, nda::chunky_image_shape<2>>, pair_<nda::chunky_image_shape<>, dense_shape<3>>>>());
static register_all<same_type> reg_same("same type", part<types<nda::shape<dim<>>, dense_shape<1>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::shape<dim<>, dim<0, 2, 1>>, dense_shape<3>, nda::chunky_image_shape<2>>>());
#endif
// Elements decide their own equality: some differ from themselves, some are equal though their bytes differ.
struct own { int v; short junk; bool odd; bool operator==(const own& o) const { return v == o.v && !odd && !o.odd; } bool operator!=(const own& o) const { return !(*this == o); } };
template <class T> struct special;
template <> struct special<own> { static own plain(int k) { return own{k, (short)(k * 3), false}; } static own alike(int k) { return own{k, (short)(k * 3 + 1), false}; } static own odd(int k) { return own{k, (short)(k * 3), true}; } };
template <> struct special<double> { static double plain(int k) { return k * 0.0; } static double alike(int k) { return k * -0.0; } static double odd(int) { return __builtin_nan(""); } };
template <class S> struct elements {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha<S>());
    if (!c.mine()) return;
    if (R > 0 && !empty(r) && !injective(r)) return c.skip();
    go<own>(c, r); go<double>(c, r);
  }
  template <class T> static void go(ctx& c, const rshape& r) {
    using X = special<T>;
    const bool e = R > 0 && empty(r);
    span sp = e || R == 0 ? span{0, 0} : flat_span(r);
    std::vector<T> ma(sp.extent() + 2, X::odd(7)), mb(sp.extent() + 2, X::odd(8));
    T* ba = ma.data() + 1 - sp.lo; T* bb = mb.data() + 1 - sp.lo;
    S s = to_shape<S>(r);
    nda::array_ref<T, S> a(ba, s), b(bb, s); nda::const_array_ref<T, S> ca = a, cb = b;
    nda::array<T, S> oa(s), ob(s);
    auto set = [&](T* base, nda::array<T, S>& o, T (*f)(int)) { int k = 0; for_all(r, [&](const idx& i) { base[offset(r, i)] = f(++k); o[to_tuple<R>(i)] = f(k); }); };
    auto check = [&](bool self_a, bool self_b, bool ab, const char* what) {
      auto one = [&](bool got, bool w, const char* f) { if (got != w) mc::fail("views of %s: %s: %s is %d", str(r).c_str(), what, f, (int)got); };
      one(a == a, self_a, "view == itself"); one(a != a, !self_a, "view != itself"); one(nda::equal(a, a), self_a, "equal of a view and itself"); one(nda::equal(ca, a), self_a, "equal of a view and its const view"); one(ca == a, self_a, "const view == view");
      one(b == b, self_b, "other view == itself"); one(cb != cb, !self_b, "other view != itself");
      one(a == b, ab, "=="); one(a != b, !ab, "!="); one(b == a, ab, "== reversed"); one(ca == cb, ab, "== of const views"); one(nda::equal(a, b), ab, "equal"); one(nda::equal(cb, ca), ab, "equal of const views");
      one(oa == oa, self_a, "array == itself"); one(oa != oa, !self_a, "array != itself"); one(nda::equal(oa, oa), self_a, "equal of an array and itself"); one(oa == ob, ab, "array == array"); one(oa != ob, !ab, "array != array"); one(nda::equal(oa, ob), ab, "equal of arrays");
      one(nda::equal(oa, a), self_a, "equal of an array and a view of like elements"); one(nda::equal(oa, b), ab, "equal of an array and a view");
    };
    c.note("elements with their own equality, %s", str(r).c_str());
    set(ba, oa, X::plain); set(bb, ob, X::plain); check(true, true, true, "same elements");
    set(bb, ob, X::alike); check(true, true, true, "equal elements of different bytes");
    if (e) return;
    int n = 0;
    for_all(r, [&](const idx& i) {
      set(ba, oa, X::plain); set(bb, ob, X::plain);
      ba[offset(r, i)] = oa[to_tuple<R>(i)] = X::odd(n + 1); check(false, true, false, "one element not equal to itself");
      bb[offset(r, i)] = ob[to_tuple<R>(i)] = X::odd(n + 1); check(false, false, false, "one element not equal to itself in both");
      n++;
    });
    c.nontrivial(); for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
};
#ifndef RANKED
static register_all<elements> reg_elements("elements", part<concat<types<nda::shape<>>, l1, l2, l3, types<shape_of_rank<4>, shape_of_rank<5>, dense_shape<6>>>::type>());
#endif
// Elements of two types are compared as C++ compares them, after its conversions and in all their bits.
template <class TA, class TB> struct two_types {};
template <class T> struct two_types_;
template <class TA, class TB> struct two_types_<two_types<TA, TB>> {
  template <class T> static std::string tn() { std::string s = __PRETTY_FUNCTION__; auto p = s.find("T = "); auto e = s.find_first_of(";]", p); return s.substr(p + 4, e - p - 4); }
  static std::string name() { return tn<TA>() + " and " + tn<TB>(); }
  template <class T> static std::vector<T> pool() {
    static const long double v[] = {0, -0.0L, 1, -1, 2, 127, 128, 255, 256, 257, -128, 32767, 32768, 65535, 65536, 65537, 2147483647, 2147483648.L, -2147483648.L, 4294967295.L, 4294967296.L, 4294967297.L, 16777217, 9007199254740992.L, 9007199254740993.L, 0.5L, -0.5L, 0.1L, 1.25L};
    std::vector<T> r;
    for (long double x : v) {
      bool fits = std::is_floating_point<T>::value || (x >= (long double)std::numeric_limits<T>::lowest() && x <= (long double)std::numeric_limits<T>::max());
      if (fits) r.push_back((T)x);
    }
    if (std::is_floating_point<T>::value) { r.push_back(std::numeric_limits<T>::quiet_NaN()); r.push_back(std::numeric_limits<T>::infinity()); r.push_back((T)0.1f); r.push_back(std::numeric_limits<T>::denorm_min()); }
    return r;
  }
  template <class SA, class SB> static void go(const SA& sa, const SB& sb) {
    auto pa = pool<TA>(); auto pb = pool<TB>();
    nda::array<TA, SA> a(sa, TA(1)); nda::array<TB, SB> b(sb, TB(1));
    nda::const_array_ref<TA, SA> ca = a.cref(); nda::array_ref<TB, SB> vb = b.ref();
    std::vector<TA*> at; std::vector<TB*> bt; nda::for_each_index(sa, [&](const typename SA::index_type& i) { at.push_back(&a[i]); bt.push_back(&b[i]); });
    auto check = [&](bool want, size_t k, const char* x, const char* y) { bool g1 = nda::equal(a, b), g2 = nda::equal(b, a), g3 = nda::equal(ca, vb), g4 = nda::equal(b, ca); if (g1 != want || g2 != want || g3 != want || g4 != want) mc::fail("element %zu of %zu is %s and %s: equal is %d %d %d %d, expected %d", k, at.size(), x, y, (int)g1, (int)g2, (int)g3, (int)g4, (int)want); };
    check(true, 0, "1", "1");
    for (size_t k = 0; k < at.size(); k++) {
      for (TA x : pa) for (TB y : pb) { *at[k] = x; *bt[k] = y; check(!(x != y), k, std::to_string(x).c_str(), std::to_string(y).c_str()); }
      *at[k] = TA(1); *bt[k] = TB(1);
    }
  }
  static void run(ctx& c) {
    int k = (int)c.choose(9);
    if (!c.mine()) return;
    c.note("shapes %d", k);
    using v1 = nda::shape<dim<>>; using d1 = dense_shape<1>; using v2 = shape_of_rank<2>; using d2 = dense_shape<2>;
    switch (k) {
      case 0: go(d1(1), d1(1)); break;
      case 1: go(d1(9), d1(9)); break;
      case 2: go(v1(dim<>(-1, 5, 1)), d1(dense_dim<>(-1, 5))); break;
      case 3: go(v1(dim<>(0, 5, -1)), v1(dim<>(0, 5, 2))); break;
      case 4: go(d2(4, 3), d2(4, 3)); break;
      case 5: go(d2(2, 3), nda::matrix_shape<>(2, 3)); break;
      case 6: go(v2(2, dim<>(0, 3, 4)), d2(2, 3)); break;
      case 7: go(nda::fixed_dense_shape<3, 2>(), nda::fixed_dense_shape<3, 2>()); break;
      case 8: go(nda::shape<>(), nda::shape<>()); break;
    }
    c.nontrivial(); c.obs(k);
  }
};
#ifndef RANKED
template <class... T> struct pairs_of;
template <class L, class T> struct with_each; template <class... L, class T> struct with_each<types<L...>, T> { using type = types<two_types<T, L>...>; };
using number_types = types<bool, signed char, unsigned char, short, unsigned short, int, unsigned, long, float, double>;
template <class... T> struct pairs_of<types<T...>> { using type = typename concat<typename with_each<number_types, T>::type...>::type; };
static register_all<two_types_> reg_types("types", part<pairs_of<number_types>::type>());
#endif
// Views of the same memory at different places: equal only if the elements are.
template <class S> struct overlapping {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha<S>());
    long by = c.range(-2, 2), period = c.range(1, 3);
    if (!c.mine()) return;
    if (empty(r)) return c.skip();
    c.note("views of %s, %ld elements apart, memory of period %ld", str(r).c_str(), by, period);
    span sp = flat_span(r);
    std::vector<int> m(sp.extent() + 8); for (size_t k = 0; k < m.size(); k++) m[k] = (int)(k % period);
    int* base = m.data() + 4 - sp.lo;
    bool want = true; for_all(r, [&](const idx& i) { if (base[offset(r, i)] != base[offset(r, i) + by]) want = false; });
    nda::array_ref<int, S> a(base, to_shape<S>(r)), b(base + by, to_shape<S>(r));
    MC_CHECK((a == b) == want && (a != b) == !want && nda::equal(a, b) == want && nda::equal(b.cref(), a.cref()) == want, "expected %s", want ? "equal" : "different");
    c.nontrivial(); c.obs(by); c.obs(period); for (auto& d : r) { c.obs(d.extent); c.obs(d.stride); }
  }
};
#ifdef RANKED
static register_all<ranked_<overlapping, true>::body> rreg_overlapping("ranked overlapping", types<shape_of_rank<4>, dense_shape<6>>());
#else
static register_all<overlapping> reg_overlapping("overlapping", part<concat<l1, l2, l3>::type>());
#endif
