// C19, C20 for every kind of element, for operands of different types, and for expressions of nothing but arrays and scalars:
// the value of each destination element is what the same C++ expression gives, evaluated one index after the other.
#include "ref.h"
#include "array/ein_reduce.h"
#include "array/matrix.h"
#include <complex>
#include <cstdint>
#include <cstring>
#include <string>
using namespace ref;
using nda::dim; using nda::shape_of_rank; using nda::dense_shape;

// A type with its own arithmetic: no operator commutes, none is implied by another, products have a type of their own.
struct prod_ { unsigned h; };
struct nc {
  unsigned h;
  nc() : h(77) {} explicit nc(unsigned v) : h(v) {} nc(const prod_& p) : h(p.h ^ 0x5555) {}
  nc operator-() const { return nc(~h * 3); }
  nc& operator+=(const nc& o) { h = h * 5 + o.h * 3 + 1; return *this; }
  nc& operator+=(const prod_& o) { h = h * 7 + o.h * 11 + 2; return *this; }
  nc& operator-=(const nc& o) { h = h * 13 - o.h + 5; return *this; }
  nc& operator*=(const nc& o) { h = h * 17 ^ o.h; return *this; }
};
static nc operator+(const nc& a, const nc& b) { return nc(a.h * 19 + b.h * 23); }
static nc operator-(const nc& a, const nc& b) { return nc(a.h * 29 - b.h * 31); }
static prod_ operator*(const nc& a, const nc& b) { return prod_{a.h * 37 ^ b.h * 41}; }
static nc operator/(const nc& a, const nc& b) { return nc(a.h * 43 + (b.h ^ 9)); }
static bool operator<(const nc& a, const nc& b) { return a.h < b.h; }
// A plain type of a product that is wider than its factors.
struct wide_ { int v; };
struct acc_ { long v; acc_& operator+=(const wide_& w) { v = v * 3 + w.v; return *this; } };
static wide_ operator*(const nc& a, const signed char& b) { return wide_{(int)(a.h & 0xffff) * b}; }

// make(k, special): the k-th value; special ones include zeros of both signs, infinities and not-a-number.
template <class T> struct ev { static T make(int k, bool) { return std::is_floating_point<T>::value ? T(k % 2 ? -1 : 1) * T(0.1L * ((k * 37) % 101)) : T((k * 37) % 101 - (std::is_signed<T>::value ? 50 : 0)); } };
template <> struct ev<bool> { static bool make(int k, bool) { return k * 7 / 3 & 1; } };
template <> struct ev<signed char> { static signed char make(int k, bool) { return (signed char)(k * 53); } };
template <> struct ev<unsigned char> { static unsigned char make(int k, bool) { return (unsigned char)(k * 53); } };
template <> struct ev<unsigned> { static unsigned make(int k, bool) { return k % 3 ? 0xfffffff0u + (unsigned)k : (unsigned)k * 2654435761u; } };
template <> struct ev<long> { static long make(int k, bool) { return k % 4 == 0 ? (long)k * 0x1ffffffffl : (long)(k % 100) - 50; } };
template <class T> static T special_float(int k, bool special) {
  if (special) switch (k % 13) { case 3: return T(0); case 5: return T(-0.0); case 7: return std::numeric_limits<T>::infinity(); case 9: return std::numeric_limits<T>::quiet_NaN(); case 11: return std::numeric_limits<T>::denorm_min() * T(k); case 12: return std::numeric_limits<T>::max(); }
  return (k % 2 ? T(-1) : T(1)) * T(0.1) * T((k * 37) % 101) + (k % 5 == 4 ? T(1e6) : T(0));
}
template <> struct ev<float> { static float make(int k, bool s) { return special_float<float>(k, s); } };
template <> struct ev<double> { static double make(int k, bool s) { return special_float<double>(k, s); } };
template <> struct ev<std::complex<float>> { static std::complex<float> make(int k, bool s) { return {ev<float>::make(k, s), ev<float>::make(k * 3 + 1, false)}; } };
template <> struct ev<nc> { static nc make(int k, bool) { return nc((unsigned)k * 2654435761u); } };
template <> struct ev<acc_> { static acc_ make(int k, bool) { return acc_{k * 7}; } };
template <> struct ev<std::string> { static std::string make(int k, bool) { return k % 4 ? std::string(1, (char)('a' + k % 26)) : std::to_string(k); } };
template <class T> static bool same(const T& a, const T& b) { return a == b; }
template <class T> static bool same_float(T a, T b) { return a != a ? b != b : a == b && std::signbit(a) == std::signbit(b); }
static bool same(const float& a, const float& b) { return same_float(a, b); }
static bool same(const double& a, const double& b) { return same_float(a, b); }
static bool same(const long double& a, const long double& b) { return same_float(a, b); }
static bool same(const std::complex<float>& a, const std::complex<float>& b) { return same_float(a.real(), b.real()) && same_float(a.imag(), b.imag()); }
static bool same(const nc& a, const nc& b) { return a.h == b.h; }
static bool same(const acc_& a, const acc_& b) { return a.v == b.v; }
static bool same(const bool& a, const bool& b) { unsigned char x, y; memcpy(&x, &a, 1); memcpy(&y, &b, 1); return x == y; }
template <class T> static auto text(const T& x) -> decltype(std::to_string(x)) { return std::to_string(x); }
static std::string text(const nc& x) { return std::to_string(x.h); }
static std::string text(const acc_& x) { return std::to_string(x.v); }
static std::string text(const std::string& x) { return x; }
static std::string text(const std::complex<float>& x) { return std::to_string(x.real()) + "," + std::to_string(x.imag()); }
template <class T> std::string type_name() { std::string s = __PRETTY_FUNCTION__; auto p = s.find("T = "); auto e = s.find_first_of(";]", p); return s.substr(p + 4, e - p - 4); }

// ---- expressions: the same text for the library (L) and for plain values (P)
struct L { template <class T, class A> static auto cast(const A& a) { return nda::cast<T>(a); } template <class A, class B> static auto mn(const A& a, const B& b) { return nda::min(a, b); } template <class A, class B> static auto mx(const A& a, const B& b) { return nda::max(a, b); } };
struct P { template <class T, class A> static T cast(const A& a) { return static_cast<T>(a); } template <class A> static A mn(const A& a, const A& b) { return b < a ? b : a; } template <class A> static A mx(const A& a, const A& b) { return a < b ? b : a; } };
#define EX(NAME, SPECIAL, BODY) \
  struct NAME { static const char* name() { return #BODY; } static constexpr bool special = SPECIAL; \
    template <class C, class D, class A, class B> static auto val(const D& d, const A& a, const B& b) { (void)d; (void)a; (void)b; return BODY; } };
EX(x_a, true, a)
EX(x_neg, true, -a)
EX(x_mul, true, a * b)
EX(x_add, true, a + b)
EX(x_sub, true, a - b)
EX(x_div, true, a / b)
EX(x_min, false, C::mn(a, b))
EX(x_max, false, C::mx(a, b))
EX(x_dmax, false, C::mx(d, a))
EX(x_horner, true, d * b + a)
EX(x_dsub, true, d - a)
EX(x_cast, false, C::template cast<int>(a) * C::template cast<int>(b))
EX(x_castd, false, C::template cast<double>(a) / b)
EX(x_castc, false, C::template cast<signed char>(a * b))
EX(x_castb, true, C::template cast<bool>(a))
EX(x_mulself, true, a * a)
EX(x_mix, true, (a - b) * (b + a))
EX(x_addadd, true, a + b + a)
EX(x_muladd, true, a * b + b)
#define AS(NAME, OP) struct NAME { static const char* name() { return #OP; } template <class D, class V> static auto expr(const D& d, const V& v) { return d OP v; } template <class D, class V> static void apply(D& d, const V& v) { d OP v; } };
AS(set_, =) AS(add_, +=) AS(sub_, -=) AS(mul_, *=)

// ---- operands
template <size_t... I> struct ix { static constexpr size_t R = sizeof...(I); static std::vector<int> list() { return {(int)I...}; }
  template <class X> static auto ein(X&& x) { return nda::ein<I...>(std::forward<X>(x)); }
  template <class T, class E> static auto sum(const E& e) { return nda::make_ein_sum<T, I...>(e); }
  template <class T, class E> static auto sum(const E& e, const T& init) { return nda::make_ein_sum<T, I...>(e, init); } };
enum how { VIEW, CVIEW, DENSE, CDENSE, RAW, SCALAR, CSCALAR };
template <class T, class Ix, how H> struct operand {
  static constexpr size_t R = Ix::R;
  using S = std::conditional_t<H == DENSE || H == CDENSE, dense_shape<R>, std::conditional_t<H == RAW, nda::shape<dim<0, nda::dynamic, 1>>, shape_of_rank<R>>>;
  rshape r; long n = 0, origin = 0; std::unique_ptr<T[]> mem, want; std::unique_ptr<nda::array<T, S>> arr;
  static constexpr int layouts(bool dst) { return H == DENSE || H == CDENSE || H == RAW || R == 0 ? 1 : dst ? 3 : 4; }
  void make(const rshape& box, int layout, int seed, bool special, bool zero_free) {
    r = box; long next = 1;
    for (size_t k = 0; k < R; k++) {
      size_t q = layout == 1 || layout == 2 ? R - 1 - k : k;
      if (layout == 3 && q == 0) { r[q].stride = 0; continue; }
      if (layout == 1 || layout == 2) next += 1;
      r[q].stride = layout == 2 ? -next : next; next *= std::max(1l, r[q].extent);
    }
    span f = r.empty() || ref::empty(r) ? span{0, 0} : flat_span(r);
    n = f.hi - f.lo + 1 + 6; origin = 3 - f.lo; mem.reset(new T[n]); want.reset(new T[n]);
    for (long k = 0; k < n; k++) { T x = ev<T>::make((int)k + seed, special); if (zero_free) for (int t = 1; same(x, T()) || zero(x); t++) x = ev<T>::make((int)k + seed + t, special); mem[k] = x; want[k] = x; }
    if (H == DENSE || H == CDENSE) { arr.reset(new nda::array<T, S>(to_shape<S>(r))); loop(r, [&](const idx& i) { arr->base()[offset(r, i)] = mem[origin + offset(r, i)]; }); }
  }
  template <class U> static auto zero(const U& x) -> decltype(x == U(0)) { return x == U(0); }
  static bool zero(const nc&) { return false; } static bool zero(const acc_&) { return false; } static bool zero(const std::string&) { return false; }
  template <class F> static void loop(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
  static idx select(const idx& l) { idx q; for (int k : Ix::list()) q.push_back(l[(size_t)k]); return q; }
  T& model(const idx& l) { return want[origin + offset(r, select(l))]; }
  void check(const char* what) const {
    for (long k = 0; k < n; k++) if (!arr && !same(mem[k], want[k])) mc::fail("%s: flat offset %ld is %s, expected %s", what, k - origin, text(mem[k]).c_str(), text(want[k]).c_str());
    if (arr) loop(r, [&](const idx& i) { const T& g = arr->base()[offset(r, i)]; const T& w = want[origin + offset(r, i)]; if (!same(g, w)) mc::fail("%s: element %s is %s, expected %s", what, str(i).c_str(), text(g).c_str(), text(w).c_str()); });
  }
  template <how K> using tag = std::integral_constant<int, K>;
  T* base() { return mem.get() + origin; }
  auto ein(tag<VIEW>) { return Ix::ein(nda::array_ref<T, S>(base(), to_shape<S>(r))); }
  auto ein(tag<CVIEW>) { return Ix::ein(nda::const_array_ref<T, S>(base(), to_shape<S>(r))); }
  auto ein(tag<DENSE>) { return Ix::ein(*arr); }
  auto ein(tag<CDENSE>) { return Ix::ein(const_cast<const nda::array<T, S>&>(*arr)); }
  template <size_t I> static auto raw(ix<I>, T* p, long e) { return nda::ein<I>(p, (size_t)e); }
  auto ein(tag<RAW>) { return raw(Ix(), base(), r[0].extent); }
  auto ein(tag<SCALAR>) { return nda::ein(*base()); }
  auto ein(tag<CSCALAR>) { const T& x = *base(); return nda::ein(x); }
  auto ein() { return ein(tag<H>()); }
};

// ---- loops
// N indices; D, A, B: which of them address the destination and the operands, and what these are
template <size_t N_, class D_, how HD_, class A_, how HA_, class B_, how HB_> struct pat { static constexpr size_t N = N_; using D = D_; using A = A_; using B = B_; static constexpr how HD = HD_, HA = HA_, HB = HB_;
  static std::string name() { std::string s; for (auto v : {D::list(), A::list(), B::list()}) { s += "/"; for (int k : v) s += std::to_string(k); } return s + " " + std::to_string(HD) + std::to_string(HA) + std::to_string(HB); } };
inline rshape pick_loops(ctx& c, size_t n, bool from_zero) {
  rshape b; bool th = mc::thorough();
  if (n == 1) { long m = from_zero ? 0 : c.pick({0l, -2l}); b = {rd{m, c.pick(th ? std::vector<long>{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65} : std::vector<long>{0, 1, 2, 3, 5, 8, 17, 33, 64, 129}), 0}}; }
  else {
    static const std::vector<std::vector<long>> e2{{2, 3}, {3, 2}, {0, 2}, {2, 0}, {1, 4}, {4, 1}, {9, 3}, {3, 17}, {4, 4}}, e3{{2, 3, 4}, {4, 3, 2}, {1, 2, 3}, {3, 1, 2}, {3, 2, 1}, {0, 2, 2}, {2, 0, 2}, {2, 2, 0}, {5, 2, 9}, {2, 9, 2}, {4, 4, 4}};
    const auto& e = n == 2 ? e2 : e3; const auto& x = e[(size_t)c.choose((int)e.size())];
    long m = from_zero ? 0 : c.pick({0l, -2l});
    for (size_t k = 0; k < n; k++) b.push_back(rd{m + (m ? (long)k : 0), x[k], 0});
  }
  return b;
}
template <class Ix> rshape box_of(const rshape& loops) { rshape r; for (int k : Ix::list()) r.push_back(rd{loops[(size_t)k].min, loops[(size_t)k].extent, 0}); return r; }
template <class X, class As, class TD, class TA, class TB, class Pt> struct cfg {};
template <class C> struct body;
template <class X, class As, class TD, class TA, class TB, class Pt> struct body<cfg<X, As, TD, TA, TB, Pt>> {
  static constexpr bool divides = std::is_same<X, x_div>::value || std::is_same<X, x_castd>::value, integral = std::is_integral<TB>::value;
  static std::string name() { return std::string("d ") + As::name() + " " + X::name() + " <" + type_name<TD>() + ", " + type_name<TA>() + ", " + type_name<TB>() + ">" + Pt::name(); }
  static void run(ctx& c) {
    using D = operand<TD, typename Pt::D, Pt::HD>; using A = operand<TA, typename Pt::A, Pt::HA>; using B = operand<TB, typename Pt::B, Pt::HB>;
    rshape loops = pick_loops(c, Pt::N, Pt::HA == RAW || Pt::HB == RAW || Pt::HD == RAW);
    int ld = c.choose(D::layouts(true)), la = c.choose(A::layouts(false)), lb = c.choose(B::layouts(false));
    bool special = X::special && (std::is_floating_point<TD>::value || std::is_same<TD, std::complex<float>>::value) && std::is_same<TD, TA>::value && std::is_same<TA, TB>::value && c.flip();
    if (!c.mine()) return;
    A a; B b; a.make(box_of<typename Pt::A>(loops), la, 5, special, false); b.make(box_of<typename Pt::B>(loops), lb, 40, special, divides && integral);
    c.note("loops %s, layouts %d %d %d%s", str(loops).c_str(), ld, la, lb, special ? ", special values" : "");
    for (auto& l : loops) { c.obs(l.min); c.obs(l.extent); } c.obs(ld * 100 + la * 10 + lb);
    long total = 1; for (auto& l : loops) total *= l.extent;
#if PROP == 19
    D d; d.make(box_of<typename Pt::D>(loops), ld, 90, special, false);
    nda::ein_reduce([&] { auto de = d.ein(); return As::expr(de, X::template val<L>(de, a.ein(), b.ein())); }());
    if (total) each(loops, [&](const idx& i) { TD& t = d.model(i); As::apply(t, X::template val<P>(t, a.want[a.origin + offset(a.r, A::select(i))], b.want[b.origin + offset(b.r, B::select(i))])); });
    d.check("destination");
#else
    if (ld) return c.discard();
    D d;
    for (int k = 0; k < 2; k++) {
      const TD init = k ? ev<TD>::make(17, false) : TD();
      d.make(box_of<typename Pt::D>(loops), 0, 90, false, false);
      D::loop(d.r, [&](const idx& i) { d.want[d.origin + offset(d.r, i)] = init; });
      auto e = [&] { return X::template val<L>(0, a.ein(), b.ein()); }();
      auto g = k ? Pt::D::template sum<TD>(e, init) : Pt::D::template sum<TD>(e);
      static_assert(std::is_same<typename decltype(g)::value_type, TD>::value, "");
      if (total) each(loops, [&](const idx& i) { As::apply(d.model(i), X::template val<P>(0, a.want[a.origin + offset(a.r, A::select(i))], b.want[b.origin + offset(b.r, B::select(i))])); });
      rshape q = from_shape(g.shape());
      for (size_t n = 0; n < q.size(); n++) MC_CHECK(q[n].min == d.r[n].min && q[n].extent == d.r[n].extent, "bounds of dimension %zu", n);
      D::loop(d.r, [&](const idx& i) { const TD& x = g[to_tuple<D::R>(i)]; const TD& w = d.want[d.origin + offset(d.r, i)]; if (!same(x, w)) mc::fail("element %s is %s, expected %s", str(i).c_str(), text(x).c_str(), text(w).c_str()); });
    }
#endif
    a.check("operand a"); b.check("operand b");
    if (total) c.nontrivial();
  }
};

// ---- what is crossed with what
template <class X, class As> struct xa {};
template <class TD, class TA = TD, class TB = TA> struct ty {};
template <class E, class T, class Pt> struct mk;
template <class X, class As, class TD, class TA, class TB, class Pt> struct mk<xa<X, As>, ty<TD, TA, TB>, Pt> { using type = cfg<X, As, TD, TA, TB, Pt>; };
template <class T, class Pt, class... E> struct row { using type = types<typename mk<E, T, Pt>::type...>; };
template <class Es, class Ts, class Ps> struct crossx;
template <class Es, class Ps> struct crossx<Es, types<>, Ps> { using type = types<>; };
template <class Es, class T, class Ps> struct crossx1;
template <class... E, class T, class... Pt> struct crossx1<types<E...>, T, types<Pt...>> { using type = typename concat<typename row<T, Pt, E...>::type...>::type; };
template <class Es, class T0, class... T, class Ps> struct crossx<Es, types<T0, T...>, Ps> { using type = typename concat<typename crossx1<Es, T0, Ps>::type, typename crossx<Es, types<T...>, Ps>::type>::type; };
using cf = std::complex<float>;
using i_ = ix<0>; using j_ = ix<1>; using ij = ix<0, 1>; using ji = ix<1, 0>; using n_ = ix<>;
using elementwise = pat<1, i_, VIEW, i_, VIEW, i_, CVIEW>;
using elementwise_dense = pat<1, i_, DENSE, i_, CDENSE, i_, DENSE>;
using dot_ = pat<1, n_, SCALAR, i_, VIEW, i_, VIEW>;
using dot_dense = pat<1, n_, SCALAR, i_, DENSE, i_, CDENSE>;
using dot_raw = pat<1, n_, SCALAR, i_, RAW, i_, RAW>;
using raw_ = pat<1, i_, RAW, i_, RAW, i_, RAW>;
using scale_ = pat<1, i_, VIEW, i_, VIEW, n_, CSCALAR>;
using scale_dense = pat<1, i_, DENSE, n_, SCALAR, i_, DENSE>;
using total_dense = pat<2, n_, VIEW, ij, DENSE, ij, DENSE>;
using matvec = pat<2, i_, VIEW, ij, VIEW, j_, VIEW>;
using matvec_dense = pat<2, i_, DENSE, ij, DENSE, j_, CDENSE>;
using columns_dense = pat<2, j_, DENSE, ij, DENSE, i_, DENSE>;
using outer_ = pat<2, ij, VIEW, i_, VIEW, j_, VIEW>;
using outer_dense = pat<2, ji, DENSE, i_, DENSE, j_, DENSE>;
using transpose_ = pat<2, ij, DENSE, ji, DENSE, ij, DENSE>;
using planes = pat<2, ij, VIEW, ij, VIEW, ij, VIEW>;
using planes_dense = pat<2, ij, DENSE, ij, DENSE, ij, DENSE>;
using matmul = pat<3, ij, VIEW, ix<0, 2>, VIEW, ix<2, 1>, VIEW>;
using matmul_dense = pat<3, ij, DENSE, ix<0, 2>, DENSE, ix<2, 1>, CDENSE>;
using matmul_inner = pat<3, ix<2, 1>, DENSE, ix<2, 0>, DENSE, ix<0, 1>, DENSE>;
using volume_dense = pat<3, ix<0>, DENSE, ix<0, 1, 2>, DENSE, ix<1, 2>, DENSE>;
using numbers = types<ty<bool>, ty<signed char>, ty<unsigned char>, ty<short>, ty<unsigned>, ty<int>, ty<long>, ty<float>, ty<double>, ty<long double>>;
using mixed = types<ty<int, signed char>, ty<signed char, int>, ty<int, unsigned char, signed char>, ty<long, int, short>, ty<unsigned, int, signed char>, ty<double, float, int>, ty<float, short, double>, ty<short, unsigned char, bool>, ty<double, double, float>, ty<long, unsigned, int>, ty<bool, int>>;
#if PROP == 19
#define IF19(...) __VA_ARGS__,
using sums_ = types<xa<x_mul, add_>, xa<x_add, sub_>, xa<x_a, set_>>;
using all_x = types<xa<x_a, set_>, xa<x_a, add_>, xa<x_a, sub_>, xa<x_a, mul_>, xa<x_neg, set_>, xa<x_neg, add_>, xa<x_mul, add_>, xa<x_mul, sub_>, xa<x_add, set_>, xa<x_sub, add_>, xa<x_div, set_>, xa<x_min, set_>, xa<x_max, add_>, xa<x_dmax, set_>, xa<x_horner, set_>, xa<x_dsub, set_>, xa<x_cast, add_>, xa<x_castd, set_>, xa<x_castc, sub_>, xa<x_castb, add_>, xa<x_mulself, add_>, xa<x_mix, sub_>, xa<x_muladd, set_>>;
using mixed_x = types<xa<x_a, set_>, xa<x_a, add_>, xa<x_mul, add_>, xa<x_mul, set_>, xa<x_sub, set_>, xa<x_add, sub_>, xa<x_div, add_>, xa<x_neg, add_>, xa<x_cast, add_>, xa<x_castd, sub_>, xa<x_muladd, set_>, xa<x_a, mul_>>;
using cplx_x = types<xa<x_a, set_>, xa<x_a, sub_>, xa<x_a, mul_>, xa<x_neg, set_>, xa<x_mul, add_>, xa<x_add, set_>, xa<x_div, set_>, xa<x_mix, add_>, xa<x_horner, set_>>;
using nc_x = types<xa<x_a, set_>, xa<x_a, add_>, xa<x_a, sub_>, xa<x_a, mul_>, xa<x_neg, set_>, xa<x_neg, add_>, xa<x_mul, add_>, xa<x_mul, set_>, xa<x_add, set_>, xa<x_add, add_>, xa<x_sub, mul_>, xa<x_div, sub_>, xa<x_min, set_>, xa<x_dmax, set_>, xa<x_dsub, set_>, xa<x_mulself, add_>, xa<x_addadd, sub_>>;
using str_x = types<xa<x_a, set_>, xa<x_a, add_>, xa<x_add, add_>, xa<x_addadd, set_>>;
using acc_x = types<xa<x_mul, add_>>;
#else
#define IF19(...)
using sums_ = types<xa<x_mul, add_>, xa<x_sub, add_>>;
using all_x = types<xa<x_a, add_>, xa<x_neg, add_>, xa<x_mul, add_>, xa<x_add, add_>, xa<x_sub, add_>, xa<x_div, add_>, xa<x_min, add_>, xa<x_max, add_>, xa<x_cast, add_>, xa<x_castd, add_>, xa<x_castc, add_>, xa<x_castb, add_>, xa<x_mulself, add_>, xa<x_mix, add_>>;
using mixed_x = types<xa<x_a, add_>, xa<x_mul, add_>, xa<x_sub, add_>, xa<x_div, add_>, xa<x_cast, add_>, xa<x_muladd, add_>>;
using cplx_x = types<xa<x_a, add_>, xa<x_neg, add_>, xa<x_mul, add_>, xa<x_mix, add_>>;
using nc_x = types<xa<x_a, add_>, xa<x_neg, add_>, xa<x_mul, add_>, xa<x_add, add_>, xa<x_div, add_>, xa<x_min, add_>, xa<x_mulself, add_>>;
using str_x = types<xa<x_a, add_>, xa<x_add, add_>>;
using acc_x = types<xa<x_mul, add_>>;
#endif
using sets = concat<
  crossx<all_x, numbers, types<dot_dense, elementwise_dense>>::type,
  crossx<sums_, numbers, types<dot_raw, raw_, scale_dense, total_dense, columns_dense, outer_dense, planes_dense>>::type,
  crossx<types<xa<x_mul, add_>>, types<ty<nc>, ty<cf>>, types<matmul_dense, matmul_inner>>::type,
  crossx<sums_, types<ty<float>, ty<int>, ty<unsigned char>>, types<dot_, elementwise, scale_, matvec, outer_, transpose_, planes, matmul, matmul_dense, matmul_inner, volume_dense, matvec_dense>>::type,
  crossx<mixed_x, mixed, types<dot_dense, elementwise_dense, matvec_dense>>::type,
  crossx<sums_, types<ty<int, signed char>, ty<double, float>>, types<dot_, scale_, matmul_dense>>::type,
  crossx<cplx_x, types<ty<cf>>, types<dot_, elementwise_dense, IF19(matmul_dense) scale_>>::type,
  crossx<nc_x, types<ty<nc>>, types<dot_, dot_dense, elementwise, scale_, IF19(scale_dense) matvec, IF19(matmul_dense) columns_dense>>::type,
  crossx<str_x, types<ty<std::string>>, types<dot_, elementwise_dense, columns_dense, matvec>>::type,
  crossx<acc_x, types<ty<acc_, nc, signed char>>, types<dot_dense, matvec>>::type>::type;
#if PROP == 19
// The operands share memory with the destination: what an iteration reads is what the iterations before it wrote.
template <class X, class As, class T, class Pt> struct shared {};
template <class C> struct alias;
template <class X, class As, class T, class Pt> struct alias<shared<X, As, T, Pt>> {
  static std::string name() { return std::string("d ") + As::name() + " " + X::name() + " <" + type_name<T>() + ">" + Pt::name(); }
  template <class Ix> static nda::array_ref<T, shape_of_rank<Ix::R>> view(T* base, const rshape& r) { return {base, to_shape<shape_of_rank<Ix::R>>(r)}; }
  template <class Ix> static rshape layout(ctx& c, const rshape& loops, bool dst) {
    rshape r = box_of<Ix>(loops);
    if (Ix::R == 1) { r[0].stride = dst ? c.pick({1l, -1l, 2l}) : c.pick({1l, -1l, 2l, 0l}); }
    else if (Ix::R == 2) { static const long st[][2] = {{1, 3}, {3, 1}, {-1, 4}, {0, 3}, {1, 0}, {-4, 1}}; int k = c.choose(dst ? 3 : 6); r[0].stride = st[k][0]; r[1].stride = st[k][1]; }
    return r;
  }
  static void run(ctx& c) {
    rshape loops;
    if (Pt::N == 1) { long m = c.pick({0l, -2l}); loops = {rd{m, c.pick({1l, 2l, 3l, 5l, 9l}), 0}}; }
    else { static const long e[][2] = {{2, 3}, {3, 2}, {3, 3}}; int k = c.choose(3); loops = {rd{0, e[k][0], 0}, rd{0, e[k][1], 0}}; }
    rshape d = layout<typename Pt::D>(c, loops, true), a = layout<typename Pt::A>(c, loops, false), b = layout<typename Pt::B>(c, loops, false);
    if (!d.empty() && !injective(d)) c.discard();
    long oa = c.range(-2, 2), ob = Pt::B::R == 0 ? c.range(0, 2) : c.pick({0l, -1l});
    if (!c.mine()) return;
    c.note("loops %s, destination %s, a %s + %ld, b %s + %ld", str(loops).c_str(), str(d).c_str(), str(a).c_str(), oa, str(b).c_str(), ob);
    std::unique_ptr<T[]> mem(new T[120]), want(new T[120]);
    for (int k = 0; k < 120; k++) want[k] = mem[k] = ev<T>::make(k, false);
    T* m = mem.get() + 60; T* w = want.get() + 60;
    auto de = Pt::D::ein(view<typename Pt::D>(m, d));
    nda::ein_reduce([&] { return As::expr(de, X::template val<L>(de, Pt::A::ein(view<typename Pt::A>(m + oa, a)), Pt::B::ein(view<typename Pt::B>(m + ob, b)))); }());
    auto at = [&](const rshape& r, const std::vector<int>& l, const idx& i) { idx q; for (int k : l) q.push_back(i[(size_t)k]); return offset(r, q); };
    each(loops, [&](const idx& i) { T& t = w[at(d, Pt::D::list(), i)]; As::apply(t, X::template val<P>(t, w[oa + at(a, Pt::A::list(), i)], w[ob + at(b, Pt::B::list(), i)])); });
    for (int k = 0; k < 120; k++) if (!same(mem[k], want[k])) mc::fail("flat offset %d is %s, expected %s", k - 60, text(mem[k]).c_str(), text(want[k]).c_str());
    for (auto* r : {&loops, &d, &a, &b}) for (auto& x : *r) { c.obs(x.min); c.obs(x.extent); c.obs(x.stride); } c.obs(oa); c.obs(ob);
    c.nontrivial();
  }
};
template <class X, class As, class T> using both = types<shared<X, As, T, pat<1, i_, VIEW, i_, VIEW, i_, VIEW>>, shared<X, As, T, pat<1, n_, VIEW, i_, VIEW, n_, VIEW>>, shared<X, As, T, pat<1, i_, VIEW, n_, VIEW, i_, VIEW>>, shared<X, As, T, pat<2, ij, VIEW, ij, VIEW, n_, VIEW>>, shared<X, As, T, pat<2, i_, VIEW, ij, VIEW, j_, VIEW>>, shared<X, As, T, pat<2, ij, VIEW, i_, VIEW, j_, VIEW>>>;
template <class T> using aliases = concat<both<x_a, set_, T>, both<x_a, add_, T>, both<x_mul, add_, T>, both<x_sub, set_, T>, both<x_dsub, set_, T>>;
static register_all<alias> areg("shared", part<concat<aliases<unsigned>::type, aliases<float>::type, aliases<nc>::type, aliases<unsigned char>::type>::type>());
#endif
static register_all<body> reg("element", part<sets>());
