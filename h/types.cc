// C05, C06, C10, C16 for every kind of element: what is stored must not depend on the size, the alignment or the triviality of the element type.
#include "ref.h"
#include "array/image.h"
#include "array/matrix.h"
#include <complex>
#include <cstdint>
#include <cstring>
#include <string>
using namespace ref;

// ---- element kinds: make(k), code(x): what is observable of x
struct three { unsigned char b[3]; };
struct padded { char a; int b; };
struct alignas(16) wide { int a, b; };
struct alignas(32) over { char a; };
struct big { int v[19]; };
enum class colour : unsigned char { none = 0 };
struct seven { int v = 7; };                                        // trivially copyable, its default is not zero
struct kept { int v = 3, own = 11; kept() = default; kept(int k) : v(k) {} kept(const kept& o) : v(o.v), own(o.own) {} kept& operator=(const kept& o) { v = o.v; own++; return *this; } };  // an assignment keeps and changes a part of the target
struct refd { const void* self; int v; refd() : self(this), v(0) {} refd(int k) : self(this), v(k) {} refd(const refd& o) : self(this), v(o.v) {} refd& operator=(const refd& o) { v = o.v; return *this; } };  // knows its own address
struct some { int m, n; };
using memptr = int some::*;                                         // its null is not all zeros
inline bool& plain() { static bool p = false; return p; }  // only ordinary values: for conversions
template <class T> struct et { static T make(int k) { return T(k); } static long code(const T& x) { return (long)x; } };
template <> struct et<bool> { static bool make(int k) { return (k * 7 / 3) & 1; } static long code(const bool& x) { unsigned char c; memcpy(&c, &x, 1); return c; } };
template <class T, class I> struct et_float {
  static T make(int k) {  // -0.0, infinities, NaNs with payload and denormals among ordinary values
    if (plain()) return T(k % 1000) + T(0.5);
    if (k % 11 == 5) return T(-0.0);
    if (k % 11 == 7) { I b; T v = std::numeric_limits<T>::quiet_NaN(); memcpy(&b, &v, sizeof b); b |= (I)(k & 0xff); memcpy(&v, &b, sizeof v); return v; }
    if (k % 11 == 9) return std::numeric_limits<T>::denorm_min() * T(k);
    if (k % 11 == 10) return k % 2 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::max();
    return T(k) + T(0.5);
  }
  static long code(const T& x) { I b; memcpy(&b, &x, sizeof b); return (long)b; }
};
template <> struct et<float> : et_float<float, uint32_t> {};
template <> struct et<double> : et_float<double, uint64_t> {};
template <> struct et<long double> { static long double make(int k) { return k + 0.25L; } static long code(const long double& x) { return (long)(x * 8); } };
template <> struct et<std::complex<float>> { static std::complex<float> make(int k) { return {k + 0.5f, -3.f * k}; } static long code(const std::complex<float>& x) { return (long)(x.real() * 2) * 100003 + (long)x.imag(); } };
template <> struct et<three> { static three make(int k) { return three{{(unsigned char)k, (unsigned char)(k >> 8), (unsigned char)(k * 31)}}; } static long code(const three& x) { return x.b[0] | x.b[1] << 8 | x.b[2] << 16; } };
template <> struct et<padded> { static padded make(int k) { return padded{(char)(k * 3), k}; } static long code(const padded& x) { return x.a * 1000003l + x.b; } };
template <> struct et<wide> { static wide make(int k) { return wide{k, -k}; } static long code(const wide& x) { return x.a * 1000003l + x.b; } };
template <> struct et<over> { static over make(int k) { return over{(char)k}; } static long code(const over& x) { return x.a; } };
template <> struct et<big> { static big make(int k) { big b; for (int i = 0; i < 19; i++) b.v[i] = k * 20 + i; return b; } static long code(const big& x) { long h = 0; for (int i = 0; i < 19; i++) h = h * 31 + x.v[i]; return h; } };
template <> struct et<colour> { static colour make(int k) { return (colour)(k * 5); } static long code(const colour& x) { return (long)x; } };
template <> struct et<seven> { static seven make(int k) { seven s; s.v = k; return s; } static long code(const seven& x) { return x.v; } };
template <> struct et<kept> { static kept make(int k) { kept x(k); x.own = k % 97 * 10; return x; } static long code(const kept& x) { return x.v * 100003l + x.own; } };
template <> struct et<refd> { static refd make(int k) { return refd(k); } static long code(const refd& x) { return x.self == &x ? x.v : -999999; } };
template <> struct et<memptr> { static memptr make(int k) { return k % 3 == 0 ? &some::m : k % 3 == 1 ? &some::n : nullptr; } static long code(const memptr& x) { return x == &some::m ? 1 : x == &some::n ? 2 : x == nullptr ? 0 : -1; } };
template <> struct et<const char*> { static const char* text() { static char t[70000]; if (!t[1]) for (int i = 0; i < 69999; i++) t[i] = (char)('a' + i * 7 % 26); return t; } static const char* make(int k) { return k % 13 == 6 && !plain() ? nullptr : text() + (unsigned)k % 69990u; } static long code(const char* const& x) { return x ? x - text() : -5; } };
template <> struct et<std::string> { static std::string make(int k) { return k % 3 ? std::to_string(k) : std::string(20 + (unsigned)k % 7, 'x') + std::to_string(k); } static long code(const std::string& x) { long h = (long)x.size(); for (char c : x) h = h * 131 + c; return h; } };
template <> struct et<std::unique_ptr<int>> { static std::unique_ptr<int> make(int k) { return std::unique_ptr<int>(new int(k)); } static long code(const std::unique_ptr<int>& x) { return x ? *x : -777; } };
template <> struct et<std::shared_ptr<int>> { static std::shared_ptr<int> make(int k) { return std::make_shared<int>(k); } static long code(const std::shared_ptr<int>& x) { return x ? *x * 100l + x.use_count() : -777; } };

template <class T> constexpr bool copyable() { return std::is_copy_constructible<T>::value; }
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
static span span_of(const rshape& r) { return r.empty() || ref::empty(r) ? span{0, 0} : flat_span(r); }

// A buffer of elements with a model of what is observable of each.
template <class T> struct buf {
  T* mem; long n, origin; std::vector<long> want; void* raw;
  buf(const rshape& r, long pad, int first) {
    span f = span_of(r); n = f.hi - f.lo + 1 + 2 * pad; origin = pad - f.lo;
    raw = ::malloc((size_t)n * sizeof(T) + 64); mem = (T*)(((uintptr_t)raw + 63) / 64 * 64);
    for (long i = 0; i < n; i++) { new (mem + i) T(et<T>::make(first + (int)i)); want.push_back(et<T>::code(mem[i])); }
  }
  buf(const buf&) = delete;
  ~buf() { for (long i = 0; i < n; i++) mem[i].~T(); ::free(raw); }
  T* base() { return mem + origin; }
  T& at(long off) { return mem[origin + off]; }
  long& model(long off) { return want.at((size_t)(origin + off)); }
  void check(const char* what) { for (long i = 0; i < n; i++) if (et<T>::code(mem[i]) != want[(size_t)i]) mc::fail("%s: the element at flat offset %ld is %ld, expected %ld", what, i - origin, et<T>::code(mem[i]), want[(size_t)i]); }
};
template <class T> std::string type_name() { std::string s = __PRETTY_FUNCTION__; auto p = s.find("T = "); auto e = s.find_first_of(";]", p); return s.substr(p + 4, e - p - 4); }

static alphabet alpha(size_t R, bool dst) {
  bool th = mc::thorough();
  if (R <= 1) return {dst ? std::vector<long>{-1, 0, 2} : std::vector<long>{-1}, {0, 1, 2, 3, 5, 8}, dst ? std::vector<long>{-2, -1, 1, 2, 3} : std::vector<long>{-1, 0, 1, 2}};
  if (R == 2) return {{-1}, dst ? std::vector<long>{0, 1, 2, 3} : th ? std::vector<long>{1, 2, 3, 4} : std::vector<long>{2, 3}, dst ? std::vector<long>{-2, 1, 2, 3, 4} : std::vector<long>{-3, 0, 1, 2, 4}};
  return {{1}, {1, 2, 3}, dst ? std::vector<long>{1, 3, 6} : std::vector<long>{1, 2, 6}};
}
static bool within(const rshape& d, const rshape& s) {
  if (ref::empty(d)) return true;
  for (size_t k = 0; k < d.size(); k++) if (d[k].min < s[k].min || d[k].max() > s[k].max()) return false;
  return true;
}
template <class T> long code_of(const T& x) { return et<T>::code(x); }
inline long code_of(const kept& x) { return x.v; }  // for arrays: which elements were assigned and which constructed is not said

// values by index, in a box
struct model {
  rshape q; std::vector<long> v;
  void reset(const rshape& r) { q = r; v.assign((size_t)(r.empty() ? 1 : std::max(0l, ref::size(r))), 0); }
  bool count(const idx& i) const { return !v.empty() && contains(q, i); }
  long& operator[](const idx& i) { long p = 0; for (size_t k = q.size(); k-- > 0;) p = p * q[k].extent + (i[k] - q[k].min); return v.at((size_t)p); }
  long at(const idx& i) const { return const_cast<model&>(*this)[i]; }
};
template <class TS, class TD, class SA, class SB> struct cfg {};

#if PROP == 5
template <class C> struct body;
template <class TS, class TD, class SA, class SB> struct body<cfg<TS, TD, SA, SB>> {
  static constexpr size_t R = SA::rank();
  static constexpr bool same = std::is_same<TS, TD>::value, can_copy = copyable<TS>();
  static std::string name() { return type_name<TS>() + " -> " + type_name<TD>() + ", " + shape_name<SA>() + " -> " + shape_name<SB>(); }
  template <class V, bool B = can_copy, std::enable_if_t<B, int> = 0> static long converted(const TS& x, const V* t) { V y = *t; y = x; return et<V>::code(y); }
  template <class V, bool B = can_copy, std::enable_if_t<!B, int> = 0> static long converted(const TS& x, const V*) { return et<TS>::code(x); }
  static long conv(const TS& x, const TD& target) { return converted(x, &target); }  // what an assignment leaves in the target
  // the source's codes after a move of the region
  static void taken(buf<TS>& s, const rshape& ra, const rshape& rb) {
    if (std::is_same<TS, std::unique_ptr<int>>::value || (std::is_same<TS, std::shared_ptr<int>>::value && same)) each0(rb, [&](const idx& i) { s.model(offset(ra, i)) = -777; });
    else if (std::is_same<TS, std::string>::value) each0(rb, [&](const idx& i) { s.model(offset(ra, i)) = et<TS>::code(s.at(offset(ra, i))); });  // unspecified
  }
  template <bool B = can_copy, std::enable_if_t<B, int> = 0> static void copies(const rshape& ra, const rshape& rb, const SA& sa, const SB& sb) {
    buf<TS> s(ra, 3, 100); buf<TD> d(rb, 9, 2000);
    nda::array_ref<TS, SA> vs(s.base(), sa); nda::array_ref<const TS, SA> cs(s.base(), sa); nda::array_ref<TD, SB> vd(d.base(), sb);
    const bool counted = std::is_same<TS, std::shared_ptr<int>>::value;
    for (int k = 0; k < 2; k++) {
      if (!counted) each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = conv(s.at(offset(ra, i)), d.at(offset(rb, i))); });
      if (k) nda::copy(vs, vd); else nda::copy(cs, vd);
      if (counted) { each0(rb, [&](const idx& i) { MC_CHECK(code_of(d.at(offset(rb, i))) / 100 == code_of(s.at(offset(ra, i))) / 100, "copy: value at %s", str(i).c_str()); d.model(offset(rb, i)) = code_of(d.at(offset(rb, i))); s.model(offset(ra, i)) = code_of(s.at(offset(ra, i))); }); d.check("copy of owners"); s.check("copy of owners: source"); continue; }
      d.check(k ? "copy again" : "copy"); s.check("copy: source");
    }
  }
  template <bool B = can_copy, std::enable_if_t<!B, int> = 0> static void copies(const rshape&, const rshape&, const SA&, const SB&) {}
  template <class A> static void result(const A& x, const rshape& want, const model& m, const char* what) {
    rshape q = from_shape(x.shape());
    MC_CHECK(q == want, "%s: result shape %s, expected %s", what, str(q).c_str(), str(want).c_str());
    each0(q, [&](const idx& i) { long got = code_of(x[to_tuple<R>(i)]); MC_CHECK(got == m.at(i), "%s: result%s = %ld, expected %ld", what, str(i).c_str(), got, m.at(i)); });
  }
  template <class A, bool B = can_copy && same, std::enable_if_t<B, int> = 0> static void made(const A& a, const SB& sb, const rshape& qa, const rshape& qb, const model& m) {
    if (std::is_same<TS, std::shared_ptr<int>>::value) return;
    rshape qc = from_shape(nda::make_compact(a.shape()));
    result(nda::make_copy(a), qa, m, "make_copy(array)"); result(nda::make_copy(a.ref()), qa, m, "make_copy(ref)");
    result(nda::make_copy(a, sb), qb, m, "make_copy(array, shape)"); result(nda::make_copy(a.cref(), sb), qb, m, "make_copy(ref, shape)");
    result(nda::make_compact_copy(a), qc, m, "make_compact_copy(array)"); result(nda::make_compact_copy(a.cref()), qc, m, "make_compact_copy(ref)");
    A b(a); result(b, qa, m, "array(array)"); A d; d = a; result(d, qa, m, "array = array"); d = b; result(d, qa, m, "array = array again");
  }
  template <class A, bool B = can_copy && same, std::enable_if_t<!B, int> = 0> static void made(const A&, const SB&, const rshape&, const rshape&, const model&) {}
  template <class Al, bool B = same, std::enable_if_t<B, int> = 0> static void arrays(const SA& sa, const SB& sb) {
    using A = nda::array<TS, SA, Al>;
    rshape qa, qb; { SA t = sa; t.resolve(); qa = from_shape(t); SB u = sb; u.resolve(); qb = from_shape(u); }
    if (!injective(qa) || !injective(qb)) return;
    model m;
    auto fresh = [&] { A a(sa); int n = 40; m.reset(qa); each0(qa, [&](const idx& i) { a[to_tuple<R>(i)] = et<TS>::make(n++); m[i] = code_of(a[to_tuple<R>(i)]); }); return a; };
    { const A a = fresh(); result(a, qa, m, "array"); made(a, sb, qa, qb, m); result(a, qa, m, "array after copies"); }
    { A a = fresh(); result(nda::make_move(a.ref(), sb), qb, m, "make_move(ref, shape)"); }
    { A a = fresh(); result(nda::make_move(a, sb), qb, m, "make_move(array, shape)"); }
    { A a = fresh(); SA s = a.shape(); result(nda::make_move(std::move(a), s), qa, m, "make_move(array&&, shape)"); }
    { A a = fresh(); rshape qc = from_shape(nda::make_compact(a.shape())); result(nda::make_compact_move(a), qc, m, "make_compact_move(array)"); }
    { A a = fresh(); A b(std::move(a)); result(b, qa, m, "array(array&&)"); A d; d = std::move(b); result(d, qa, m, "array = array&&"); A e(sa); swap(e, d); result(e, qa, m, "swap"); }
  }
  template <class Al, bool B = same, std::enable_if_t<!B, int> = 0> static void arrays(const SA&, const SB&) {}
  static void run(ctx& c) {
    plain() = !same;
    rshape ra = pick_shape<SA>(c, alpha(R, false)), rb;
    if (!large_mode()) rb = pick_shape<SB>(c, alpha(R, true));
    else if (!pick_within<SB>(c, ra, alpha(R, true), rb)) return c.skip();
    if (!within(rb, ra) || !injective(rb)) return c.skip();
    if (!c.mine()) return;
    c.note("from %s to %s", str(ra).c_str(), str(rb).c_str());
    SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb);
    copies(ra, rb, sa, sb);
    if (injective(ra)) {
      buf<TS> s(ra, 3, 100); buf<TD> d(rb, 9, 2000);
      nda::array_ref<TS, SA> vs(s.base(), sa); nda::array_ref<TD, SB> vd(d.base(), sb);
      each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = conv(s.at(offset(ra, i)), d.at(offset(rb, i))); });
      if (std::is_same<TS, std::shared_ptr<int>>::value) each0(rb, [&](const idx& i) { d.model(offset(rb, i)) = s.model(offset(ra, i)); });
      nda::move(vs, vd);
      taken(s, ra, rb);
      d.check("move"); s.check("move: source");
      arrays<std::allocator<TS>>(sa, sb); arrays<nda::auto_allocator<TS, 6>>(sa, sb);
    }
    each0(rb, [&](const idx& i) { c.obs(offset(ra, i) * 1000 + offset(rb, i)); });
    if (!ref::empty(rb)) c.nontrivial();
  }
};
#elif PROP == 6
template <class C> struct body;
template <class T, class TV, class S, class SB> struct body<cfg<T, TV, S, SB>> {
  static constexpr size_t R = S::rank();
  static std::string name() { return type_name<T>() + " from " + type_name<TV>() + ", " + shape_name<S>(); }
  static constexpr bool copies = copyable<T>() && !std::is_same<T, std::shared_ptr<int>>::value;
  static long conv(int k) { T x = T(); x = et<TV>::make(k); return code_of(x); }
  template <bool B = copies, std::enable_if_t<B, int> = 0> static void fills(const rshape& r, const S& s) {
    for (int k : {-1, 0, 5, 7, 9, 31}) {
      const T x = k < 0 ? T() : et<T>::make(k);
      buf<T> b(r, 7, 3000); nda::array_ref<T, S> v(b.base(), s);
      each0(r, [&](const idx& i) { T y = b.at(offset(r, i)); y = x; b.model(offset(r, i)) = et<T>::code(y); });
      nda::fill(v, x); b.check("fill");
    }
  }
  template <bool B = copies, std::enable_if_t<!B, int> = 0> static void fills(const rshape&, const S&) {}
  template <class V, class F> static void sequence(V& v, const rshape& r, F&& at, const char* what) {
    int n = 40; std::vector<long> gave;
    nda::generate(v, [&] { gave.push_back(conv(n)); return et<TV>::make(n++); });
    long total = 0; each0(r, [&](const idx&) { total++; });
    MC_CHECK((long)gave.size() == total, "generate(%s): %zu calls for %ld elements", what, gave.size(), total);
    std::vector<long> got; v.for_each_value([&](T& x) { got.push_back(code_of(x)); });
    MC_CHECK(got == gave, "generate(%s): the elements in the order of the value loop are not what the generator returned", what);
    std::map<idx, long> m; int k = 90;
    nda::transform_index(v, [&](const typename S::index_type& i) { m[from_tuple(i)] = conv(k); return et<TV>::make(k++); });
    each0(r, [&](const idx& i) { MC_CHECK(m.count(i) && code_of(at(i)) == m[i], "transform_index(%s) at %s", what, str(i).c_str()); });
    MC_CHECK((long)m.size() == total && k == 90 + total, "transform_index(%s): %d calls for %ld elements", what, k - 90, total);
    m.clear(); k = 190;
    nda::transform_indices(v, [&](auto... i) { m[idx{(long)i...}] = conv(k); return et<TV>::make(k++); });
    each0(r, [&](const idx& i) { MC_CHECK(m.count(i) && code_of(at(i)) == m[i], "transform_indices(%s) at %s", what, str(i).c_str()); });
    MC_CHECK((long)m.size() == total && k == 190 + total, "transform_indices(%s): calls", what);
  }
  template <class Al> static void arrays(const S& s) {
    nda::array<T, S, Al> a(s); rshape q = from_shape(a.shape());
    each0(q, [&](const idx& i) { MC_CHECK(code_of(a[to_tuple<R>(i)]) == code_of(T()), "new array: element %s", str(i).c_str()); });
    sequence(a, q, [&](const idx& i) -> T& { return a[to_tuple<R>(i)]; }, "array");
    fill_array(a, q);
  }
  template <class A, bool B = copies, std::enable_if_t<B, int> = 0> static void fill_array(A& a, const rshape& q) {
    for (int k : {0, 5, 7, 31}) { T x = et<T>::make(k); nda::fill(a, x); each0(q, [&](const idx& i) { MC_CHECK(code_of(a[to_tuple<R>(i)]) == code_of(x), "fill(array): element %s", str(i).c_str()); }); }
  }
  template <class A, bool B = copies, std::enable_if_t<!B, int> = 0> static void fill_array(A&, const rshape&) {}
  static void run(ctx& c) {
    plain() = !std::is_same<T, TV>::value;
    alphabet a = alpha(R, true);
    rshape r = pick_shape<S>(c, a);
    if (!injective(r)) return c.skip();
    if (!c.mine()) return;
    c.note("shape %s", str(r).c_str());
    S s = to_shape<S>(r);
    fills(r, s);
    { buf<T> b(r, 7, 3000); nda::array_ref<T, S> v(b.base(), s); sequence(v, r, [&](const idx& i) -> T& { return b.at(offset(r, i)); }, "view");
      each0(r, [&](const idx& i) { b.model(offset(r, i)) = et<T>::code(b.at(offset(r, i))); }); b.check("elements of nobody's concern"); }
    arrays<std::allocator<T>>(s); arrays<nda::auto_allocator<T, 6>>(s);
    each0(r, [&](const idx& i) { c.obs(offset(r, i)); });
    if (!ref::empty(r)) c.nontrivial();
  }
};
#elif PROP == 10 || PROP == 16
template <class C> struct body;
template <class T, class TV, class S, class SB> struct body<cfg<T, TV, S, SB>> {
  static constexpr size_t R = S::rank();
  static std::string name() { return type_name<T>() + ", " + shape_name<S>(); }
  static constexpr bool copies = copyable<T>() && !std::is_same<T, std::shared_ptr<int>>::value;
  template <class A> static void paint(A& a, int n, model& m) { m.reset(from_shape(a.shape())); each0(from_shape(a.shape()), [&](const idx& i) { a[to_tuple<R>(i)] = et<T>::make(n++); m[i] = code_of(a[to_tuple<R>(i)]); }); }
  template <class A> static void is(const A& a, const rshape& q, const model& m, const char* what) {
    rshape g = from_shape(a.shape());
    MC_CHECK(g == q, "%s: shape %s, expected %s", what, str(g).c_str(), str(q).c_str());
    each0(q, [&](const idx& i) { long w = m.count(i) ? m.at(i) : code_of(T()), v = code_of(a[to_tuple<R>(i)]); MC_CHECK(v == w, "%s: element %s is %ld, expected %ld", what, str(i).c_str(), v, w); });
  }
  static alphabet al() {
    bool th = mc::thorough();
    if (R == 1) return {th ? std::vector<long>{-1, 0, 2} : std::vector<long>{0, 2}, {0, 1, 3, 6}, th ? std::vector<long>{UN, 1, 2, -1} : std::vector<long>{UN, 1, -1}};
    if (R == 2) return {{0}, {0, 2, 3}, th ? std::vector<long>{UN, 1, 4} : std::vector<long>{UN, 4}};
    return {{0}, {1, 2}, {UN}};
  }
  static void run(ctx& c) {
    rshape ro = pick_shape<S>(c, al());
    if (!c.mine()) return;
    alphabet am = al(); if (R >= 2 && am.mins.size() == 1) am.mins = R == 2 && !mc::thorough() ? std::vector<long>{1} : std::vector<long>{0, 1};
    rshape rn;
    if (!large_mode()) rn = pick_shape<S>(c, am);
    else {
      auto st = statics_of<S>(); rn = ro; int by = c.choose(6);
      static const long dm[] = {0, 1, -3, 0, 0, 2}, de[] = {0, 0, 0, 1, -1, -5};
      for (size_t k = 0; k < R; k++) if (ro[k].extent >= 4) { if (st[k].min == (long)nda::dynamic) rn[k].min += dm[by]; if (st[k].extent == (long)nda::dynamic) rn[k].extent = std::max(0l, rn[k].extent + de[by]); }
      set_layout(rn, st, c.choose(6));
    }
    S so = to_shape<S>(ro), sn = to_shape<S>(rn), to = so, tn = sn; to.resolve(); tn.resolve();
    rshape qo = from_shape(to), qn = from_shape(tn);
    if ((!ref::empty(qo) && !injective(qo)) || (!ref::empty(qn) && !injective(qn))) c.discard();
    c.note("%s and %s", str(qo).c_str(), str(qn).c_str());
    with<std::allocator<T>>(so, sn, qo, qn); with<nda::auto_allocator<T, 6>>(so, sn, qo, qn);
    if (!ref::empty(qo) && !ref::empty(qn)) c.nontrivial();
    for (auto& d : qo) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } for (auto& d : qn) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
#if PROP == 16
  template <class Al> static void with(const S& so, const S& sn, const rshape& qo, const rshape& qn) {
    model m, kept; kept.reset(qn);
    nda::array<T, S, Al> a(so);
    paint(a, 30, m);
    a.reshape(sn); is(a, qn, m, "reshape");
    each0(qn, [&](const idx& i) { if (m.count(i)) kept[i] = m[i]; else kept[i] = code_of(T()); });
    a.reshape(so); is(a, qo, kept, "reshape back");
    paint(a, 60, m); is(a, qo, m, "written after reshapes");
  }
#else
  template <class A, bool B = copies, std::enable_if_t<B, int> = 0> static void values(const S& so, const S& sn, const rshape& qo, const rshape& qn) {
    using Al = typename A::allocator_type;
    for (int k : {0, 5, 7, 31}) {
      const T x = et<T>::make(k); model w, u; w.reset(qo); u.reset(qn); each0(qo, [&](const idx& i) { w[i] = code_of(x); }); each0(qn, [&](const idx& i) { u[i] = code_of(x); });
      A a(so, x); is(a, qo, w, "array(shape, value)"); A b(so, x, Al()); is(b, qo, w, "array(shape, value, allocator)");
      is(nda::make_array<T>(so, x), qo, w, "make_array(shape, value)");
      a.assign(sn, x); is(a, qn, u, "assign(shape, value)"); a.assign(so, x); is(a, qo, w, "assign(shape, value) back");
    }
    model m, n;
    A a(so), b(sn); paint(a, 30, m); paint(b, 50, n);
    A d(a); is(d, qo, m, "copy"); is(a, qo, m, "source of a copy");
    { const A& ca = a; A e(ca, Al()); is(e, qo, m, "copy with an allocator"); e = b; is(e, qn, n, "copy assigned"); e.assign(ca); is(e, qo, m, "assign(array)"); e = A(b); is(e, qn, n, "move assigned"); e.assign(A(a)); is(e, qo, m, "assign(array&&)"); }
    d = b; is(d, qn, n, "copy assigned over a copy"); paint(d, 70, m); is(b, qn, n, "source of a copy after the copy was written");
  }
  template <class A, bool B = copies, std::enable_if_t<!B, int> = 0> static void values(const S&, const S&, const rshape&, const rshape&) {}
  template <class Al> static void with(const S& so, const S& sn, const rshape& qo, const rshape& qn) {
    using A = nda::array<T, S, Al>;
    model none, m, n;
    { A a(so); is(a, qo, none, "array(shape)"); A b(so, Al()); is(b, qo, none, "array(shape, allocator)"); is(nda::make_array<T>(so), qo, none, "make_array(shape)"); a = A(sn); is(a, qn, none, "new array moved in"); }
    values<A>(so, sn, qo, qn);
    A a(so), b(sn); paint(a, 30, m); paint(b, 50, n);
    a.swap(b); is(a, qn, n, "swap"); is(b, qo, m, "swap other"); swap(a, b); is(a, qo, m, "swap back"); is(b, qn, n, "swap back other");
    A d(std::move(a)); is(d, qo, m, "moved");
    d = std::move(b); is(d, qn, n, "move assigned");
    A e(std::move(d), Al()); is(e, qn, n, "moved with an allocator");
    e.clear(); MC_CHECK((R == 0 ? 1u : 0u) == e.size() || S::rank() == 0 || !from_shape(S()).empty(), "clear");
    e = A(so); paint(e, 80, m); is(e, qo, m, "written after clear");
  }
#endif
};
#endif

// ---- what is crossed with what
using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
template <class SA, class SB> struct pair_ {};
template <class TT, class P> struct mk;
template <class TS, class TD, class SA, class SB> struct mk<cfg<TS, TD, void, void>, pair_<SA, SB>> { using type = cfg<TS, TD, SA, SB>; };
template <class A, class B> struct xall;
template <class B> struct xall<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xall<types<A0, A...>, types<B...>> { using type = typename concat_<types<typename mk<A0, B>::type...>, typename xall<types<A...>, types<B...>>::type>::type; };
template <class A, class B> using k_ = cfg<A, B, void, void>;
template <class A> using s_ = cfg<A, A, void, void>;
using kinds = types<s_<bool>, s_<signed char>, s_<unsigned short>, s_<int>, s_<long>, s_<float>, s_<double>, s_<long double>, s_<std::complex<float>>, s_<three>, s_<padded>, s_<wide>, s_<over>, s_<big>, s_<colour>, s_<seven>, s_<kept>, s_<refd>, s_<memptr>, s_<const char*>, s_<std::string>, s_<std::unique_ptr<int>>, s_<std::shared_ptr<int>>>;
using few_kinds = types<s_<bool>, s_<unsigned short>, s_<int>, s_<double>, s_<three>, s_<padded>, s_<kept>, s_<std::string>, s_<std::unique_ptr<int>>>;
#if PROP == 5
using small_ = types<pair_<nda::shape<dim<>>, nda::shape<dim<>>>>;
using large1 = types<pair_<nda::shape<dim<>>, nda::shape<dim<>>>>;
using large2 = types<pair_<dense_shape<2>, dense_shape<2>>>;
using few = types<pair_<nda::shape<>, nda::shape<>>, pair_<dense_shape<2>, shape_of_rank<2>>, pair_<nda::matrix_shape<>, dense_shape<2>>, pair_<nda::chunky_image_shape<3>, nda::planar_image_shape>, pair_<nda::fixed_dense_shape<4, 3>, nda::fixed_dense_shape<4, 3>>, pair_<nda::shape<dense_dim<>>, nda::shape<dense_dim<>>>>;
using convs5 = typename xall<types<k_<float, double>, k_<short, float>, k_<signed char, int>, k_<unsigned, signed char>, k_<int, unsigned>, k_<double, int>, k_<bool, int>, k_<int, bool>, k_<const char*, std::string>, k_<long, short>, k_<unsigned short, short>, k_<int, float>>, types<pair_<nda::shape<dim<>>, nda::shape<dim<>>>, pair_<dense_shape<2>, nda::matrix_shape<>>>>::type;
#else
using P1 = pair_<nda::shape<dim<>>, void>; using P1d = pair_<nda::shape<dense_dim<>>, void>; using P2 = pair_<dense_shape<2>, void>;
using small_ = types<P1>;
using large1 = types<P1>; using large2 = types<P2>;
using few = types<P2, pair_<nda::matrix_shape<>, void>, pair_<nda::shape<>, void>, pair_<nda::chunky_image_shape<3>, void>, pair_<nda::fixed_dense_shape<4, 3>, void>, P1d>;
#if PROP == 6  // the generator's result is converted: <element, generated>
using convs5 = typename xall<types<k_<double, float>, k_<float, short>, k_<int, signed char>, k_<signed char, unsigned>, k_<unsigned, int>, k_<int, bool>, k_<bool, int>, k_<std::string, const char*>, k_<short, long>>, types<P1, P2>>::type;
#else
using convs5 = types<>;
#endif
#endif
static register_all<body> reg("type", part<typename concat<typename xall<kinds, small_>::type, typename xall<few_kinds, few>::type, convs5>::type>());
static register_all<large_<body, 3>::body> lreg("type large", part<typename concat<typename xall<kinds, large1>::type, typename xall<few_kinds, large2>::type>::type>());
