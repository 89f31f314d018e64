// Strides, spans, mins and extents beyond 31 and 32 bits, on memory that is reserved but not committed.
// PROP selects the property; the oracle of each is the reference affine map of ref.h.
#define MC_RESERVED (1ul << 39)
#include "ref.h"
#include <sys/mman.h>
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::dynamic; using nda::shape_of_rank; using nda::dense_shape;

// An arena of 2^39 bytes; offsets are relative to the middle of a half of it. Pages are committed only where something is written.
struct arena {
  static constexpr long HALF = 1l << 38;
  char* p;
  arena() { p = (char*)mmap(nullptr, 2 * HALF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) p = nullptr; }
  char* base(int half) const { return p + half * HALF + HALF / 2; }
};
static arena& mem() { static arena a; return a; }
// The value of every byte written by a test, to check and clear afterwards.
struct touched {
  std::map<char*, char> want;
  void set(char* q, char v) { *q = v; want[q] = v; }
  void expect(char* q, char v) { want[q] = v; }
  void check(const char* what) {
    for (auto& kv : want) if (*kv.first != kv.second) mc::fail("%s: the element at %ld is %d, expected %d", what, (long)(kv.first - mem().base(0)), *kv.first, kv.second);
  }
  // bytes next to the elements, and where truncated offsets would lead, are untouched
  void witnesses(const rshape& r, char* b) {
    each_(r, [&](const idx& i) {
      long o = offset(r, i);
      for (long q : {o - 1, o + 1, (long)(int)o, (long)(unsigned)o, -o}) { char* a = b + q; if (!want.count(a)) { *a = 99; want[a] = 99; } }
    });
  }
  template <class F> static void each_(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
  ~touched() { for (auto& kv : want) *kv.first = 0; }
};
constexpr long G = 1l << 32, H = 1l << 31;
static alphabet alpha(size_t R) {
  bool th = mc::thorough();
  alphabet a{{0, H + 5, -G - 7, 1l << 40}, {1, 2, 3}, {1, -2, H - 1, H, -H, -H - 1, G - 1, G, G + 1, -G, -G - 1, 2 * G, 3 * G + 1}};
  if (R == 2) { a.mins = {0, -G - 7}; a.strides = {1, -3, H - 1, H, -H, G, G + 1, -2 * G}; if (th) { a.mins.push_back(H + 5); a.strides = {1, -3, H - 1, H, -H, H + 2, G - 1, G, G + 1, -2 * G, 2 * G + 1}; } }
  if (R == 3) { a.mins = {H + 5}; a.extents = {1, 2}; if (th) a.extents = {1, 2, 3}; a.strides = {1, H, -G, 2 * G + 1, 5 * H}; }
  if (R >= 4) { a.mins = {-G}; a.extents = {2}; a.strides = {1, -H, 2 * G}; }
  return a;
}
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else each(r, f); }
template <class S> static bool pick_far(ctx& c, rshape& r) { r = pick_shape<S>(c, alpha(S::rank())); return injective(r); }
static void observe(ctx& c, const rshape& r) { for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } c.nontrivial(); }
// The same box in one of a few other far layouts.
template <class S> static bool second(ctx& c, const rshape& of, rshape& r) {
  auto st = statics_of<S>(); r = of; int k = c.choose(3);
  for (size_t d = 0; d < r.size(); d++) if ((st[d].min != (long)dynamic && st[d].min != r[d].min) || (st[d].extent != (long)dynamic && st[d].extent != r[d].extent)) return false;
  long next = k == 0 ? 1 : k == 1 ? G : -H - 1;
  for (size_t n = 0; n < r.size(); n++) {
    size_t d = k == 2 ? r.size() - 1 - n : n;
    if (st[d].stride != (long)dynamic) { r[d].stride = st[d].stride; continue; }
    r[d].stride = k == 0 && n ? G + 3 * (long)n : next;
    if (k == 1) next = next * r[d].extent + 1; else if (k == 2) next = next * r[d].extent;
  }
  return injective(r);
}
#define ARENA if (!mem().p) return c.skip()

// An allocator of arena memory: far shapes as owning arrays.
static std::map<char*, size_t>& far_blocks() { static std::map<char*, size_t> m; return m; }
template <class T> struct far_alloc {
  using value_type = T;
  T* allocate(size_t n) {
    if (n > (size_t)(arena::HALF / 2)) mc::fail("allocation of %zu elements", n);
    for (int k = 0; k < 4; k++) { char* q = mem().p + k * (arena::HALF / 2); if (!far_blocks().count(q)) { far_blocks()[q] = n; return (T*)q; } }
    mc::fail("more than four blocks"); return nullptr;
  }
  void deallocate(T* q, size_t n) { auto it = far_blocks().find((char*)q); if (it == far_blocks().end()) mc::fail("deallocation of a block that is not allocated"); if (it->second != n) mc::fail("deallocation of %zu elements of a block of %zu", n, it->second); far_blocks().erase(it); }
  bool operator==(const far_alloc&) const { return true; } bool operator!=(const far_alloc&) const { return false; }
};

template <class S> struct body {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  using array = nda::array<char, S, far_alloc<char>>;
  static char code(const idx& i) { long v = 3; for (size_t k = 0; k < i.size(); k++) v = v * 5 + (i[k] & 7) + (long)k; return (char)(v % 90 + 1); }

#if PROP == 4
  static void run(ctx& c) {
    ARENA; rshape r, q; if (!pick_far<S>(c, r) || !second<S>(c, r, q)) return c.skip();
    if (!c.mine()) return;
    c.note("view %s, other layout %s", str(r).c_str(), str(q).c_str());
    char* b = mem().base(0); char* b2 = mem().base(1);
    S s = to_shape<S>(r), t = to_shape<S>(q);
    std::vector<long> want, g; each0(r, [&](const idx& i) { want.push_back(offset(r, i)); });
    std::vector<long> order = want; std::sort(want.begin(), want.end());
    auto same = [&](const char* what) { std::sort(g.begin(), g.end()); MC_CHECK(g == want, "%s: visited addresses differ (%zu calls, expected %zu)", what, g.size(), want.size()); g.clear(); };
    nda::array_ref<char, S> v(b, s); nda::const_array_ref<char, S> cv = v;
    v.for_each_value([&](char& x) { g.push_back(&x - b); }); same("array_ref::for_each_value");
    cv.for_each_value([&](const char& x) { g.push_back(&x - b); }); same("const array_ref::for_each_value");
    nda::shape_traits<S>::for_each_value(s, b, [&](char& x) { g.push_back(&x - b); }); same("shape_traits::for_each_value");
    in_order(s, b, order, std::integral_constant<bool, (R > 0)>());
    using pr = std::pair<long, long>; std::vector<pr> wp, gp;
    each0(r, [&](const idx& i) { wp.push_back(pr(offset(r, i), offset(q, i))); });
    nda::copy_shape_traits<S, S>::for_each_value(s, b, t, b2, [&](char& x, char& y) { gp.push_back(pr(&x - b, &y - b2)); });
    std::sort(wp.begin(), wp.end()); std::sort(gp.begin(), gp.end()); MC_CHECK(wp == gp, "paired loop: pairs differ from the elements with equal indices");
    array a(s); g.clear(); a.for_each_value([&](char& x) { g.push_back(&x - a.base()); }); same("array::for_each_value");
    observe(c, r); observe(c, q);
  }
  static void in_order(const S&, char*, const std::vector<long>&, std::false_type) {}
  static void in_order(const S& s, char* b, const std::vector<long>& order, std::true_type) {
    std::vector<long> g; nda::for_each_value_in_order(s, b, [&](char& x) { g.push_back(&x - b); }); MC_CHECK(g == order, "for_each_value_in_order: visited addresses differ");
  }
#elif PROP == 5
  static void run(ctx& c) {
    ARENA; rshape r, q; if (!pick_far<S>(c, r) || !second<S>(c, r, q)) return c.skip();
    int cut = R ? c.choose(2) : 0;
    if (!c.mine()) return;
    if (cut) { auto st = statics_of<S>(); for (size_t d = 0; d < R; d++) if (q[d].extent > 1 && st[d].min == (long)dynamic && st[d].extent == (long)dynamic) { q[d].min++; q[d].extent--; } }
    c.note("from %s to %s", str(r).c_str(), str(q).c_str());
    char* b = mem().base(0); char* b2 = mem().base(1);
    S s = to_shape<S>(r), t = to_shape<S>(q);
    for (int form = 0; form < 2; form++) {
      touched m; each0(r, [&](const idx& i) { m.set(b + offset(r, i), code(i)); });
      each0(q, [&](const idx& i) { m.set(b2 + offset(q, i), 0); });
      m.witnesses(r, b); m.witnesses(q, b2);
      nda::array_ref<char, S> v(b, s), w(b2, t);
      if (form) nda::move(v, w); else nda::copy(v.cref(), w);
      each0(q, [&](const idx& i) { m.expect(b2 + offset(q, i), code(i)); });
      m.check(form ? "move" : "copy");
      using D = nda::dense_array<char, R>;
      auto d = nda::make_copy(v, typename D::shape_type(s.bounds()));  // packed
      each0(r, [&](const idx& i) { MC_CHECK(d[to_tuple<R>(i)] == code(i), "make_copy to a dense shape: element %s", str(i).c_str()); });
      if (nda::make_compact(s).flat_extent() < (1 << 20)) { auto k = nda::make_compact_copy(v); each0(r, [&](const idx& i) { MC_CHECK(k[to_tuple<R>(i)] == code(i), "make_compact_copy: element %s", str(i).c_str()); }); }
      m.check("copies");
    }
    {
      touched m; each0(r, [&](const idx& i) { m.set(b + offset(r, i), code(i)); });
    }
    observe(c, r); observe(c, q);
  }
#elif PROP == 6
  static void run(ctx& c) {
    ARENA; rshape r; if (!pick_far<S>(c, r)) return c.skip();
    if (!c.mine()) return;
    c.note("view %s", str(r).c_str());
    char* b = mem().base(0); S s = to_shape<S>(r);
    touched m; each0(r, [&](const idx& i) { m.set(b + offset(r, i), 1); }); m.witnesses(r, b);
    nda::array_ref<char, S> v(b, s);
    nda::fill(v, (char)42); each0(r, [&](const idx& i) { m.expect(b + offset(r, i), 42); }); m.check("fill");
    char n = 50; long total = 0; nda::generate(v, [&] { return n++; });
    std::vector<char> seen; each0(r, [&](const idx& i) { total++; seen.push_back(b[offset(r, i)]); m.expect(b + offset(r, i), b[offset(r, i)]); });
    std::sort(seen.begin(), seen.end()); MC_CHECK(n == 50 + total, "generate: calls"); for (long k = 0; k < total; k++) MC_CHECK(seen[k] == 50 + k, "generate: values");
    m.check("generate");
    std::set<idx> calls;
    nda::transform_index(v, [&](const typename S::index_type& i) { calls.insert(from_tuple(i)); return code(from_tuple(i)); });
    each0(r, [&](const idx& i) { MC_CHECK(calls.count(i), "transform_index: no call for %s", str(i).c_str()); m.expect(b + offset(r, i), code(i)); }); MC_CHECK((long)calls.size() == total, "transform_index: calls"); m.check("transform_index");
    nda::transform_indices(v, [&](auto... i) { return (char)(code(idx{(long)i...}) + 1); });
    each0(r, [&](const idx& i) { m.expect(b + offset(r, i), (char)(code(i) + 1)); }); m.check("transform_indices");
    observe(c, r);
  }
#elif PROP == 10 || PROP == 12 || PROP == 16
  static void run(ctx& c) {
    mc::flood_is_violation() = false;
    ARENA; rshape r, q; if (!pick_far<S>(c, r) || !second<S>(c, r, q)) return c.skip();
    auto span = [](const rshape& x) { return x.empty() ? 1l : flat_span(x).extent(); };
    if (span(r) > arena::HALF / 2 || span(q) > arena::HALF / 2) return c.skip();
    if (!c.mine()) return;
    c.note("arrays of %s and %s", str(r).c_str(), str(q).c_str());
    S s = to_shape<S>(r), t = to_shape<S>(q);
    far_blocks().clear();
    {
      touched m;
      auto own = [&](array& a) { each0(from_shape(a.shape()), [&](const idx& i) { m.want[&a[to_tuple<R>(i)]] = 0; }); };
      array a(s), b(t, 7);
      own(a); own(b);
      auto sized = [&](const array& x, const rshape& w, const char* what) {
        MC_CHECK(from_shape(x.shape()) == w, "%s: the shape is %s", what, str(from_shape(x.shape())).c_str());
        auto it = far_blocks().find((char*)x.data()); MC_CHECK(it != far_blocks().end() && (long)it->second >= span(w), "%s: the block holds %zu elements of a span of %ld", what, it == far_blocks().end() ? (size_t)0 : it->second, span(w));
        MC_CHECK(x.base() - x.data() == (w.empty() ? 0 : -flat_span(w).lo), "%s: base", what);
      };
      sized(a, r, "array"); sized(b, q, "array of values");
      each0(r, [&](const idx& i) { MC_CHECK(a[to_tuple<R>(i)] == 0 && b[to_tuple<R>(i)] == 7, "construction: element %s", str(i).c_str()); });
      each0(r, [&](const idx& i) { a[to_tuple<R>(i)] = code(i); });
#if PROP == 16
      a.reshape(t); own(a); sized(a, q, "reshape");
      each0(q, [&](const idx& i) { MC_CHECK(a[to_tuple<R>(i)] == code(i), "reshape: element %s", str(i).c_str()); });
      auto st = statics_of<S>(); rshape z = q; bool grown = false;
      for (size_t d = 0; d < R; d++) if (st[d].min == (long)dynamic && st[d].extent == (long)dynamic && !grown) { z[d].min++; grown = true; }
      if (grown) {
        a.reshape(to_shape<S>(z)); own(a); sized(a, z, "reshape to other bounds");
        each0(z, [&](const idx& i) { MC_CHECK(a[to_tuple<R>(i)] == (contains(q, i) ? code(i) : 0), "reshape to other bounds: element %s", str(i).c_str()); });
      }
#else
      array d(a); own(d); sized(d, r, "copy"); each0(r, [&](const idx& i) { MC_CHECK(d[to_tuple<R>(i)] == code(i) && a[to_tuple<R>(i)] == code(i), "copy: element %s", str(i).c_str()); });
      d = b; own(d); sized(d, q, "assignment"); each0(q, [&](const idx& i) { MC_CHECK(d[to_tuple<R>(i)] == 7, "assignment: element %s", str(i).c_str()); });
      each0(q, [&](const idx& i) { d[to_tuple<R>(i)] = 9; }); each0(q, [&](const idx& i) { MC_CHECK(b[to_tuple<R>(i)] == 7, "the copy shares element %s", str(i).c_str()); });
      array e(std::move(a)); sized(e, r, "move"); each0(r, [&](const idx& i) { MC_CHECK(e[to_tuple<R>(i)] == code(i), "move: element %s", str(i).c_str()); });
      e.swap(b); sized(e, q, "swap"); sized(b, r, "swapped"); each0(q, [&](const idx& i) { MC_CHECK(e[to_tuple<R>(i)] == 7 && b[to_tuple<R>(i)] == code(i), "swap: element %s", str(i).c_str()); });
      b.assign(t, 5); own(b); sized(b, q, "assign"); each0(q, [&](const idx& i) { MC_CHECK(b[to_tuple<R>(i)] == 5, "assign: element %s", str(i).c_str()); });
      b.clear();
#endif
    }
    MC_CHECK(far_blocks().empty(), "%zu blocks are never freed", far_blocks().size());
    observe(c, r); observe(c, q);
  }
#elif PROP == 24
  static void run(ctx& c) {
    ARENA; rshape r, q; if (!pick_far<S>(c, r) || !second<S>(c, r, q)) return c.skip();
    if (!c.mine()) return;
    c.note("views %s and %s", str(r).c_str(), str(q).c_str());
    char* b = mem().base(0); char* b2 = mem().base(1);
    nda::array_ref<char, S> v(b, to_shape<S>(r)), w(b2, to_shape<S>(q)), u(b2, to_shape<S>(r));
    {
      touched m; each0(r, [&](const idx& i) { m.set(b + offset(r, i), code(i)); m.set(b2 + offset(q, i), code(i)); }); m.witnesses(r, b);
      MC_CHECK(nda::equal(v, w) && nda::equal(w, v) && (v == w) == (r == q), "equal elements compare different");
      each0(r, [&](const idx& i) { b2[offset(q, i)]++; MC_CHECK(!nda::equal(v, w) && !nda::equal(w, v) && v != w, "the difference at %s is not seen", str(i).c_str()); b2[offset(q, i)]--; });
    }
    touched m; each0(r, [&](const idx& i) { m.set(b + offset(r, i), code(i)); m.set(b2 + offset(r, i), code(i)); });
    MC_CHECK(v == u && !(v != u) && u == v, "== of equal elements");
    each0(r, [&](const idx& i) { b2[offset(r, i)]++; MC_CHECK(v != u && !(u == v), "== does not see the difference at %s", str(i).c_str()); b2[offset(r, i)]--; });
    // shapes that differ by a multiple of 2^32
    if (R > 0) { rshape z = r; auto st = statics_of<S>(); if (st[0].min == (long)dynamic) { z[0].min += G; nda::array_ref<char, S> x(b, to_shape<S>(z)); MC_CHECK(v != x && !nda::equal(v, x), "views whose mins differ by 2^32 compare equal"); MC_CHECK(v.shape() != x.shape(), "shapes whose mins differ by 2^32 compare equal"); }
      if (st[0].stride == (long)dynamic && r[0].extent > 1) { rshape y = r; y[0].stride += y[0].stride > 0 ? -G : G; S ys = to_shape<S>(y); MC_CHECK(v.shape() != ys && !(v.shape() == ys), "shapes whose strides differ by 2^32 compare equal"); } }
    observe(c, r); observe(c, q);
  }
#elif PROP == 31
  template <class X> static void says(X& x, const rshape& r, char* b, const char* who) {
    MC_CHECK(from_shape(x.shape()) == r, "%s: the shape is %s", who, str(from_shape(x.shape())).c_str());
    MC_CHECK((char*)x.base() == b && (char*)x.data() == b + (r.empty() ? 0 : flat_span(r).lo), "%s: base or data", who);
    MC_CHECK((long)x.size() == size(r), "%s: size is %ld", who, (long)x.size());
    each0(r, [&](const idx& i) {
      MC_CHECK(&x[to_tuple<R>(i)] == b + offset(r, i), "%s[%s]", who, str(i).c_str());
      MC_CHECK(&spread<R>([&](auto... k) -> decltype(auto) { return x(k...); }, i) == b + offset(r, i), "%s(%s)", who, str(i).c_str());
    });
  }
  static void run(ctx& c) {
    ARENA; rshape r; if (!pick_far<S>(c, r)) return c.skip();
    if (!c.mine()) return;
    c.note("view %s", str(r).c_str());
    char* b = mem().base(0); S s = to_shape<S>(r);
    nda::array_ref<char, S> v(b, s); const auto cv = v; says(v, r, b, "array_ref"); says(cv, r, b, "const array_ref");
    auto k = v.cref(); says(k, r, b, "const_array_ref"); nda::array_ref<char, shape_of_rank<R>> any = v; says(any, r, b, "array_ref_of_rank");
    mc::flood_is_violation() = true;
    if (r.empty() || flat_span(r).extent() <= arena::HALF / 2) { mc::flood_is_violation() = false; far_blocks().clear(); array a(s); const auto& ca = a; says(a, r, (char*)a.base(), "array"); says(ca, r, (char*)a.base(), "const array"); auto w = a.ref(); says(w, r, (char*)a.base(), "array.ref()"); }
    observe(c, r);
  }
#endif
};
#if PROP == 4 || PROP == 5 || PROP == 6 || PROP == 10 || PROP == 12 || PROP == 16 || PROP == 24 || PROP == 31
using all = types<nda::shape<dim<>>, nda::shape<dim<0, 2>>, nda::shape<dim<dynamic, dynamic, 2 * G + 1>>, nda::shape<dim<H + 5, 3, -G>>, shape_of_rank<2>, dense_shape<2>, nda::shape<dim<>, dim<dynamic, 2, H>>, nda::matrix_shape<>, shape_of_rank<3>, nda::shape<nda::strided_dim<3>, dim<>, dense_dim<0, 3>>, shape_of_rank<4>>;
static register_all<body> reg("far", all());
#endif

#if PROP == 31
// Extents beyond 32 bits: sizes, flat intervals and membership, with no memory behind them or a few bytes of it.
MC_SUITE("large extents") {
  long e0 = c.pick({1l, 3l, 65536l, 65537l, H - 1, H, G - 1, G, G + 1, 2 * G}), e1 = c.pick({1l, 3l, 65536l, 65537l, G});
  long m0 = c.pick({0l, -1l, G, -G - 5}), s0 = c.pick({0l, 1l, -1l, 3l}), s1 = c.pick({0l, 1l, G, -65537l});
  if (!c.mine()) return;
  if (e0 > (1l << 61) / e1) return c.skip();
  if (std::labs(s0) * e0 + std::labs(s1) > (1l << 61) || (s1 && e1 > 1 && std::labs(s1) > (1l << 61) / e1)) return c.skip();
  rshape r{{m0, e0, s0}, {5, e1, s1}};
  c.note("shape %s", str(r).c_str());
  nda::shape_of_rank<2> s({(index_t)m0, (index_t)e0, (index_t)s0}, {5, (index_t)e1, (index_t)s1});
  MC_CHECK((long)s.size() == e0 * e1, "size() is %ld", (long)s.size());
  MC_CHECK((long)s.x().extent() == e0 && s.width() == e0 && s.rows() == e0 && s.height() == e1 && s.columns() == e1 && !s.empty(), "extents");
  MC_CHECK((long)s.x().max() == m0 + e0 - 1 && (long)s.y().max() == 5 + e1 - 1, "max");
  span f = flat_span(r);
  MC_CHECK((long)s.flat_min() == f.lo && (long)s.flat_max() == f.hi && (long)s.flat_extent() == f.extent(), "flat interval [%ld,%ld] of %ld", (long)s.flat_min(), (long)s.flat_max(), (long)s.flat_extent());
  nda::array_ref<char, nda::shape_of_rank<2>> v(mem().p ? mem().base(0) : nullptr, s);
  MC_CHECK((long)v.size() == e0 * e1 && v.width() == e0 && v.height() == e1 && v.rows() == e0 && v.columns() == e1, "view: size or extents");
  for (long i : {m0 - G, m0 - 1, m0, m0 + e0 / 2, m0 + e0 - 1, m0 + e0, m0 + e0 + G}) for (long j : {5 - G, 4l, 5l, 5 + e1 - 1, 5 + e1, 5 + e1 + G}) {
    bool in = i >= m0 && i < m0 + e0 && j >= 5 && j < 5 + e1;
    MC_CHECK(s.is_in_range((index_t)i, (index_t)j) == in && s.is_in_range(std::make_tuple((index_t)i, (index_t)j)) == in, "(%ld,%ld) in range is %d", i, j, !in);
    if (in) { long o = (i - m0) * s0 + (j - 5) * s1; MC_CHECK((long)s((index_t)i, (index_t)j) == o, "offset of (%ld,%ld) is %ld", i, j, (long)s((index_t)i, (index_t)j)); if (mem().p && std::labs(o) < arena::HALF / 2) MC_CHECK(&v((index_t)i, (index_t)j) == mem().base(0) + o, "address of (%ld,%ld)", i, j); }
  }
  c.nontrivial(); c.obs(e0); c.obs(e1); c.obs(m0); c.obs(s0); c.obs(s1);
}
#endif

#if PROP == 7 || PROP == 18 || PROP == 21
template <class V> static void is_view(const V& v, char* base, const rshape& w, const char* what) {
  rshape g = from_shape(v.shape());
  MC_CHECK((char*)v.base() == base, "%s: base is %ld away from the expected address", what, (long)((char*)v.base() - base));
  MC_CHECK(g == w, "%s: shape %s, expected %s", what, str(g).c_str(), str(w).c_str());
}
#endif
#if PROP == 7
using nda::_; using nda::r; using nda::interval; using nda::fixed_interval;
template <class S> struct slices {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void go(ctx&, const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 1>) {
    each(w, [&](const idx& i) {
      MC_CHECK(&v((index_t)i[0]) == b + offset(w, i), "element %s", str(i).c_str());
      for (long e = 1; i[0] + e <= w[0].max() + 1; e++) {
        rshape x{{i[0], e, w[0].stride}};
        is_view(v(interval<>((index_t)i[0], (index_t)e)), b + offset(w, i), x, "crop"); is_view(v(r((index_t)i[0], (index_t)(i[0] + e))), b + offset(w, i), x, "crop with r");
        is_view(v(interval<>((index_t)i[0], (index_t)e))(_), b + offset(w, i), x, "crop of crop");
      }
      if (i[0] + 2 <= w[0].max() + 1) is_view(v(r<2>((index_t)i[0])), b + offset(w, i), {{i[0], 2, w[0].stride}}, "crop of a constant extent");
    });
    is_view(v(_), b, w, "all");
  }
  static void go(ctx&, const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 2>) {
    each(w, [&](const idx& i) {
      rshape r0{{w[1]}}, r1{{w[0]}};
      is_view(v((index_t)i[0], _), b + (i[0] - w[0].min) * w[0].stride, r0, "slice of dim 0"); is_view(v(_, (index_t)i[1]), b + (i[1] - w[1].min) * w[1].stride, r1, "slice of dim 1");
      for (long e = 1; i[0] + e <= w[0].max() + 1; e++) for (long f = 1; i[1] + f <= w[1].max() + 1; f++) {
        rshape x{{i[0], e, w[0].stride}, {i[1], f, w[1].stride}};
        auto y = v(interval<>((index_t)i[0], (index_t)e), r((index_t)i[1], (index_t)(i[1] + f)));
        is_view(y, b + offset(w, i), x, "crop");
        is_view(y((index_t)(i[0] + e - 1), _), b + offset(w, {i[0] + e - 1, i[1]}), {x[1]}, "slice of crop");
        is_view(v(interval<>((index_t)i[0], (index_t)e), (index_t)i[1]), b + offset(w, i), {x[0]}, "crop and slice"); is_view(v((index_t)i[0], r((index_t)i[1], (index_t)(i[1] + f))), b + offset(w, i), {x[1]}, "slice and crop");
      }
    });
    is_view(v(_, _), b, w, "all");
  }
  static void go(ctx&, const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 3>) {
    each(w, [&](const idx& i) {
      is_view(v((index_t)i[0], _, _), b + (i[0] - w[0].min) * w[0].stride, {w[1], w[2]}, "slice of dim 0"); is_view(v(_, (index_t)i[1], _), b + (i[1] - w[1].min) * w[1].stride, {w[0], w[2]}, "slice of dim 1"); is_view(v(_, _, (index_t)i[2]), b + (i[2] - w[2].min) * w[2].stride, {w[0], w[1]}, "slice of dim 2");
      is_view(v((index_t)i[0], interval<>((index_t)i[1], 1), (index_t)i[2]), b + offset(w, i), {{i[1], 1, w[1].stride}}, "slices and crop");
      is_view(v(interval<>((index_t)i[0], 1), interval<>((index_t)i[1], 1), interval<>((index_t)i[2], 1)), b + offset(w, i), {{i[0], 1, w[0].stride}, {i[1], 1, w[1].stride}, {i[2], 1, w[2].stride}}, "crop");
    });
  }
  static void run(ctx& c) {
    ARENA; rshape w; if (!pick_far<S>(c, w)) return c.skip();
    if (!c.mine()) return;
    c.note("view %s", str(w).c_str());
    nda::array_ref<char, S> v(mem().base(0), to_shape<S>(w));
    go(c, v, w, mem().base(0), std::integral_constant<size_t, R>());
    observe(c, w);
  }
};
static register_all<slices> reg("far slices", types<nda::shape<dim<>>, nda::shape<dim<dynamic, dynamic, 2 * G + 1>>, nda::shape<dim<H + 5, 3, -G>>, shape_of_rank<2>, dense_shape<2>, nda::shape<dim<>, dim<dynamic, 2, H>>, nda::matrix_shape<>, shape_of_rank<3>>());
// crops of huge extents
MC_SUITE("crops of large extents") {
  ARENA; long m = c.pick({0l, -5l, G + 1, -2 * G}), e = c.pick({H, G, G + 1, 3 * G}), s = c.pick({1l, -1l, 3l});
  if (!c.mine()) return;
  c.note("[%ld,+%ld) stride %ld", m, e, s); char* b = mem().base(0);
  nda::array_ref<char, nda::shape_of_rank<1>> v(b, nda::shape_of_rank<1>(dim<>((index_t)m, (index_t)e, (index_t)s)));
  for (long o : {0l, 1l, H - 1, H, e / 2, e - 1}) for (long x : {1l, 2l, H, G - 1, G, e}) if (o + x <= e) {
    is_view(v(interval<>((index_t)(m + o), (index_t)x)), b + o * s, {{m + o, x, s}}, "crop"); is_view(v(r((index_t)(m + o), (index_t)(m + o + x))), b + o * s, {{m + o, x, s}}, "crop with r");
    MC_CHECK(&v((index_t)(m + o)) == b + o * s, "element");
  }
  c.nontrivial(); c.obs(m); c.obs(e); c.obs(s);
}
#elif PROP == 18
template <class S> struct relabel {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  static void go(const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 1>) {
    is_view(nda::transpose<0>(v), b, w, "transpose<0>"); is_view(nda::reorder<0>(v), b, w, "reorder<0>");
    is_view(nda::reinterpret_shape(v, nda::shape_of_rank<2>(dim<>((index_t)w[0].min, (index_t)w[0].extent, (index_t)w[0].stride), dim<>(3, 1, 0))), b, {w[0], {3, 1, 0}}, "reinterpret_shape");
    // one element anywhere from the first to the last in memory, and just outside
    const span f = flat_span(w);
    for (long o : {0l, 1l, -1l, H, -H - 1, G, -G - 3, 2 * G, f.lo, f.lo + 1, f.lo - 1, f.hi, f.hi - 1, f.hi + 1}) {
      auto one = [&] { return nda::reinterpret_shape(v, nda::shape_of_rank<1>(dim<>(0, 1, 1)), (index_t)o); };
      if (o >= f.lo && o <= f.hi) is_view(one(), b + o, {{0, 1, 1}}, "reinterpret_shape to one element");
#if MC_ASSERTS
      else MC_CHECK(mc::rejected([&] { one(); }), "one element at offset %ld outside of the source is not reported", o);
#endif
    }
  }
  static void go(const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 2>) {
    is_view(nda::transpose<1, 0>(v), b, {w[1], w[0]}, "transpose<1, 0>"); is_view(nda::reorder<1, 0>(v), b, {w[1], w[0]}, "reorder<1, 0>"); is_view(nda::transpose<0, 1>(v), b, w, "transpose<0, 1>");
    is_view(nda::reinterpret<signed char>(v), b, w, "reinterpret");
  }
  static void go(const nda::array_ref<char, S>& v, const rshape& w, char* b, std::integral_constant<size_t, 3>) {
    is_view(nda::transpose<2, 0, 1>(v), b, {w[2], w[0], w[1]}, "transpose<2, 0, 1>"); is_view(nda::transpose<1, 2, 0>(v), b, {w[1], w[2], w[0]}, "transpose<1, 2, 0>"); is_view(nda::transpose<1, 0, 2>(v), b, {w[1], w[0], w[2]}, "transpose<1, 0, 2>"); is_view(nda::reorder<2, 1, 0>(v), b, {w[2], w[1], w[0]}, "reorder<2, 1, 0>");
  }
  static void run(ctx& c) {
    ARENA; rshape w; if (!pick_far<S>(c, w)) return c.skip();
    if (!c.mine()) return;
    c.note("view %s", str(w).c_str());
    nda::array_ref<char, S> v(mem().base(0), to_shape<S>(w)); go(v, w, mem().base(0), std::integral_constant<size_t, R>());
    far_blocks().clear();
    if (flat_span(w).extent() <= arena::HALF / 2) { nda::array<char, S, far_alloc<char>> a(to_shape<S>(w)); auto x = nda::reinterpret_shape(a.ref(), to_shape<S>(w)); is_view(x, (char*)a.base(), w, "reinterpret_shape of an array"); }
    observe(c, w);
  }
};
static register_all<relabel> reg("far", types<nda::shape<dim<>>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, shape_of_rank<3>>());
#elif PROP == 19
MC_SUITE("far vectors") {
  ARENA; rshape r, q, d; if (!pick_far<nda::shape<dim<>>>(c, r)) return c.skip();
  long so = c.pick({1l, -2l, H, G + 1}), sd = c.pick({1l, -1l, G, -H - 3});
  if (!c.mine()) return;
  q = {{r[0].min, r[0].extent, so}}; d = {{r[0].min, r[0].extent, sd}};
  c.note("d%s, a%s, b%s", str(d).c_str(), str(r).c_str(), str(q).c_str());
  char* pa = mem().base(0); char* pb = mem().base(1); char* pd = mem().base(0) + 16 * G + 7;
  touched m; each(r, [&](const idx& i) { m.set(pa + offset(r, i), (char)(2 + i[0] % 3 + (i[0] & 1))); m.set(pb + offset(q, i), (char)(1 + (i[0] & 3))); m.set(pd + offset(d, i), 5); });
  m.witnesses(d, pd);
  using S = nda::shape<dim<>>;
  nda::array_ref<char, S> a(pa, to_shape<S>(r)), b(pb, to_shape<S>(q)), x(pd, to_shape<S>(d));
  nda::ein_reduce(nda::ein<0>(x) += nda::ein<0>(a) * nda::ein<0>(b));
  long sum = 0; each(r, [&](const idx& i) { long v = pa[offset(r, i)] * pb[offset(q, i)]; sum += v; m.expect(pd + offset(d, i), (char)(5 + v)); });
  m.check("d += a * b");
  int s = 3; nda::ein_reduce(nda::ein(s) += nda::ein<0>(a) * nda::ein<0>(b)); MC_CHECK(s == 3 + sum, "dot product: %d, expected %ld", s, 3 + sum);
  int t = nda::make_ein_sum<int>(nda::ein<0>(a) * nda::ein<0>(b)); MC_CHECK(t == sum, "make_ein_sum: %d, expected %ld", t, sum);
  observe(c, r); c.obs(so); c.obs(sd);
}
template <class S> struct matrices {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    ARENA; rshape r; if (!pick_far<S>(c, r)) return c.skip();
    long sv = c.pick({1l, G + 1}), sd = c.pick({-1l, -H - 3}); int form = c.choose(3);
    if (!c.mine()) return;
    rshape v{{r[1].min, r[1].extent, sv}}, d{{r[0].min, r[0].extent, sd}};
    c.note("matrix %s, vector %s, result %s", str(r).c_str(), str(v).c_str(), str(d).c_str());
    char* pa = mem().base(0); char* pv = mem().base(1); char* pd = mem().base(0) + 20 * G + 7;
    touched m; each(r, [&](const idx& i) { m.set(pa + offset(r, i), (char)(1 + (i[0] & 1) * 2 + (i[1] & 1))); }); each(v, [&](const idx& i) { m.set(pv + offset(v, i), (char)(1 + (i[0] & 1))); }); each(d, [&](const idx& i) { m.set(pd + offset(d, i), 4); });
    m.witnesses(d, pd);
    using V = nda::shape<dim<>>;
    nda::array_ref<char, S> a(pa, to_shape<S>(r)); nda::array_ref<char, V> x(pv, to_shape<V>(v)), y(pd, to_shape<V>(d));
    if (form == 0) nda::ein_reduce(nda::ein<0>(y) += nda::ein<0, 1>(a) * nda::ein<1>(x));
    else if (form == 1) nda::ein_reduce(nda::ein<1>(y) += nda::ein<1, 0>(a) * nda::ein<0>(x));
    else nda::ein_reduce(nda::ein<0>(y) -= nda::ein<0, 1>(a) * nda::ein<1>(x));
    each(d, [&](const idx& i) { long w = 4; for (long j = v[0].min; j <= v[0].max(); j++) w += (form == 2 ? -1 : 1) * pa[offset(r, {i[0], j})] * pv[offset(v, {j})]; m.expect(pd + offset(d, i), (char)w); });
    m.check("d += A * v");
    observe(c, r); c.obs(form); c.obs(sv); c.obs(sd);
  }
};
static register_all<matrices> reg("far matrices", types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>>());
#elif PROP == 20
MC_SUITE("far operands") {
  ARENA; rshape r; if (!pick_far<shape_of_rank<2>>(c, r)) return c.skip();
  long sv = c.pick({1l, -G - 1, H});
  if (!c.mine()) return;
  rshape v{{r[1].min, r[1].extent, sv}};
  c.note("matrix %s, vector %s", str(r).c_str(), str(v).c_str());
  char* pa = mem().base(0); char* pv = mem().base(1);
  touched m; each(r, [&](const idx& i) { m.set(pa + offset(r, i), (char)(1 + (i[0] & 1) * 2 + (i[1] & 1))); }); each(v, [&](const idx& i) { m.set(pv + offset(v, i), (char)(1 + (i[0] & 1))); });
  using V = nda::shape<dim<>>;
  nda::array_ref<char, shape_of_rank<2>> a(pa, to_shape<shape_of_rank<2>>(r)); nda::array_ref<char, V> x(pv, to_shape<V>(v));
  auto bounds = [&](const rshape& g, std::vector<int> of, const char* what) { MC_CHECK(g.size() == of.size(), "rank"); for (size_t k = 0; k < of.size(); k++) MC_CHECK(g[k].min == r[of[k]].min && g[k].extent == r[of[k]].extent, "%s: bounds of dim %zu: %s", what, k, str(g).c_str()); };
  auto y = nda::make_ein_sum<int, 0>(nda::ein<0, 1>(a) * nda::ein<1>(x)); bounds(from_shape(y.shape()), {0}, "A * v");
  for (long i = r[0].min; i <= r[0].max(); i++) { long w = 0; for (long j = r[1].min; j <= r[1].max(); j++) w += pa[offset(r, {i, j})] * pv[offset(v, {j})]; MC_CHECK(y((index_t)i) == w, "A * v at %ld: %d, expected %ld", i, y((index_t)i), w); }
  auto t = nda::make_ein_sum<int, 1, 0>(nda::ein<0, 1>(a)); bounds(from_shape(t.shape()), {1, 0}, "transpose");
  each(r, [&](const idx& i) { MC_CHECK(t((index_t)i[1], (index_t)i[0]) == pa[offset(r, i)], "transpose at %s", str(i).c_str()); });
  auto o = nda::make_ein_sum<int, 0, 1>(nda::ein<0, 1>(a) * nda::ein<1>(x)); bounds(from_shape(o.shape()), {0, 1}, "A_ij v_j");
  each(r, [&](const idx& i) { MC_CHECK(o((index_t)i[0], (index_t)i[1]) == pa[offset(r, i)] * pv[offset(v, {i[1]})], "A_ij v_j at %s", str(i).c_str()); });
  int s = nda::make_ein_sum<int>(nda::ein<0, 1>(a)); long w = 0; each(r, [&](const idx& i) { w += pa[offset(r, i)]; }); MC_CHECK(s == w, "sum: %d, expected %ld", s, w);
  observe(c, r); c.obs(sv);
}
#elif PROP == 21
template <class S> struct images {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    ARENA; auto st = statics_of<S>(); rshape w(3);
    for (size_t k = 0; k < 2; k++) { w[k].min = c.pick({0l, -G - 7, H + 5}); w[k].extent = c.pick({1l, 3l}); w[k].stride = st[k].stride != (long)dynamic ? st[k].stride : k == 0 ? c.pick({3l, -H, G + 1}) : c.pick({12l, -2 * G - 1, 4 * G}); }
    w[2] = {st[2].min != (long)dynamic ? st[2].min : 0, st[2].extent != (long)dynamic ? st[2].extent : 3, st[2].stride != (long)dynamic ? st[2].stride : c.pick({1l, H + 1, -G})};
    if (!c.mine()) return;
    c.note("image %s", str(w).c_str());
    char* b = mem().base(0);
    nda::array_ref<char, S> v(b, to_shape<S>(w));
    for (long x0 = w[0].min; x0 <= w[0].max(); x0++) for (long x1 = x0 + 1; x1 <= w[0].max() + 1; x1++) for (long y0 = w[1].min; y0 <= w[1].max(); y0++) for (long y1 = y0 + 1; y1 <= w[1].max() + 1; y1++) {
      auto k = nda::crop(v, (index_t)x0, (index_t)y0, (index_t)x1, (index_t)y1);
      rshape e = w; e[0].min = x0; e[0].extent = x1 - x0; e[1].min = y0; e[1].extent = y1 - y0;
      long o = (x0 - w[0].min) * w[0].stride + (y0 - w[1].min) * w[1].stride;
      is_view(k, b + o, e, "crop");
      auto k2 = nda::crop(v, (index_t)(x0 - (x0 == w[0].min ? G : 0)), (index_t)(y0 - (y0 == w[1].min ? 2 * G : 0)), (index_t)(x1 + (x1 > w[0].max() ? G : 0)), (index_t)y1);
      is_view(k2, b + o, e, "crop with a larger rectangle");
    }
    for (long ch = w[2].min; ch <= w[2].max(); ch++) { auto k = nda::slice_channel(v, (index_t)ch); is_view(k, b + (ch - w[2].min) * w[2].stride, {w[0], w[1]}, "slice_channel"); }
    observe(c, w);
  }
};
static register_all<images> reg("far images", types<nda::image_shape, nda::planar_image_shape, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>>());
#endif
