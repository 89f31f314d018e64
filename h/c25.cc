// C25: contract violations are reported before any element is read or written; programs within the contract are not reported.
#include "ein.h"
#include "world.h"
using namespace ein_;
using world::elem;
using nda::interval;

#ifdef FAR  // values that agree with others in their low 31 or 32 bits
constexpr bool far = true;
#else
constexpr bool far = false;
#endif
constexpr long G = 1l << 32, H = 1l << 31;
using longs = std::vector<long>;

template <class A, class B> struct pair_ { using a = A; using b = B; };
template <class A, class B> struct xpairs;
template <class B> struct xpairs<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xpairs<types<A0, A...>, types<B...>> { using type = typename concat_<types<pair_<A0, B>...>, typename xpairs<types<A...>, types<B...>>::type>::type; };
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else if (!ref::empty(r)) each(r, f); }
// f must be reported exactly if !ok
template <class F> static void expect(bool ok, const char* what, F&& f) {
  if (ok) { f(); return; }
  if (!mc::rejected(f)) mc::fail("%s is not reported", what);
}
static bool agrees(long constant, long v) { return constant == DYN || constant == v; }

// ---- constants of intervals and dims
template <class D> struct set_interval {
  static std::string name() { return "interval " + std::to_string(D::Min) + " " + std::to_string(D::Extent); }
  static void run(ctx& c) {
    long v = far ? c.pick(longs{0, 2, -1, G, G + 2, G - 1, -G, H, -H + 2}) : c.range(-2, 5), w = far ? c.pick(longs{0, 1, 3, G, G + 1, G + 2, G + 3, H, H + 1, -G + 1}) : c.range(-1, 5);
    if (!c.mine()) return;
    c.note("values %ld %ld", v, w); c.obs(v); c.obs(w);
    const bool m = agrees(D::Min, v), x = agrees(D::Extent, w);
    const long mn = (long)D::Min == DYN ? 0 : (long)D::Min, ex = (long)D::Extent == DYN ? 1 : (long)D::Extent;
    expect(m && x, "interval(min, extent)", [&] { D d((index_t)v, (index_t)w); MC_CHECK(d.min() == v && d.extent() == w && d.max() == v + w - 1, "interval(%ld, %ld)", v, w); });
    expect(m, "interval(min)", [&] { D d((index_t)v); MC_CHECK(d.min() == v && d.extent() == ex, "interval(%ld)", v); });
    { D d; MC_CHECK(d.min() == mn && d.extent() == ex, "interval()"); }
    expect(m, "set_min", [&] { D d; d.set_min((index_t)v); MC_CHECK(d.min() == v && d.extent() == ex, "set_min"); });
    expect(x, "set_extent", [&] { D d; d.set_extent((index_t)w); MC_CHECK(d.min() == mn && d.extent() == w, "set_extent"); });
    expect(agrees(D::Extent, w - mn + 1), "set_max", [&] { D d; d.set_max((index_t)w); MC_CHECK(d.min() == mn && d.max() == w, "set_max"); });
    expect(m && x, "conversion of an interval", [&] { interval<> s((index_t)v, (index_t)w); D d(s); MC_CHECK(d.min() == v && d.extent() == w, "converted interval"); });
    expect(m && x, "assignment of an interval", [&] { interval<> s((index_t)v, (index_t)w); D d; d = s; MC_CHECK(d.min() == v && d.extent() == w, "assigned interval"); });
    c.nontrivial();
  }
};
template <class D> struct set_dim {
  static std::string name() { return dim_name<D>(); }
  static void run(ctx& c) {
    long v = far ? c.pick(longs{0, 2, -1, 1, G, G + 1, G + 2, G - 1, -G, H}) : c.range(-2, 4), w = far ? c.pick(longs{0, 1, 2, 3, G, G + 1, G + 2, G + 3, H}) : c.range(0, 4), s = c.pick(far ? longs{UN, 0, 1, -1, G, G + 1, G - 1, G + 4, -G, H + 4} : longs{UN, 0, 1, -1, 2, 4, 7});
    if (!c.mine()) return;
    c.note("values %ld %ld %ld", v, w, s); c.obs(v); c.obs(w); c.obs(s);
    const bool m = agrees(D::Min, v), x = agrees(D::Extent, w), t = s == UN || agrees(D::Stride, s);
    const long mn = (long)D::Min == DYN ? 0 : (long)D::Min, ex = (long)D::Extent == DYN ? 0 : (long)D::Extent, st = (long)D::Stride == DYN ? s : (long)D::Stride;
    auto stride = [](const D& d) { return d.stride() == nda::unresolved ? UN : (long)d.stride(); };
    const index_t is = s == UN ? nda::unresolved : (index_t)s;
    // whether `unresolved` is compatible with a constant stride given directly is not documented
    const bool unclear = s == UN && (long)D::Stride != DYN;
    if (!unclear) expect(m && x && t, "dim(min, extent, stride)", [&] { D d((index_t)v, (index_t)w, is); MC_CHECK(d.min() == v && d.extent() == w && stride(d) == st, "dim(%ld, %ld, %ld)", v, w, s); });
    expect(m && x, "dim(min, extent)", [&] { D d((index_t)v, (index_t)w); MC_CHECK(d.min() == v && d.extent() == w, "dim(min, extent)"); });
    expect(x, "dim(extent)", [&] { D d((index_t)w); MC_CHECK(d.min() == mn && d.extent() == w, "dim(extent)"); });
    expect(m, "set_min", [&] { D d; d.set_min((index_t)v); MC_CHECK(d.min() == v && d.extent() == ex, "set_min"); });
    expect(x, "set_extent", [&] { D d; d.set_extent((index_t)w); MC_CHECK(d.min() == mn && d.extent() == w, "set_extent"); });
    if (!unclear) expect(t, "set_stride", [&] { D d; d.set_stride(is); MC_CHECK(stride(d) == st && d.min() == mn, "set_stride"); });
    expect(m && x && t, "conversion of a dim", [&] { dim<> q((index_t)v, (index_t)w, is); D d(q); MC_CHECK(d.min() == v && d.extent() == w && stride(d) == st, "converted dim"); });
    expect(m && x && t, "assignment of a dim", [&] { dim<> q((index_t)v, (index_t)w, is); D d; d = q; MC_CHECK(d.min() == v && d.extent() == w && stride(d) == st, "assigned dim"); });
    expect(m && x && t, "conversion of a shape", [&] { shape<dim<>> q(dim<>((index_t)v, (index_t)w, is)); shape<D> d(q); MC_CHECK(d.template dim<0>().min() == v && d.template dim<0>().extent() == w, "converted shape"); });
    expect(m && x && t, "assignment of a shape", [&] { shape<dim<>, dim<>> q(dim<>(0, 2, 1), dim<>((index_t)v, (index_t)w, is)); shape<dim<>, D> d; d = q; MC_CHECK(d.template dim<1>().min() == v && d.template dim<1>().extent() == w, "assigned shape"); });
    if (s != UN) {
      std::vector<int> mem(80, 1);
      expect(m && x && t, "conversion of a view", [&] { nda::array_ref<int, shape<dim<>>> q(&mem[40], shape<dim<>>(dim<>((index_t)v, (index_t)w, is))); nda::array_ref<int, shape<D>> d(q); MC_CHECK(d.base() == q.base(), "converted view"); });
      expect(m && x && t, "convert_shape of a view", [&] { nda::array_ref<int, shape<dim<>>> q(&mem[40], shape<dim<>>(dim<>((index_t)v, (index_t)w, is))); auto d = nda::convert_shape<shape<D>>(q); MC_CHECK(d.base() == q.base(), "converted view"); });
    }
    c.nontrivial();
  }
};
MC_SUITE("run-time dims of a shape") {
  long k = far ? c.pick(longs{0, 1, 2, G, G + 1, H, -1, -G}) : c.range(0, 5);
  if (!c.mine()) return;
  c.obs(k); c.nontrivial();
  shape_of_rank<2> s2(dim<>(1, 2, 3), dim<>(4, 5, 6)); shape<> s0; const shape<dim<0, 3, 1>, dim<>, dim<2>> s3({}, {4, 5, 6}, 7);
  expect(k >= 0 && k < 2, "dim(d) of rank 2", [&] { auto d = s2.dim((size_t)k); MC_CHECK(d.min() == (k ? 4 : 1) && d.extent() == (k ? 5 : 2) && d.stride() == (k ? 6 : 3), "dim(%ld)", k); });
  expect(k >= 0 && k < 3, "dim(d) of rank 3", [&] { auto d = s3.dim((size_t)k); MC_CHECK(d.extent() == (k == 0 ? 3 : k == 1 ? 5 : 7) && d.min() == (k == 0 ? 0 : k == 1 ? 4 : 2), "dim(%ld)", k); });
}

// ---- dropping and adding dimensions
template <class P> struct drop {
  using A = typename P::a; using B = typename P::b;
  static std::string name() { return shape_name<A>() + " to " + shape_name<B>(); }
  static void run(ctx& c) {
    alphabet a{{0, 3}, {0, 1, 2}, {1, 5}};
    if (A::rank() >= 3) a = {{0, 1}, {0, 1, 3}, {4}};
    if (far) a = {{0, G}, A::rank() == 1 ? longs{1, 2, G + 1, G + 2, H + 1} : longs{1, 2, G + 1}, {1, G + 1}};
    rshape r = pick_shape<A>(c, a);
    if (!c.mine()) return;
    c.note("convert %s", ref::str(r).c_str()); for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    auto st = statics<B>();
    bool ok = true;
    for (size_t d = 0; d < std::max(r.size(), st.size()); d++) {
      if (d >= st.size()) ok = ok && r[d].extent == 1;
      else if (d >= r.size()) ok = ok && agrees(st[d].extent, 1);
      else ok = ok && agrees(st[d].min, r[d].min) && agrees(st[d].extent, r[d].extent) && agrees(st[d].stride, r[d].stride);
    }
    A s = to_shape<A>(r);
    MC_CHECK(nda::is_explicitly_compatible<B>(s) == ok, "is_explicitly_compatible is %d", !ok);
    expect(ok, "convert_shape", [&] { B b = nda::convert_shape<B>(s); rshape q = from_shape(b); for (size_t d = 0; d < std::min(q.size(), r.size()); d++) MC_CHECK(q[d].min == r[d].min && q[d].extent == r[d].extent, "convert_shape: %s", ref::str(q).c_str()); });
    int x = 3;
    expect(ok, "convert_shape of a view", [&] { auto v = nda::convert_shape<B>(nda::array_ref<int, A>(&x, s)); MC_CHECK(v.base() == &x, "convert_shape of a view"); });
    expect(ok, "convert_shape of a const view", [&] { auto v = nda::convert_shape<B>(nda::array_ref<const int, A>(&x, s)); MC_CHECK(v.base() == &x, "convert_shape of a const view"); });
    if (!far && (ref::empty(r) || r.empty() || injective(r))) {
      nda::array<int, A> arr(s, 5); const auto& carr = arr;
      expect(ok, "convert_shape of an array", [&] { auto v = nda::convert_shape<B>(arr); MC_CHECK(v.base() == arr.base(), "convert_shape of an array"); });
      expect(ok, "convert_shape of a const array", [&] { auto v = nda::convert_shape<B>(carr); MC_CHECK(v.base() == carr.base(), "convert_shape of an array"); });
    }
    MC_CHECK(x == 3, "an element was written");
    c.nontrivial();
  }
};

// ---- copies and moves
static bool within(const rshape& d, const rshape& s) {
  if (!d.empty() && ref::empty(d)) return true;
  for (size_t k = 0; k < d.size(); k++) if (d[k].min < s[k].min || d[k].max() > s[k].max()) return false;
  return true;
}
template <class P> struct transfer {
  using SA = typename P::a; using SB = typename P::b;
  static constexpr size_t R = SA::rank();
  static std::string name() { return shape_name<SA>() + " -> " + shape_name<SB>(); }
  static void run(ctx& c) {
    const bool th = mc::thorough();
    alphabet s{{-1, 1}, {0, 1, 2, 3}, {1, -5}}, d{{-2, -1, 0, 1, 2}, {0, 1, 2, 3, 4}, {1, 6}};
    if (R == 2) { s = {{0}, {0, 1, 2}, {1, -5}}; d = {{-1, 0, 1}, {0, 1, 2, 3}, {1, 5}}; if (th) { s.mins = {0, -2}; s.extents = {0, 1, 2, 3}; d.mins = {-2, -1, 0, 1}; } }
    if (R == 3) { s = {{0}, {1, 2}, {5}}; d = {{-1, 0, 1}, {1, 2}, {7}}; if (th) { s.extents = {0, 1, 2}; d.extents = {0, 1, 2, 3}; } }
    if (far) { s = {{0, G}, {1, 2}, {1}}; d = {{0, 1, G, G + 1, G - 1, -G, -G + 1, H, H + 1}, {0, 1, 2}, {1}}; if (R == 2) { s.mins = {0}; d.mins = {0, G, -H}; } if (R == 3) { s = {{0}, {2}, {5}}; d = {{0, G}, {1, 2}, {7}}; } }
    rshape ra = pick_shape<SA>(c, s), rb = pick_shape<SB>(c, d);
    // any strides do for what is reported; make them resolve
    if (R > 1) { fix<SA>(ra); fix<SB>(rb); }
    if (!c.mine()) return;
    const bool ok = within(rb, ra);
    c.note("from %s to %s (%s)", ref::str(ra).c_str(), ref::str(rb).c_str(), ok ? "contained" : "not contained");
    for (auto& q : ra) { c.obs(q.min); c.obs(q.extent); } for (auto& q : rb) { c.obs(q.min); c.obs(q.extent); }
    SA sa = to_shape<SA>(ra); SB sb = to_shape<SB>(rb);
    { SA t = sa; t.resolve(); rshape q = from_shape(t); if (!ref::empty(q) && !injective(q)) return; SB u = sb; u.resolve(); rshape p = from_shape(u); if (!ref::empty(p) && !injective(p)) return; }
    world::reset();
    {
      using AL = world::alloc<elem, world::CCA>;
      using AA = nda::array<elem, SA, AL>; using AB = nda::array<elem, SB, AL>;
      AA a(sa, elem(4), AL(1)); const AA& ca = a;
      long cb = 0;
      // `makes`: the function creates its result, which may construct elements before the report
      auto quiet = [&](const char* what, bool makes, auto&& f) {
        AB b(sb, elem(9), AL(2)); world::counts() = world::counts_t(); long lv = world::live();
        if (ok) { f(b); }
        else {
          if (!mc::rejected([&] { f(b); })) mc::fail("%s is not reported", what);
          auto k = world::counts();
          MC_CHECK(k.copy + k.move + k.cassign + k.massign == 0, "%s: elements were transferred before the report", what);
          MC_CHECK(world::live() == lv, "%s: elements leaked", what);
          each0(from_shape(b.shape()), [&](const idx& i) { MC_CHECK(world::value_of(b[to_tuple<R>(i)]) == 9, "%s: the destination changed", what); });
        }
        each0(from_shape(a.shape()), [&](const idx& i) { auto& e = a[to_tuple<R>(i)]; int v = world::value_of(e); MC_CHECK(v == 4 || (ok && v == world::MOVED), "%s: the source changed", what); e = elem(4); });
        (void)makes; cb++;
      };
      quiet("copy(array, array)", false, [&](AB& b) { nda::copy(ca, b); });
      quiet("copy(view, view)", false, [&](AB& b) { nda::copy(a.cref(), b.ref()); });
      quiet("copy(array, view)", false, [&](AB& b) { nda::copy(a, b.ref()); });
      quiet("copy(view, array)", false, [&](AB& b) { nda::copy(a.ref(), b); });
      quiet("move(array, array)", false, [&](AB& b) { nda::move(a, b); });
      quiet("move(view, view)", false, [&](AB& b) { nda::move(a.ref(), b.ref()); });
      quiet("move(array, view)", false, [&](AB& b) { nda::move(a, b.ref()); });
      quiet("move(view, array)", false, [&](AB& b) { nda::move(a.ref(), b); });
      quiet("make_copy(array, shape)", true, [&](AB&) { auto r = nda::make_copy(ca, sb, AL(3)); });
      quiet("make_copy(view, shape)", true, [&](AB&) { auto r = nda::make_copy(a.cref(), sb); });
      quiet("make_move(array, shape)", true, [&](AB&) { auto r = nda::make_move(a, sb, AL(3)); });
      quiet("make_move(view, shape)", true, [&](AB&) { auto r = nda::make_move(a.ref(), sb); });
    }
    world::all_gone(); c.check_soft();
    c.nontrivial();
  }
  template <class S> static void fix(rshape& r) { auto st = statics<S>(); for (size_t k = 0; k < r.size(); k++) if (st[k].stride == DYN) r[k].stride = UN; }
};

// ---- reinterpretation
template <class P> struct reint {
  using SA = typename P::a; using SB = typename P::b;
  static std::string name() { return shape_name<SA>() + " as " + shape_name<SB>(); }
  template <class S> static alphabet al() {
    const bool th = mc::thorough();
    if (S::rank() <= 1) return {{0, 2}, {0, 1, 2, 4}, {UN, 1, -1, 3}};
    if (S::rank() == 2) return {{0}, th ? std::vector<long>{0, 1, 2, 3} : std::vector<long>{0, 2, 3}, {UN, 1, -4}};
    return {{0}, {1, 2}, {UN, 3}};
  }
  static void run(ctx& c) {
    rshape ra = pick_shape<SA>(c, al<SA>()), rb = pick_shape<SB>(c, al<SB>());
    for (auto& d : ra) if (d.stride == UN && SA::rank() == 1) return c.skip();
    SA sa = to_shape<SA>(ra); sa.resolve(); ra = from_shape(sa);
    if (!ra.empty() && !ref::empty(ra) && !injective(ra)) return c.skip();
    if (!c.mine()) return;
    SB sb = to_shape<SB>(rb), sr = sb; sr.resolve(); rshape rr = from_shape(sr);
    bool resolved = true; for (auto& d : rb) resolved = resolved && d.stride != UN;
    const bool ea = !ra.empty() && ref::empty(ra), eb = !rb.empty() && ref::empty(rb);
    span fa = ea || ra.empty() ? span{0, 0} : flat_span(ra), fb = eb || rb.empty() ? span{0, 0} : flat_span(rr);
    for (auto& d : ra) { c.obs(d.extent); c.obs(d.stride); } for (auto& d : rb) { c.obs(d.extent); c.obs(d.stride); }
    longs offsets_; for (long k = -9; k <= 9; k++) offsets_.push_back(k);
    if (far) offsets_ = {0, 1, G, -G, G + 1, G - 1, H, -H, H + 1, 1l << 40, 0};
    for (long o : offsets_) {
      const bool ok = eb || (!ea && fb.lo + o >= fa.lo && fb.hi + o <= fa.hi);
      c.note("%s as %s at %ld", ref::str(ra).c_str(), ref::str(rb).c_str(), o);
      std::vector<int> mem(fa.extent() + 40, 7); int* base = &mem[20 - fa.lo];
      nda::array_ref<int, SA> v(base, sa);
      expect(ok, "reinterpret_shape(view)", [&] { auto w = nda::reinterpret_shape(v, sb, (index_t)o); MC_CHECK(eb || w.base() == base + o, "reinterpret_shape: base"); });
      nda::array<int, SA> a(sa, 5); const auto& ca = a;
      expect(ok, "reinterpret_shape(array)", [&] { nda::reinterpret_shape(a, sb, (index_t)o); });
      expect(ok, "reinterpret_shape(const array)", [&] { nda::reinterpret_shape(ca, sb, (index_t)o); });
      set(std::is_same<SA, SB>(), v, a, sb, o, ok && resolved, ea);
      // the array's own memory decides for a moved reinterpretation
      if (!mc::rejected([&] { auto r = nda::move_reinterpret_shape<SB>(std::move(a), sb, (index_t)o); MC_CHECK(ok, "move_reinterpret_shape is not reported"); })) MC_CHECK(ok, "move_reinterpret_shape is not reported");
      else MC_CHECK(!ok, "move_reinterpret_shape is reported");
      for (int x : mem) MC_CHECK(x == 7, "an element was written");
    }
    c.nontrivial();
  }
  template <class V, class A, class S> static void set(std::false_type, V, A&, const S&, long, bool, bool) {}
  template <class V, class A, class S> static void set(std::true_type, V v, A& a, const S& sb, long o, bool ok, bool) {
    expect(ok, "set_shape(view)", [&] { V w = v; w.set_shape(sb, (index_t)o); MC_CHECK(from_shape(w.shape()) == from_shape(sb), "set_shape"); });
    expect(ok, "set_shape(array)", [&] { A b(a); b.set_shape(sb, (index_t)o); MC_CHECK(from_shape(b.shape()) == from_shape(sb), "set_shape"); });
  }
};

// ---- split
template <long N> struct split_n {
  static std::string name() { return "split " + std::to_string(N); }
  template <class I> static void one(const I& i, long e, const char* what) {
    expect(e >= N, what, [&] { auto s = nda::split<N>(i); MC_CHECK((*s.begin()).extent() == N, "%s: extent", what); });
  }
};
template <class T> struct splits {
  static std::string name() { return T::name(); }
  static void run(ctx& c) {
    long m = far ? c.pick(longs{0, G, -G, H, -H - 5}) : c.range(-3, 3), e = far ? c.pick(longs{0, 1, 2, 3, 5, 8, 13, G, G + 1, G + 5, H, H + 1}) : c.range(0, 14);
    if (!c.mine()) return;
    c.note("[%ld, %ld)", m, m + e); c.obs(m); c.obs(e);
    T::one(interval<>((index_t)m, (index_t)e), e, "split of an interval");
    T::one(dim<>((index_t)m, (index_t)e, 4), e, "split of a dim");
    T::one(dense_dim<>((index_t)m, (index_t)e), e, "split of a dense dim");
    if (m == 0) T::one(interval<0>(0, (index_t)e), e, "split of an interval with min 0");
    if (e == 4) T::one(interval<DYN, 4>((index_t)m, 4), e, "split of an interval of extent 4");
    c.nontrivial();
  }
};

// ---- Einstein reductions
template <size_t N, class D, class... O> struct reduction {};
template <class C> struct reductions;
template <class X, class... Y> static auto times(const X& x, const Y&... y);
template <class X> static auto times(const X& x) { return x; }
template <class X, class Y, class... Z> static auto times(const X& x, const Y& y, const Z&... z) { return times(x * y, z...); }
template <size_t N, class D, class... O> struct reductions<reduction<N, D, O...>> {
  template <class Q> static void nm(std::string& s) { s += " " + shape_name<typename Q::shape>() + std::to_string((int)Q::K_); for (int q : Q::ix()) s += "/" + std::to_string(q); }
  static std::string name() { std::string s; nm<D>(s); s += " +="; int d[] = {0, (nm<O>(s), 0)...}; (void)d; return s; }
  template <class Q> static rshape pick(ctx& c, bool dst, size_t total) {
    auto st = statics<typename Q::shape>(); rshape r;
    std::vector<long> mins{0, -1, 2}, exts{1, 2, 3};
    if (total > 2) { mins = {0, -1}; }
    if (total > 4) { mins = {0, 1}; exts = {1, 2}; }
    if (far) { mins = {0, G}; if (total <= 2) mins.push_back(-H); exts = {1, 2}; }
    if (mc::thorough() && total > 2 && total <= 5) exts = {1, 2, 3};
    if (!dst && total <= 4) exts.insert(exts.begin(), 0);
    for (auto& d : st) { rd x; x.min = d.min != DYN ? d.min : c.pick(mins); x.extent = d.extent != DYN ? d.extent : c.pick(exts); x.stride = 0; r.push_back(x); }
    lay_out(r, st, 0);
    return r;
  }
  template <size_t... J> static void go(ctx& c, std::index_sequence<J...>) {
    size_t sizes[] = {D::R, O::R...}; size_t total = 0; for (size_t s : sizes) total += s;
    rshape rs[] = {pick<D>(c, true, total), pick<O>(c, false, total)...};
    if (!c.mine()) return;
    std::vector<int> ix[] = {D::ix(), O::ix()...};
    // For each loop the first dim decides: operands contain a dim of the destination, and equal each other otherwise.
    bool ok = true; std::vector<bound> first(N, bound{0, 1}); std::vector<char> state(N, 0);
    for (size_t k = 0; k < 1 + sizeof...(O); k++) for (size_t d = 0; d < ix[k].size(); d++) {
      int l = ix[k][d]; const rd& x = rs[k][d];
      if (!state[l]) { state[l] = k == 0 ? 1 : 2; first[l] = bound{x.min, x.extent}; continue; }
      if (state[l] == 1) ok = ok && x.min <= first[l].min && x.max() >= first[l].max();
      else ok = ok && x.min == first[l].min && x.extent == first[l].extent;
    }
    std::string all; for (auto& r : rs) all += " " + ref::str(r);
    c.note("dims%s, %s", all.c_str(), ok ? "consistent" : "inconsistent");
    for (auto& r : rs) for (auto& d : r) { c.obs(d.min); c.obs(d.extent); } c.obs(ok);
    mat<D> dst; std::tuple<mat<O>...> ops;
    if (D::K_ == ARR && !rs[0].empty() && !injective(rs[0])) return;
    dst.make(rs[0], 7); int d2[] = {(std::get<J>(ops).make(rs[J + 1], (long)J + 1), 0)..., 0}; (void)d2;
    dst.snapshot(); int d3[] = {(std::get<J>(ops).snapshot(), 0)..., 0}; (void)d3;
    std::vector<idx> log;
    auto body = [&](int op) {
      log.clear();
      auto e = times(std::get<J>(ops).ein()...) + logger<N>(log);
      if (op == 0) nda::ein_reduce(dst.ein() += e);
      if (op == 1) nda::ein_reduce(dst.ein() = e);
      if (op == 2) nda::ein_reduce(dst.ein() -= e);
      if (op == 3) nda::ein_reduce(dst.ein() = nda::min(e, -e));
    };
    for (int op = 0; op < 4; op++) {
      if (ok) { body(op); continue; }
      if (!mc::rejected([&] { body(op); })) mc::fail("inconsistent bounds are not reported");
      MC_CHECK(log.empty(), "the expression was evaluated before the report");
      dst.check("destination after a report"); int d4[] = {(std::get<J>(ops).check("operand after a report"), 0)..., 0}; (void)d4;
    }
    c.nontrivial();
  }
  static void run(ctx& c) { go(c, std::make_index_sequence<sizeof...(O)>()); }
};
// inferred sums
template <size_t N, class Q, class... O> struct inferred {};
template <size_t... I> struct res { static std::vector<int> ix() { return {(int)I...}; } template <class E> static void sum(const E& e) { auto r = nda::make_ein_sum<long, I...>(e); (void)r; } };
template <class C> struct sums;
template <size_t N, class Q, class... O> struct sums<inferred<N, Q, O...>> {
  static std::string name() { std::string s = "sum"; for (int q : Q::ix()) s += "/" + std::to_string(q); s += " ="; int d[] = {0, (reductions<reduction<N, opnd<REF, shape<>>, O...>>::template nm<O>(s), 0)...}; (void)d; return s; }
  template <size_t... J> static void go(ctx& c, std::index_sequence<J...>) {
    using base = reductions<reduction<N, opnd<REF, shape<>>, O...>>;
    size_t sizes[] = {O::R...}; size_t total = 0; for (size_t s : sizes) total += s;
    rshape rs[] = {base::template pick<O>(c, total <= 4, total)...};
    if (!c.mine()) return;
    std::vector<int> ix[] = {O::ix()...};
    auto res = Q::ix(); std::vector<char> isres(N); for (int q : res) isres[q] = 1;
    bool ok = true, dup = false; std::vector<bound> first(N, bound{0, 1}); std::vector<char> state(N, 0);
    for (size_t k = 0; k < sizeof...(O); k++) for (size_t d = 0; d < ix[k].size(); d++) {
      int l = ix[k][d]; const rd& x = rs[k][d];
      if (!state[l]) { state[l] = isres[l] ? 1 : 2; first[l] = bound{x.min, x.extent}; continue; }
      if (state[l] == 1) ok = ok && x.min <= first[l].min && x.max() >= first[l].max();
      else ok = ok && x.min == first[l].min && x.extent == first[l].extent;
    }
    (void)dup;
    std::string all; for (auto& r : rs) all += " " + ref::str(r);
    c.note("operands%s, %s", all.c_str(), ok ? "consistent" : "inconsistent");
    for (auto& r : rs) for (auto& d : r) { c.obs(d.min); c.obs(d.extent); } c.obs(ok);
    std::tuple<mat<O>...> ops; int d2[] = {(std::get<J>(ops).make(rs[J], (long)J + 1), 0)..., 0}; (void)d2;
    std::vector<idx> log;
    auto body = [&] { log.clear(); Q::sum(times(std::get<J>(ops).ein()...) + logger<N>(log)); };
    if (ok) body();
    else { MC_CHECK(mc::rejected(body), "inconsistent bounds are not reported"); MC_CHECK(log.empty(), "the expression was evaluated before the report"); }
    c.nontrivial();
  }
  static void run(ctx& c) { go(c, std::make_index_sequence<sizeof...(O)>()); }
};

#define GROUP(k) (PART == (k))
using r1 = types<shape<dim<>>, dense_shape<1>, shape<dim<dynamic, 2>>, shape<dim<0>>>;
using r2 = types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, shape<dim<>, dim<0, 2>>>;
#if GROUP(0)
static register_all<set_interval> reg_i("set", types<interval<>, interval<0>, interval<2>, interval<DYN, 3>, interval<DYN, 0>, interval<-1, 2>, interval<0, 1>>());
static register_all<set_dim> reg_d("set", types<dim<>, dim<0>, dim<2>, dim<DYN, 3>, dim<DYN, 0>, dim<-1, 2>, dense_dim<>, nda::broadcast_dim<>, dim<DYN, DYN, 4>, dim<DYN, 1, -1>, dim<0, 2, 1>, dim<1, DYN, 2>>());
using r3 = types<shape_of_rank<3>, dense_shape<3>, shape<dim<0>, dim<>, dim<DYN, 1>>>;
using r0 = types<shape<>>;
using r1d = types<shape<dim<>>, dense_shape<1>, shape<dim<DYN, 2>>, shape<dim<DYN, 1>>>;
static register_all<drop> reg_drop("drop", concat<xpairs<r3, r2>::type, xpairs<r3, r1d>::type, xpairs<r3, r0>::type, xpairs<r2, r1d>::type, xpairs<r2, r0>::type, xpairs<r1d, r0>::type, xpairs<r1d, types<shape_of_rank<2>, shape<dim<>, dim<DYN, 1>>, shape_of_rank<3>, nda::matrix_shape<>>>::type, xpairs<r2, types<shape_of_rank<3>, shape_of_rank<4>>>::type, xpairs<r0, types<shape<dim<>>, shape<dim<DYN, 1>>, shape_of_rank<2>>>::type>::type());
static register_all<splits> reg_split("split", types<split_n<1>, split_n<2>, split_n<3>, split_n<4>, split_n<5>, split_n<8>, split_n<13>>());
#elif GROUP(1)
static register_all<transfer> reg_t("transfer", concat<xpairs<r1, r1>::type, types<pair_<shape<>, shape<>>>>::type());
#elif GROUP(2)
static register_all<transfer> reg_t("transfer", concat<xpairs<r2, types<shape_of_rank<2>, dense_shape<2>, shape<dim<>, dim<0, 2>>>>::type, types<pair_<shape_of_rank<3>, shape_of_rank<3>>, pair_<nda::chunky_image_shape<2>, dense_shape<3>>>>::type());
#elif GROUP(3)
using q1 = types<shape<>, shape<dim<>>, dense_shape<1>, shape<dim<DYN, 2>>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::fixed_dense_shape<2, 2>>;
static register_all<reint> reg_r("reinterpret", concat<xpairs<q1, q1>::type, types<pair_<shape_of_rank<3>, shape_of_rank<3>>, pair_<shape_of_rank<3>, shape<dim<>>>, pair_<dense_shape<2>, dense_shape<3>>>>::type());
#else
template <kind K, class S, size_t... I> using o = opnd<K, S, I...>;
template <size_t N, class D, class... O> using e = reduction<N, D, O...>;
template <size_t N, class Q, class... O> using s = inferred<N, Q, O...>;
using v0 = shape<>; using v1 = shape<dim<>>; using d1 = dense_shape<1>; using f1 = shape<dim<DYN, 2>>; using v2 = shape_of_rank<2>; using d2 = dense_shape<2>; using m2 = nda::matrix_shape<>; using v3 = shape_of_rank<3>; using g2 = nda::fixed_dense_shape<2, 3>;
#if GROUP(4)
static register_all<reductions> reg_e("reduce", types<
  e<1, o<REF, v1, 0>, o<REF, v1, 0>>, e<1, o<ARR, d1, 0>, o<CARR, d1, 0>>, e<1, o<REF, v1, 0>, o<CREF, f1, 0>>, e<1, o<REF, f1, 0>, o<REF, v1, 0>>, e<1, o<REF, v1, 0>, o<REF, v1, 0>, o<REF, v1, 0>>,
  e<1, o<REF, v0>, o<REF, v1, 0>, o<REF, v1, 0>>, e<1, o<REF, v0>, o<CARR, d1, 0>, o<REF, f1, 0>>, e<1, o<REF, v0>, o<REF, v1, 0>, o<REF, v1, 0>, o<CREF, d1, 0>>,
  e<1, o<REF, v0>, o<REF, v2, 0, 0>>, e<1, o<REF, v1, 0>, o<REF, v2, 0, 0>>, e<1, o<REF, v0>, o<REF, v3, 0, 0, 0>>, e<1, o<REF, v2, 0, 0>, o<REF, v1, 0>>, e<1, o<REF, v2, 0, 0>, o<REF, v2, 0, 0>>>());
#elif GROUP(5)
static register_all<reductions> reg_e("reduce", types<
  e<2, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, e<2, o<REF, v1, 1>, o<REF, v2, 0, 1>>, e<2, o<REF, v2, 0, 1>, o<REF, v1, 0>, o<REF, v1, 1>>, e<2, o<REF, v2, 0, 1>, o<CREF, v2, 1, 0>>, e<2, o<ARR, d2, 0, 1>, o<CARR, m2, 0, 1>>, e<2, o<REF, v0>, o<REF, v2, 0, 1>, o<REF, v2, 0, 1>>, e<2, o<REF, v0>, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, e<2, o<REF, v1, 0>, o<REF, v3, 0, 1, 1>>,
  e<3, o<REF, v2, 0, 1>, o<REF, v2, 0, 2>, o<REF, v2, 2, 1>>, e<3, o<REF, v1, 0>, o<REF, v2, 0, 1>, o<REF, v2, 1, 2>, o<REF, v1, 2>>>());
#else
static register_all<sums> reg_s("infer", types<
  s<1, res<0>, o<REF, v1, 0>, o<REF, v1, 0>>, s<1, res<>, o<REF, v1, 0>, o<REF, v1, 0>>, s<1, res<>, o<REF, v2, 0, 0>>, s<1, res<0>, o<REF, v2, 0, 0>>, s<1, res<0>, o<CARR, d1, 0>, o<REF, f1, 0>>, s<1, res<>, o<CARR, d1, 0>, o<REF, f1, 0>>, s<2, res<0>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, s<2, res<1>, o<REF, v2, 0, 1>, o<REF, v1, 1>>, s<2, res<0, 1>, o<REF, v2, 0, 1>, o<REF, v2, 1, 0>>, s<2, res<>, o<REF, v2, 0, 1>, o<REF, v2, 0, 1>>, s<2, res<1, 0>, o<REF, v1, 0>, o<REF, v2, 0, 1>>, s<3, res<0, 1>, o<REF, v2, 0, 2>, o<REF, v2, 2, 1>>, s<2, res<0>, o<REF, g2, 0, 1>, o<REF, v1, 1>>>());
#endif
#endif
