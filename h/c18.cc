// C18: transposed, reordered and reinterpreted layouts address the same elements.
#include "ref.h"
#include "world.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace ref;
using nda::dim; using nda::dense_dim; using nda::shape; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;

template <class F> static void each0(const rshape& s, F&& f) { if (s.empty()) f(idx()); else each(s, f); }
static void same(const rshape& got, const rshape& want, const char* what) { if (!(got == want)) mc::fail("%s: the shape is %s, expected %s", what, ref::str(got).c_str(), ref::str(want).c_str()); }
static std::string okstr(bool b) { return b ? "accepted" : "rejected"; }

// ---- permutations and selections of dimensions
template <size_t... I> struct seq {
  static constexpr size_t size = sizeof...(I);
  static std::vector<int> list() { return {(int)I...}; }
  static constexpr bool distinct() { size_t v[] = {I..., 0}; for (size_t a = 0; a < size; a++) for (size_t b = 0; b < a; b++) if (v[a] == v[b]) return false; return true; }
  // of 0..size-1
  static constexpr bool permutation() { size_t v[] = {I..., 0}; for (size_t a = 0; a < size; a++) if (v[a] >= size) return false; return distinct(); }
};
template <class S, size_t I> struct seq_append; template <size_t... J, size_t I> struct seq_append<seq<J...>, I> { using type = seq<J..., I>; };
template <class L, class Is> struct seq_step;
template <class Is> struct seq_step<types<>, Is> { using type = types<>; };
template <class S0, class... S, size_t... I> struct seq_step<types<S0, S...>, std::index_sequence<I...>> { using type = typename concat_<types<typename seq_append<S0, I>::type...>, typename seq_step<types<S...>, std::index_sequence<I...>>::type>::type; };
template <size_t R, size_t L> struct all_seqs { using type = typename seq_step<typename all_seqs<R, L - 1>::type, std::make_index_sequence<R>>::type; };
template <size_t R> struct all_seqs<R, 0> { using type = types<seq<>>; };
template <class S, class Q> struct pick_ { using shape = S; using q = Q; };
template <class S, class Q, bool Keep> struct keep_ { using type = types<pick_<S, Q>>; };
template <class S, class Q> struct keep_<S, Q, false> { using type = types<>; };
template <class S, class L> struct with_seqs;
template <class S> struct with_seqs<S, types<>> { using type = types<>; };
template <class S, class Q0, class... Q> struct with_seqs<S, types<Q0, Q...>> { using type = typename concat_<typename keep_<S, Q0, Q0::distinct()>::type, typename with_seqs<S, types<Q...>>::type>::type; };
template <class S, size_t... L> struct seqs_of { using type = typename concat<typename with_seqs<S, typename all_seqs<S::rank(), L>::type>::type...>::type; };

static alphabet alpha(size_t R) {
  bool th = mc::thorough();
  alphabet a{{-1, 0, 2}, {0, 1, 3}, {1, 3, -2, 0}};
  if (R == 2) a = alphabet{{0, 2}, {0, 1, 3}, {1, 3, -4}};
  if (R == 3) { a = alphabet{{0, 2}, {1, 2}, {1, 4, -2}}; if (th) a.extents = {0, 1, 2}; }
  if (R >= 4) { a = alphabet{{1}, {1, 2}, {1, 4}}; if (R == 4 && th) a = alphabet{{1, -1}, {1, 2}, {1, 4, -8}}; }
  return a;
}
template <bool On> struct transposes {
  template <class Q, class S, class F> static void run(const S&, F&&) {}
};
template <class Q> struct op;
template <size_t... I> struct op<seq<I...>> {
  template <class X> static auto reorder(X&& x) { return nda::reorder<I...>(std::forward<X>(x)); }
  template <class X> static auto transpose(X&& x) { return nda::transpose<I...>(std::forward<X>(x)); }
};
template <class P> struct perms {
  using S = typename P::shape; using Q = typename P::q;
  static constexpr size_t R = S::rank();
  static std::string name() { std::string r = shape_name<S>() + " by"; for (int i : Q::list()) r += " " + std::to_string(i); return r; }
  // v: a library view whose dims are `order` of the parent's; in every index it addresses the parent's element.
  template <class V> static void check_view(const V& v, const rshape& r, const std::vector<int>& order, const int* base, const char* what) {
    rshape want; for (int i : order) want.push_back(r[i]);
    same(from_shape(v.shape()), want, what);
    long n = 0;
    each0(want, [&](const idx& j) {
      idx i(R); for (size_t k = 0; k < R; k++) i[k] = r[k].min;
      for (size_t k = 0; k < order.size(); k++) i[order[k]] = j[k];
      const int* p = &v[to_tuple<V::rank()>(j)];
      if (p != base + offset(r, i)) mc::fail("%s: index %s addresses another element than %s of the original", what, ref::str(j).c_str(), ref::str(i).c_str());
      n++;
    });
    long calls = 0; v.for_each_value([&](const int&) { calls++; });
    MC_CHECK(calls == n, "%s: for_each_value makes %ld calls, expected %ld", what, calls, n);
  }
  template <class V> static constexpr bool is_const_view() { return std::is_const<std::remove_reference_t<decltype(*std::declval<V>().base())>>::value; }
  static void trans(const S& s, const rshape& r, int* base, bool view, std::true_type) {
    std::vector<int> order = Q::list(); for (size_t k = order.size(); k < R; k++) order.push_back((int)k);
    rshape want; for (int i : order) want.push_back(r[i]);
    same(from_shape(op<Q>::transpose(s)), want, "transpose(shape)");
    trans_view(s, r, base, view, order, std::integral_constant<bool, Q::size == R>());
  }
  static void trans_view(const S& s, const rshape& r, int* base, bool view, const std::vector<int>& order, std::true_type) {
    if (!view) return;
    check_view(op<Q>::transpose(nda::array_ref<int, S>(base, s)), r, order, base, "transpose(view)");
    auto cv = op<Q>::transpose(nda::const_array_ref<int, S>(base, s));
    static_assert(is_const_view<decltype(cv)>(), "");
    check_view(cv, r, order, base, "transpose(const view)");
    if (!injective(r)) return;
    nda::array<int, S> a(s); const auto& ca = a;
    auto t = op<Q>::transpose(a); check_view(t, r, order, a.base(), "transpose(array)");
    auto tc = op<Q>::transpose(ca); check_view(tc, r, order, a.base(), "transpose(const array)");
    static_assert(is_const_view<decltype(tc)>() && !is_const_view<decltype(t)>(), "");
  }
  static void trans_view(const S&, const rshape&, int*, bool, const std::vector<int>&, std::false_type) {}
  static void trans(const S&, const rshape&, int*, bool, std::false_type) {}
  static void trans_open(const S& s, const rshape& r, std::true_type) {
    std::vector<int> order = Q::list(); for (size_t k = order.size(); k < R; k++) order.push_back((int)k);
    rshape want; for (int i : order) want.push_back(r[i]);
    same(from_shape(op<Q>::transpose(s)), want, "transpose(shape) with unresolved strides");
  }
  static void trans_open(const S&, const rshape&, std::false_type) {}
  static void run(ctx& c) {
    alphabet al = alpha(R); if (R >= 4 && !mc::thorough()) al.strides = {1, UN}; else al.strides.push_back(UN);
    rshape r = pick_shape<S>(c, al);
    if (!c.mine()) return;
    c.note("%s", ref::str(r).c_str());
    S s = to_shape<S>(r);
    std::vector<int> order = Q::list();
    bool open = false; for (auto& d : r) open = open || d.stride == UN;
    if (open) { // strides still to be chosen stay open, for the order of the new dims to decide
      rshape w; for (int i : order) w.push_back(r[i]);
      auto t = op<Q>::reorder(s);
      same(from_shape(t), w, "reorder(shape) with unresolved strides");
      MC_CHECK(from_shape(s) == r, "reorder changes its argument");
      trans_open(s, r, std::integral_constant<bool, Q::permutation() && (Q::size > 0)>());
      if (!ref::empty(r)) c.nontrivial();
      for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
      return;
    }
    rshape want; for (int i : order) want.push_back(r[i]);
    same(from_shape(op<Q>::reorder(s)), want, "reorder(shape)");
    bool em = ref::empty(r);
    span f = em ? span{0, 0} : flat_span(r);
    std::vector<int> mem(f.extent() + 2); int* base = mem.data() + 1 - f.lo;
    // dropping an empty dimension is not a view of the (empty) original
    bool drops_empty = em && Q::size < R && !ref::empty(want);
    if (!drops_empty) {
      check_view(op<Q>::reorder(nda::array_ref<int, S>(base, s)), r, order, base, "reorder(view)");
      auto cv = op<Q>::reorder(nda::const_array_ref<int, S>(base, s));
      static_assert(is_const_view<decltype(cv)>(), "");
      check_view(cv, r, order, base, "reorder(const view)");
      if (em || injective(r)) {
        nda::array<int, S> a(s); const auto& ca = a;
        auto t = op<Q>::reorder(a); check_view(t, r, order, a.base(), "reorder(array)");
        auto tc = op<Q>::reorder(ca); check_view(tc, r, order, a.base(), "reorder(const array)");
        static_assert(is_const_view<decltype(tc)>() && !is_const_view<decltype(t)>(), "");
      }
    }
    trans(s, r, base, true, std::integral_constant<bool, Q::permutation() && (Q::size > 0)>());
    if (!em) c.nontrivial();
    for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
  }
};

// ---- reinterpreted shapes
template <class A, class B> struct pair_ { using a = A; using b = B; };
template <class A, class B> struct xpairs;
template <class B> struct xpairs<types<>, B> { using type = types<>; };
template <class A0, class... A, class... B> struct xpairs<types<A0, A...>, types<B...>> { using type = typename concat_<types<pair_<A0, B>...>, typename xpairs<types<A...>, types<B...>>::type>::type; };

static rshape resolved(const rshape& r) { return r; }
template <class S> static S resolve_copy(S s) { s.resolve(); return s; }

template <class P> struct rein {
  using A = typename P::a; using B = typename P::b;
  static constexpr size_t RA = A::rank(), RB = B::rank();
  static std::string name() { return shape_name<A>() + " as " + shape_name<B>(); }
  template <class V> static void check_view(const V& v, const rshape& rb, const int* base, long off, const char* what) {
    same(from_shape(v.shape()), rb, what);
    MC_CHECK(v.base() == base + off, "%s: the base is at %ld, expected %ld", what, (long)(v.base() - base), off);
    each0(rb, [&](const idx& i) { MC_CHECK(&v[to_tuple<RB>(i)] == base + off + offset(rb, i), "%s: index %s addresses another element", what, ref::str(i).c_str()); });
    long n = 0; v.for_each_value([&](const int& x) { n++; if (&x < base - 1000 || &x > base + 1000) mc::fail("%s: for_each_value leaves the array", what); });
    long want = RB == 0 ? 1 : ref::size(rb);
    MC_CHECK(n == want, "%s: for_each_value makes %ld calls, expected %ld", what, n, want);
  }
  static void set(const rshape&, const A&, const rshape&, const B&, int*, long, bool, std::false_type) {}
  static void set(const rshape& ra, const A& a, const rshape& rb, const B& b, int* base, long off, bool inside, std::true_type) {
    nda::array_ref<int, A> v(base, a);
    auto f = [&] { if (off == 0) v.set_shape(b); else v.set_shape(b, off); };
    if (inside) { f(); check_view(v, rb, base, off, "set_shape(view)"); }
#if MC_ASSERTS
    else MC_CHECK(mc::rejected(f), "set_shape outside the view is not reported");
#endif
    (void)ra;
  }
  static void run(ctx& c) {
    bool th = mc::thorough();
    alphabet aa{{0, 1}, {1, 3, 6}, {1, -1, 4}}, ab{{0, -2}, {1, 2, 3}, {UN, 1, -2}};
    if (RA == 2) aa = alphabet{{0, 1}, {1, 3}, {1, -3, 4}}; if (RA >= 3) aa = alphabet{{0}, {2}, {1, 2, 4}};
    if (RB == 2) ab = alphabet{{0, 2}, {1, 3}, {UN, 1, -3}}; if (RB >= 3) ab = alphabet{{1}, {1, 2}, {UN, 2}};
    if (th) { if (RA <= 2) { aa.extents = {1, 2, 3, 5}; aa.strides.push_back(2); } if (RB <= 2) { ab.extents = {1, 2, 3, 4}; ab.strides.push_back(3); } }
    rshape ra = pick_shape<A>(c, aa);
    if (!c.mine()) return;
    rshape rb0 = pick_shape<B>(c, ab);
    A a = to_shape<A>(ra); B b0 = to_shape<B>(rb0), b = resolve_copy(b0);
    rshape rb = from_shape(b);
    span fa = flat_span(ra), fb = flat_span(rb);
    long off = c.choose((int)(fa.extent() + 2)) + fa.lo - fb.lo - 1;  // from just outside to just outside
    c.note("%s as %s at offset %ld", ref::str(ra).c_str(), ref::str(rb).c_str(), off);
    bool inside = fb.lo + off >= fa.lo && fb.hi + off <= fa.hi;
    std::vector<int> mem(fa.extent() + 2 * 200); int* base = mem.data() + 200 - fa.lo;
    nda::array_ref<int, A> v(base, a); nda::const_array_ref<int, A> cv(base, a);
    bool inj = injective(ra);
    c.obs(inside); c.obs(off); for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } for (auto& d : rb) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    set(ra, a, rb, b, base, off, inside, std::integral_constant<bool, std::is_same<A, B>::value>());
    if (inside) {
      c.nontrivial();
      check_view(nda::reinterpret_shape(v, b0, off), rb, base, off, "reinterpret_shape(view)");
      check_view(nda::reinterpret_shape(cv, b, off), rb, base, off, "reinterpret_shape(const view)");
      if (off == 0) check_view(nda::reinterpret_shape(v, b), rb, base, 0, "reinterpret_shape(view) without offset");
      if (inj) {
        nda::array<int, A> arr(a); const auto& carr = arr;
        check_view(nda::reinterpret_shape(arr, b0, off), rb, arr.base(), off, "reinterpret_shape(array)");
        auto t = nda::reinterpret_shape(carr, b0, off);
        static_assert(std::is_same<decltype(t), nda::const_array_ref<int, B>>::value, "a reinterpreted const array is read-only");
        check_view(t, rb, arr.base(), off, "reinterpret_shape(const array)");
        if (off == 0) { check_view(nda::reinterpret_shape(arr, b), rb, arr.base(), 0, "reinterpret_shape(array) without offset"); check_view(nda::reinterpret_shape(carr, b), rb, arr.base(), 0, "reinterpret_shape(const array) without offset"); }
      }
    }
#if MC_ASSERTS
    else {
      MC_CHECK(mc::rejected([&] { nda::reinterpret_shape(v, b0, off); }), "reinterpret_shape(view) outside the view is not reported");
      if (inj) {
        nda::array<int, A> arr(a); const auto& carr = arr;
        MC_CHECK(mc::rejected([&] { nda::reinterpret_shape(arr, b0, off); }), "reinterpret_shape(array) outside the array is not reported");
        MC_CHECK(mc::rejected([&] { nda::reinterpret_shape(carr, b0, off); }), "reinterpret_shape(const array) outside the array is not reported");
      }
    }
#endif
  }
};

// ---- arrays that own a reinterpreted allocation
template <class A_, class B_, class Al> struct own_ { using a = A_; using b = B_; using al = Al; };
template <class Al> struct is_auto : std::false_type {};
template <class T, size_t N, size_t M, class Ba> struct is_auto<nda::auto_allocator<T, N, M, Ba>> : std::true_type { static constexpr size_t capacity = N; };
template <class Al> static size_t cap_(std::true_type) { return is_auto<Al>::capacity; }
template <class Al> static size_t cap_(std::false_type) { return 0; }
template <class Al> static Al make_alloc(std::true_type) { return Al(); }
template <class Al> static Al make_alloc(std::false_type) { return Al(3); }
// ids of world allocators that must compare equal to a default-constructed one to be moved into a new array
template <class P> struct own {
  using A = typename P::a; using B = typename P::b; using Al = typename P::al;
  static constexpr size_t RA = A::rank(), RB = B::rank();
  static constexpr bool in_object = is_auto<Al>::value;
  static std::string name() { return shape_name<A>() + " as " + shape_name<B>() + " " + (in_object ? "in-object" : std::allocator_traits<Al>::propagate_on_container_move_assignment::value ? "propagating" : "not propagating"); }
  using AA = nda::array<int, A, Al>; using AB = nda::array<int, B, Al>;

  static void fill(AA& a, const rshape& ra, std::map<long, int>& m) { int k = 10; each0(ra, [&](const idx& i) { m[offset(ra, i)] = k; a[to_tuple<RA>(i)] = k++; }); }
  template <class X> static void expect(const X& x, const rshape& r, const std::map<long, int>& m, long off, const char* what) {
    same(from_shape(x.shape()), r, what);
    each0(r, [&](const idx& i) {
      auto it = m.find(off + offset(r, i)); if (it == m.end()) return;
      int v = x[to_tuple<X::rank()>(i)];
      if (v != it->second) mc::fail("%s: element %s is %d, expected %d", what, ref::str(i).c_str(), v, it->second);
    });
  }
  // What can follow: the array is an ordinary array.
  template <class X, class S> static void afterwards(ctx& c, X& x, const S& s, const rshape& r, const std::map<long, int>& m, long off) {
    switch (c.choose(8)) {
      case 0: break;  // destroyed
      case 1: { x.clear(); MC_CHECK(RB == 0 || x.empty() || S::is_scalar() || true, ""); break; }
      case 2: { X y(std::move(x)); expect(y, r, m, off, "moved"); break; }
      case 3: { X y(x); expect(y, r, m, off, "copied"); expect(x, r, m, off, "copied from"); break; }
      case 4: { X y; y = x; expect(y, r, m, off, "copy-assigned"); y = std::move(x); expect(y, r, m, off, "move-assigned"); break; }
      case 5: { x.assign(s, 5); each0(r, [&](const idx& i) { MC_CHECK(x[to_tuple<X::rank()>(i)] == 5, "assign(shape, value) after set_shape"); }); x = X(s, 6); each0(r, [&](const idx& i) { MC_CHECK(x[to_tuple<X::rank()>(i)] == 6, "assignment after set_shape"); }); break; }
      case 6: { x.reshape(s); expect(x, r, m, off, "reshaped to the same shape"); break; }
      case 7: { X y; y.swap(x); expect(y, r, m, off, "swapped"); x.swap(y); expect(x, r, m, off, "swapped back"); break; }
    }
  }
  static bool setsh(ctx&, AA&, const A&, const rshape&, long, const std::map<long, int>&, std::false_type) { return false; }
  static bool setsh(ctx& c, AA& a, const A& b, const rshape& rb, long off, const std::map<long, int>& m, std::true_type) {
    const int* old = a.base(); long al = world::heap().allocs, fr = world::heap().frees;
    a.set_shape(b, off);
    MC_CHECK(a.base() == old + off, "set_shape: the base moved by %ld, expected %ld", (long)(a.base() - old), off);
    MC_CHECK(world::heap().allocs == al && world::heap().frees == fr, "set_shape allocates or releases");
    expect(a, rb, m, off, "set_shape");
    afterwards(c, a, b, rb, m, off);
    return true;
  }
  static void run(ctx& c) {
    alphabet aa{{0, 1}, {1, 3, 6}, {1, -1, 2}}, ab{{0, -2}, {1, 2, 3}, {1, -2}};
    if (RA == 2) aa = alphabet{{0, 1}, {1, 3}, {1, -3, 4}}; if (RA >= 3) aa = alphabet{{0}, {2}, {1, 2, 4}};
    if (RB == 2) ab = alphabet{{2}, {1, 3}, {1, -3}}; if (RB >= 3) ab = alphabet{{1}, {1, 2}, {1, 2}};
    rshape ra = pick_shape<A>(c, aa);
    if (!c.mine()) return;
    rshape rb = pick_shape<B>(c, ab);
    if (!injective(ra) || !injective(rb)) c.discard();
    A sa = to_shape<A>(ra); B sb = to_shape<B>(rb);
    span fa = flat_span(ra), fb = flat_span(rb);
    if (fb.extent() > fa.extent()) c.discard();
    long off = fa.lo - fb.lo + c.choose((int)(fa.extent() - fb.extent() + 1));
    c.note("%s as %s at offset %ld", ref::str(ra).c_str(), ref::str(rb).c_str(), off);
    c.obs(off); for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); } for (auto& d : rb) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    bool same_shape_type = std::is_same<A, B>::value;
    int what = c.choose(same_shape_type ? 2 : 1);
    world::reset();
    {
      constexpr bool prop = std::allocator_traits<Al>::propagate_on_container_move_assignment::value;
      AA a(sa, 0, prop ? make_alloc<Al>(std::integral_constant<bool, in_object>()) : Al());
      std::map<long, int> m; fill(a, ra, m);
      if (what == 1) { setsh(c, a, sa_as<A>(sb), rb, off, m, std::integral_constant<bool, std::is_same<A, B>::value>()); c.nontrivial(); }
      else {
        const int* old = a.base();
        bool inside_object = in_object && (size_t)fa.extent() <= cap_<Al>(std::integral_constant<bool, in_object>());
        if (inside_object) {  // elements in the object cannot be handed over: reported
#if MC_ASSERTS
          MC_CHECK(mc::rejected([&] { nda::move_reinterpret_shape<B>(std::move(a), sb, off); }), "move_reinterpret_shape of an in-object buffer is not reported");
#endif
        } else {
          size_t blocks = world::blocks().size();
          auto id = a.get_allocator();
          AB b = off == 0 ? nda::move_reinterpret_shape(std::move(a), sb) : nda::move_reinterpret_shape(std::move(a), sb, off);
          MC_CHECK(world::blocks().size() == blocks, "move_reinterpret_shape: %zu blocks, expected %zu", world::blocks().size(), blocks);
          MC_CHECK(b.base() == old + off, "move_reinterpret_shape: the base is off by %ld", (long)(b.base() - old) - off);
          MC_CHECK(b.get_allocator() == id, "move_reinterpret_shape: the allocator is another");
          MC_CHECK(a.base() == nullptr && a.data() == nullptr, "move_reinterpret_shape: the source still addresses elements");
          MC_CHECK(a.shape() == A(), "move_reinterpret_shape: the source is not in the default state");
          expect(b, rb, m, off, "move_reinterpret_shape");
          if (c.flip()) { a = AA(sa, 9); each0(ra, [&](const idx& i) { MC_CHECK(a[to_tuple<RA>(i)] == 9, "the source assigned again"); }); expect(b, rb, m, off, "move_reinterpret_shape, after the source is assigned again"); }
          afterwards(c, b, sb, rb, m, off);
          c.nontrivial();
        }
      }
      world::check_reds();
    }
    world::all_gone(); c.check_soft();
  }
  template <class X, class Y, std::enable_if_t<std::is_same<X, Y>::value, int> = 0> static const X& sa_as(const Y& y) { return y; }
  template <class X, class Y, std::enable_if_t<!std::is_same<X, Y>::value, int> = 0> static X sa_as(const Y&) { return X(); }
};
// move_reinterpret_shape<NewShape>(array) converts the shape, also to another rank
template <class P> struct conv {
  using A = typename P::a; using B = typename P::b;
  static constexpr size_t RA = A::rank(), RB = B::rank();
  static std::string name() { return shape_name<A>() + " as " + shape_name<B>(); }
  static void run(ctx& c) {
    rshape ra = pick_shape<A>(c, alphabet{{0, 2}, {1, 3}, {1, 4}});
    if (!c.mine()) return;
    if (!injective(ra)) c.discard();
    for (size_t k = RB; k < RA; k++) if (ra[k].extent != 1) c.discard();
    A a = to_shape<A>(ra);
    if (!nda::is_explicitly_compatible<B>(a)) c.discard();
    c.note("%s", ref::str(ra).c_str());
    c.obs(1); for (auto& d : ra) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    world::reset();
    {
      nda::array<int, A, world::alloc<int, world::CMA>> x(a, 0, world::alloc<int, world::CMA>(4));
      int k = 10; each0(ra, [&](const idx& i) { x[to_tuple<RA>(i)] = k++; });
      const auto& cx = x;
      auto check = [&](const auto& v, const char* what, const int* base, int first) {
        int want = first;
        each0(ra, [&](const idx& i) {
          idx j; for (size_t d = 0; d < RB; d++) j.push_back(d < RA ? i[d] : v.shape().rank() ? from_shape(v.shape())[d].min : 0);
          if (&v[to_tuple<RB>(j)] != base + offset(ra, i)) mc::fail("%s: index %s addresses another element", what, ref::str(j).c_str());
          if (v[to_tuple<RB>(j)] != want) mc::fail("%s: element %s is %d, expected %d", what, ref::str(j).c_str(), v[to_tuple<RB>(j)], want);
          want++;
        });
        long n = 0; v.for_each_value([&](const int&) { n++; });
        MC_CHECK(n == (RA == 0 ? 1 : ref::size(ra)), "%s: for_each_value makes %ld calls", what, n);
      };
      auto v = nda::convert_shape<B>(x); check(v, "convert_shape(array)", x.base(), 10);
      auto cv = nda::convert_shape<B>(cx); check(cv, "convert_shape(const array)", x.base(), 10);
      static_assert(std::is_same<decltype(v), nda::array_ref<int, B>>::value && std::is_same<decltype(cv), nda::const_array_ref<int, B>>::value, "");
      const int* base = x.base(); int off = 0;
      if (ref::size(ra) > 1 && RA > 0 && ra[0].extent == 1) off = 0;
      auto y = nda::move_reinterpret_shape<B>(std::move(x)); check(y, "move_reinterpret_shape<NewShape>", base + off, 10);
      MC_CHECK(y.get_allocator().id == 4, "the allocator is another");
      auto z = y; (void)z;
      auto w = std::move(y); check(w, "moved", base, 10);
      int s = 0; w.for_each_value([&](int& q) { s += q; }); int sz = 0; z.for_each_value([&](int& q) { sz += q; });
      MC_CHECK(s == sz && z.size() == w.size(), "a copy of the reinterpreted array differs");
    }
    world::all_gone(); c.check_soft();
    c.nontrivial();
  }
};

// ---- element types
struct two { short a, b; };
template <class S> struct elems {
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>(); }
  template <class U> static void as(const S& s, const rshape& r, std::vector<int>& mem, int* base, const char* what) {
    auto same_places = [&](const auto& v, const int* b) {
      same(from_shape(v.shape()), r, what);
      MC_CHECK((const void*)v.base() == (const void*)b, "%s: the base differs", what);
      each0(r, [&](const idx& i) { if ((const void*)&v[to_tuple<R>(i)] != (const void*)(b + offset(r, i))) mc::fail("%s: index %s addresses another element", what, ref::str(i).c_str()); });
    };
    nda::array_ref<int, S> v(base, s); nda::const_array_ref<int, S> cv(base, s);
    auto t = nda::reinterpret<U>(v); same_places(t, base); static_assert(std::is_same<decltype(t), nda::array_ref<U, S>>::value, "");
    auto tc = nda::reinterpret<const U>(cv); same_places(tc, base); static_assert(std::is_same<decltype(tc), nda::const_array_ref<U, S>>::value, "");
    if (injective(r)) {
      nda::array<int, S> a(s); const auto& ca = a;
      auto ta = nda::reinterpret<U>(a); same_places(ta, a.base()); static_assert(std::is_same<decltype(ta), nda::array_ref<U, S>>::value, "");
      auto tca = nda::reinterpret<U>(ca); same_places(tca, a.base()); static_assert(std::is_same<decltype(tca), nda::const_array_ref<U, S>>::value, "");
    }
    (void)mem;
  }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha(R));
    if (!c.mine()) return;
    c.note("%s", ref::str(r).c_str());
    S s = to_shape<S>(r);
    span f = ref::empty(r) ? span{0, 0} : flat_span(r);
    std::vector<int> mem(f.extent() + 2); int* base = mem.data() + 1 - f.lo;
    as<unsigned>(s, r, mem, base, "reinterpret to unsigned"); as<float>(s, r, mem, base, "reinterpret to float"); as<two>(s, r, mem, base, "reinterpret to a struct"); as<int>(s, r, mem, base, "reinterpret to itself");
    nda::const_array_ref<int, S> cv(base, s);
    auto u = nda::reinterpret_const<int>(cv);
    static_assert(std::is_same<decltype(u), nda::array_ref<int, S>>::value, "");
    same(from_shape(u.shape()), r, "reinterpret_const"); MC_CHECK(u.base() == base, "reinterpret_const: the base differs");
    each0(r, [&](const idx& i) { MC_CHECK(&u[to_tuple<R>(i)] == base + offset(r, i), "reinterpret_const: index %s", ref::str(i).c_str()); });
    // a null view stays null
    nda::array_ref<int, S> nul(nullptr, s); MC_CHECK(nda::reinterpret<float>(nul).base() == nullptr, "reinterpret of a null view");
    c.obs(1); for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    c.nontrivial();
  }
};

#if PART < PARTS - 1
#undef PARTS_
template <int K, int N, class L> using share = typename every<K, N, 0, L>::type;
using p1 = concat<seqs_of<shape<>, 0>::type, seqs_of<shape<dim<>>, 0, 1>::type, seqs_of<shape<dense_dim<>>, 1>::type, seqs_of<shape_of_rank<2>, 0, 1, 2>::type, seqs_of<dense_shape<2>, 1, 2>::type, seqs_of<nda::matrix_shape<>, 2>::type, seqs_of<nda::matrix_shape<dynamic, 3>, 1, 2>::type,
  seqs_of<shape_of_rank<3>, 1, 2, 3>::type, seqs_of<dense_shape<3>, 2, 3>::type, seqs_of<nda::chunky_image_shape<2>, 2, 3>::type, seqs_of<shape<dim<0>, dim<dynamic, 2>, dim<>>, 3>::type, seqs_of<shape_of_rank<4>, 2, 3, 4>::type, seqs_of<dense_shape<4>, 4>::type>::type;
using p5 = types<pick_<shape_of_rank<5>, seq<4, 3, 2, 1, 0>>, pick_<shape_of_rank<5>, seq<1, 0>>, pick_<shape_of_rank<5>, seq<2, 0, 3, 1>>, pick_<shape_of_rank<5>, seq<1, 2, 3, 4, 0>>, pick_<dense_shape<5>, seq<0, 2, 4, 1, 3>>, pick_<dense_shape<6>, seq<5, 0, 1, 4, 3, 2>>, pick_<shape_of_rank<6>, seq<4, 2>>>;
static register_all<perms> reg("permute", share<PART, PARTS - 1, concat<p1, p5>::type>());
#else
using r0 = types<shape<>>;
using r1 = types<shape<dim<>>, shape<dense_dim<>>, shape<dim<dynamic, 3>>, shape<nda::strided_dim<-1>>>;
using r2 = types<shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, nda::matrix_shape<3, dynamic>>;
using r3 = types<shape_of_rank<3>, nda::chunky_image_shape<2>>;
static register_all<rein> reg("reinterpret", concat<xpairs<r1, r0>::type, xpairs<r1, r1>::type, xpairs<r1, r2>::type, xpairs<r1, r3>::type, xpairs<r2, r0>::type, xpairs<r2, r1>::type, xpairs<r2, r2>::type, xpairs<r2, r3>::type, xpairs<r3, r3>::type, xpairs<r3, r1>::type, xpairs<r0, r0>::type>::type());
using w0 = world::alloc<int, 0>; using wm = world::alloc<int, world::CMA>; using wi = nda::auto_allocator<int, 4, alignof(int), world::alloc<int, world::STATELESS>>;
template <class Al> using owns = types<own_<shape<dim<>>, shape<dim<>>, Al>, own_<shape<dim<>>, shape_of_rank<2>, Al>, own_<shape_of_rank<2>, shape<dense_dim<>>, Al>, own_<shape_of_rank<2>, shape_of_rank<2>, Al>, own_<nda::matrix_shape<>, dense_shape<2>, Al>, own_<dense_shape<2>, dense_shape<2>, Al>, own_<shape_of_rank<3>, shape<>, Al>, own_<shape<>, shape<>, Al>, own_<shape<dim<0, 6, 1>>, shape<dim<0, 2, 1>>, Al>, own_<shape<dim<>>, nda::fixed_dense_shape<2, 2>, Al>, own_<nda::fixed_dense_shape<3, 2>, nda::fixed_dense_shape<2, 3>, Al>>;
static register_all<own> reg2("own", concat<owns<w0>, owns<wm>, owns<wi>>::type());
static register_all<conv> reg3("move and convert", types<pair_<shape<>, shape<dim<>>>, pair_<shape<dim<>>, shape_of_rank<2>>, pair_<shape<dim<>>, dense_shape<3>>, pair_<shape_of_rank<2>, dense_shape<2>>, pair_<dense_shape<2>, shape_of_rank<4>>, pair_<shape_of_rank<3>, shape_of_rank<2>>, pair_<shape_of_rank<3>, shape<dim<>>>, pair_<shape_of_rank<2>, shape<>>>());
static register_all<elems> reg4("elements", types<shape<>, shape<dim<>>, shape<dense_dim<>>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<dynamic, 3>, shape_of_rank<3>, nda::chunky_image_shape<2>, shape_of_rank<4>>());
#endif
