// C26: callables passed by the caller are invoked in place; named ones keep their state, temporaries, move-only and type-erased ones are accepted.
#include "ref.h"
#include "world.h"
#include <functional>
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
using namespace ref;
using nda::dim; using nda::dynamic; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::shape;
static const long DYN = (long)nda::dynamic;

// ---- what every call reports to
struct sink {
  long calls = 0, copies = 0, moves = 0, consumed = 0, dead = 0, elsewhere = 0;
  const void* self = nullptr;  // the caller's object, if calls must be made on it
  std::map<idx, long> args;    // arguments -> returned value, of the last step
  long hit(const void* who, const idx& a) { calls++; if (self && who != self) elsewhere++; args[a] = calls; return calls; }
};
inline void add(idx&) {}
template <class... R> void add(idx& v, const int& x, const R&... r);
template <class... T, class... R> void add(idx& v, const std::tuple<T...>& t, const R&... r);
template <class I, class... R> std::enable_if_t<std::is_same<I, long>::value || std::is_same<I, size_t>::value || std::is_same<I, ptrdiff_t>::value> add(idx& v, const I& x, const R&... r) { v.push_back((long)x); add(v, r...); }
template <class... R> void add(idx& v, const int& x, const R&... r) { v.push_back(x); add(v, r...); }
template <class... T, class... R> void add(idx& v, const std::tuple<T...>& t, const R&... r) { for (long x : from_tuple(t)) v.push_back(x); add(v, r...); }
template <class... A> idx pack(const A&... a) { idx v; add(v, a...); return v; }

// a stateful callable that notices being copied, moved from, consumed or called after that
template <bool Copyable, bool Movable> struct functor_base { functor_base() {} functor_base(const functor_base&) {} functor_base(functor_base&&) {} };
template <> struct functor_base<false, true> { functor_base() {} functor_base(const functor_base&) = delete; functor_base(functor_base&&) {} };
template <> struct functor_base<false, false> { functor_base() {} functor_base(const functor_base&) = delete; functor_base(functor_base&&) = delete; };
template <bool C, bool M> struct functor_state : functor_base<C, M> {
  sink* s; mutable bool alive = true; mutable long own = 0;
  explicit functor_state(sink* s) : s(s) {}
  functor_state(const functor_state&) = default; functor_state(functor_state&&) = default;
};
template <> struct functor_state<true, true> {
  sink* s; mutable bool alive = true; mutable long own = 0;
  explicit functor_state(sink* s) : s(s) {}
  functor_state(const functor_state& o) : s(o.s), alive(o.alive), own(o.own) { s->copies++; }
  functor_state(functor_state&& o) : s(o.s), alive(o.alive), own(o.own) { s->moves++; o.alive = false; }
};
template <bool C, bool M> struct functor : functor_state<C, M> {
  using functor_state<C, M>::functor_state;
  long go(const idx& a) const { if (!this->alive) this->s->dead++; this->own++; return this->s->hit(this, a); }
  template <class... A> long operator()(const A&... a) & { return go(pack(a...)); }
  template <class... A> long operator()(const A&... a) const& { return go(pack(a...)); }
  template <class... A> long operator()(const A&... a) && { this->s->consumed++; long r = go(pack(a...)); this->alive = false; return r; }
};
static sink* fn_sink;
template <class... A> static long plain(A... a) { return fn_sink->hit(nullptr, pack(a...)); }

enum K { NAMED, TEMP, CNAMED, MOVEONLY, MOVEONLY_TEMP, MOVED, IMMOVABLE, IMMOVABLE_CONST, FUNCTION, FUNCTION_TEMP, FUNCTION_CONST, FNPTR, FNREF, LAMBDA, MUTLAMBDA, MUTLAMBDA_TEMP, REFWRAP, NKINDS };
static const char* kname[] = {"named functor", "temporary functor", "const functor", "move-only functor", "temporary move-only functor", "moved functor", "immovable functor", "const immovable functor", "std::function", "temporary std::function", "const std::function", "function pointer", "function", "lambda", "mutable lambda", "temporary mutable lambda", "reference wrapper"};

// Run every step with a callable of the kind; a named one is the same object throughout.
template <class Sig> struct with;
template <class... A> struct with<types<A...>> {
  template <class F> static void named(sink& s, F& f, const void* self) {
    MC_CHECK(s.copies == 0 && s.moves == 0 && s.consumed == 0, "the callable was copied %ld times, moved %ld times, consumed %ld times", s.copies, s.moves, s.consumed); (void)f; (void)self;
  }
  template <class Step> static void run(int k, sink& s, Step&& step, int n) {
    auto steps = [&](auto& f) { for (int i = 0; i < n; i++) step.template call<true>(i, f); };
    switch (k) {
      case NAMED: { functor<true, true> f(&s); s.self = &f; steps(f); named(s, f, &f); MC_CHECK(f.own == s.calls && f.alive, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
      case TEMP: for (int i = 0; i < n; i++) step.template call<true>(i, functor<true, true>(&s)); MC_CHECK(s.dead == 0, "a temporary was called after being moved from or consumed"); break;
      case CNAMED: { const functor<true, true> f(&s); s.self = &f; steps(f); named(s, f, &f); MC_CHECK(f.own == s.calls && f.alive, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
      case MOVEONLY: { functor<false, true> f(&s); s.self = &f; steps(f); MC_CHECK(f.own == s.calls, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
      case MOVEONLY_TEMP: for (int i = 0; i < n; i++) step.template call<true>(i, functor<false, true>(&s)); break;
      case MOVED: for (int i = 0; i < n; i++) { functor<true, true> f(&s); step.template call<true>(i, std::move(f)); } MC_CHECK(s.dead == 0, "a callable was called after being moved from or consumed"); break;
      case IMMOVABLE: { functor<false, false> f(&s); s.self = &f; steps(f); MC_CHECK(f.own == s.calls, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
      case IMMOVABLE_CONST: { const functor<false, false> f(&s); s.self = &f; steps(f); MC_CHECK(f.own == s.calls, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
      case FUNCTION: { std::function<long(A...)> f = [&](const A&... a) { return s.hit(nullptr, pack(a...)); }; steps(f); MC_CHECK((bool)f, "the caller's function is empty"); break; }
      case FUNCTION_TEMP: for (int i = 0; i < n; i++) step.template call<true>(i, std::function<long(A...)>([&](const A&... a) { return s.hit(nullptr, pack(a...)); })); break;
      case FUNCTION_CONST: { const std::function<long(A...)> f = [&](const A&... a) { return s.hit(nullptr, pack(a...)); }; steps(f); MC_CHECK((bool)f, "the caller's function is empty"); break; }
      case FNPTR: { fn_sink = &s; long (*f)(A...) = &plain<A...>; steps(f); break; }
      case FNREF: { fn_sink = &s; for (int i = 0; i < n; i++) step.template call<true>(i, plain<A...>); break; }
      case LAMBDA: { auto f = [&](const A&... a) { return s.hit(nullptr, pack(a...)); }; steps(f); break; }
      case MUTLAMBDA: { long own = 0; auto f = [own, &s](const A&... a) mutable { s.hit(nullptr, pack(a...)); return ++own; }; for (int i = 0; i < n; i++) step.template call<false>(i, f); long before = s.calls; long v = f(step.template arg<A>()...); MC_CHECK(v == before + 1, "the caller's lambda counted %ld of %ld calls", v - 1, before); s.calls = before; break; }
      case MUTLAMBDA_TEMP: for (int i = 0; i < n; i++) { long own = s.calls; step.template call<false>(i, [own, &s](const A&... a) mutable { s.hit(nullptr, pack(a...)); return ++own; }); } break;
      case REFWRAP: { functor<false, false> f(&s); s.self = &f; for (int i = 0; i < n; i++) step.template call<true>(i, std::ref(f)); MC_CHECK(f.own == s.calls, "the caller's object saw %ld of %ld calls", f.own, s.calls); break; }
    }
    MC_CHECK(s.elsewhere == 0, "%ld calls were made on another object than the caller's", s.elsewhere);
  }
};

template <class S> struct place {
  rshape r; std::vector<int> mem; int* base; long n;
  explicit place(const rshape& r) : r(r) {
    const bool e = !r.empty() && ref::empty(r);
    ref::span sp = e || r.empty() ? ref::span{0, 0} : flat_span(r);
    n = r.empty() ? 1 : e ? 0 : ref::size(r);
    mem.assign(sp.extent() + 2, -1); base = mem.data() + 1 - sp.lo;
    if (!e) { long v = 100; if (r.empty()) base[0] = 100; else each(r, [&](const idx& i) { base[offset(r, i)] = (int)v++; }); }
  }
  int at(const idx& i) const { return r.empty() ? base[0] : base[offset(r, i)]; }
  nda::array_ref<int, S> view() { return nda::array_ref<int, S>(base, to_shape<S>(r)); }
};
template <class F> static void each0(const rshape& r, F&& f) { if (r.empty()) f(idx()); else if (!ref::empty(r)) each(r, f); }
template <size_t R, class L> struct nargs; template <size_t R, class... L> struct nargs<R, types<L...>> { using type = typename nargs<R - 1, types<L..., index_t>>::type; };
template <class... L> struct nargs<0, types<L...>> { using type = types<L...>; };

using seq_t = std::vector<int>;
template <class S> struct step_base {
  static constexpr size_t R = S::rank();
  rshape r; seq_t which; sink& s; S sh;
  step_base(const rshape& r, const seq_t& w, sink& s) : r(r), which(w), s(s), sh(to_shape<S>(r)) {}
  long before = 0;
  void begin() { before = s.calls; s.args.clear(); }
  // each element got the value of one call, all different
  template <class Get> void end(const char* what, bool values, bool by_index, Get&& get) {
    long n = r.empty() ? 1 : ref::empty(r) ? 0 : ref::size(r);
    MC_CHECK(s.calls == before + n, "%s: %ld calls for %ld elements", what, s.calls - before, n);
    if (!values) return;
    std::map<long, long> seen;
    each0(r, [&](const idx& i) {
      long v = get(i); seen[v]++;
      MC_CHECK(v > before && v <= before + n && seen[v] == 1, "%s: element %s is %ld", what, ref::str(i).c_str(), v);
      if (by_index) MC_CHECK(s.args.count(i) && s.args[i] == v, "%s: element %s is not what the callable returned for it", what, ref::str(i).c_str());
    });
  }
  void end(const char* what) { end(what, false, false, [](const idx&) { return 0; }); }
  template <class T, std::enable_if_t<std::is_same<std::decay_t<T>, index_t>::value && !std::is_same<T, const int&>::value, int> = 0> index_t arg() { return 0; }
  template <class T, std::enable_if_t<std::is_same<T, const int&>::value, int> = 0> const int& arg() { static int x = 0; return x; }
  template <class T, std::enable_if_t<std::is_same<T, typename S::index_type>::value, int> = 0> T arg() { return T(); }
};
template <class S> struct generates : step_base<S> {
  using B = step_base<S>; using B::B; using B::r; using B::sh;
  using sig = types<>; static constexpr int N = 4; static const char* name() { return "generate"; }
  template <bool ConstOk, class F> void call(int i, F&& f) {
    this->begin();
    switch (this->which[i]) {
      case 0: { place<S> p(r); nda::generate(p.view(), std::forward<F>(f)); this->end("generate of a view", true, false, [&](const idx& x) { return p.at(x); }); break; }
      case 1: { nda::array<int, S> a(sh, 0); nda::generate(a, std::forward<F>(f)); this->end("generate of an array", true, false, [&](const idx& x) { return a[to_tuple<S::rank()>(x)]; }); break; }
      case 2: { nda::array<int, S, nda::auto_allocator<int, 8>> a(sh, 0); nda::generate(a, std::forward<F>(f)); this->end("generate of an array with an in-object buffer", true, false, [&](const idx& x) { return a[to_tuple<S::rank()>(x)]; }); break; }
      case 3: { nda::array<long, S> a(sh, 0); auto v = a.ref(); nda::generate(v, std::forward<F>(f)); this->end("generate of a named view", true, false, [&](const idx& x) { return a[to_tuple<S::rank()>(x)]; }); break; }
    }
  }
};
template <class Q> struct reversed; template <size_t... I> struct reversed<std::index_sequence<I...>> {
  template <class S, class F> static void each(const S& s, F&& f) { nda::for_each_index<(sizeof...(I) - 1 - I)...>(s, std::forward<F>(f)); }
  template <class S, class F> static void all(const S& s, F&& f) { nda::for_all_indices<(sizeof...(I) - 1 - I)...>(s, std::forward<F>(f)); }
};
template <class S, size_t... I> static auto ranges(const S& s, std::index_sequence<I...>) { return std::make_tuple(nda::interval<>(s.template dim<I>().min(), s.template dim<I>().extent())...); }
template <class S, class F> static std::enable_if_t<(S::rank() > 0)> z_each(const S& s, F&& f) { nda::for_each_in_z_order(ranges(s, std::make_index_sequence<S::rank()>()), std::forward<F>(f)); }
template <class S, class F> static std::enable_if_t<(S::rank() > 0)> z_all(const S& s, F&& f) { nda::for_all_in_z_order(ranges(s, std::make_index_sequence<S::rank()>()), std::forward<F>(f)); }
template <class S, class F> static std::enable_if_t<S::rank() == 0> z_each(const S&, F&& f) { f(typename S::index_type()); }
template <class S, class F> static std::enable_if_t<S::rank() == 0> z_all(const S&, F&& f) { f(); }
template <class S> struct by_index : step_base<S> {
  using B = step_base<S>; using B::B; using B::r; using B::sh;
  using I = typename S::index_type; using sig = types<I>; static constexpr int N = 7; static const char* name() { return "index"; }
  template <class F> void z(std::true_type, F&& f) { z_each(sh, std::forward<F>(f)); }
  template <class F> void z(std::false_type, F&& f) { nda::for_each_index(sh, std::forward<F>(f)); }
  template <bool ConstOk, class F> void call(int i, F&& f) {
    this->begin();
    switch (this->which[i]) {
      case 0: nda::for_each_index(sh, std::forward<F>(f)); this->end("for_each_index"); break;
      case 1: reversed<std::make_index_sequence<S::rank()>>::each(sh, std::forward<F>(f)); this->end("for_each_index in a given order"); break;
      case 2: nda::for_each_index_in_order(sh, std::forward<F>(f)); this->end("for_each_index_in_order"); break;
      case 3: nda::shape_traits<S>::for_each_index(sh, std::forward<F>(f)); this->end("shape_traits::for_each_index"); break;
      case 4: { place<S> p(r); nda::transform_index(p.view(), std::forward<F>(f)); this->end("transform_index of a view", true, ConstOk, [&](const idx& x) { return p.at(x); }); break; }
      case 5: { nda::array<int, S> a(sh, 0); nda::transform_index(a, std::forward<F>(f)); this->end("transform_index of an array", true, ConstOk, [&](const idx& x) { return a[to_tuple<S::rank()>(x)]; }); break; }
      case 6: z(std::integral_constant<bool, ConstOk>(), std::forward<F>(f)); this->end("for_each_in_z_order"); break;
    }
  }
};
template <class S> struct by_indices : step_base<S> {
  using B = step_base<S>; using B::B; using B::r; using B::sh;
  using sig = typename nargs<S::rank(), types<>>::type; static constexpr int N = 5; static const char* name() { return "indices"; }
  template <class F> void z(std::true_type, F&& f) { z_all(sh, std::forward<F>(f)); }
  template <class F> void z(std::false_type, F&& f) { nda::for_all_indices(sh, std::forward<F>(f)); }
  template <bool ConstOk, class F> void call(int i, F&& f) {
    this->begin();
    switch (this->which[i]) {
      case 0: nda::for_all_indices(sh, std::forward<F>(f)); this->end("for_all_indices"); break;
      case 1: reversed<std::make_index_sequence<S::rank()>>::all(sh, std::forward<F>(f)); this->end("for_all_indices in a given order"); break;
      case 2: { place<S> p(r); nda::transform_indices(p.view(), std::forward<F>(f)); this->end("transform_indices of a view", true, ConstOk, [&](const idx& x) { return p.at(x); }); break; }
      case 3: { nda::array<int, S> a(sh, 0); nda::transform_indices(a, std::forward<F>(f)); this->end("transform_indices of an array", true, ConstOk, [&](const idx& x) { return a[to_tuple<S::rank()>(x)]; }); break; }
      case 4: z(std::integral_constant<bool, ConstOk>(), std::forward<F>(f)); this->end("for_all_in_z_order"); break;
    }
  }
};
template <class S> struct by_value : step_base<S> {
  using B = step_base<S>; using B::B; using B::r; using B::sh;
  using sig = types<const int&>; static constexpr int N = 7; static const char* name() { return "value"; }
  template <bool ConstOk, class F> void call(int i, F&& f) {
    this->begin();
    place<S> p(r);
    nda::array<int, S> a(sh, 1); const auto& ca = a;
    switch (this->which[i]) {
      case 0: p.view().for_each_value(std::forward<F>(f)); this->end("for_each_value of a view"); break;
      case 1: a.for_each_value(std::forward<F>(f)); this->end("for_each_value of an array"); break;
      case 2: ca.for_each_value(std::forward<F>(f)); this->end("for_each_value of a const array"); break;
      case 3: p.view().cref().for_each_value(std::forward<F>(f)); this->end("for_each_value of a const view"); break;
      case 4: nda::shape_traits<S>::for_each_value(sh, p.base, std::forward<F>(f)); this->end("shape_traits::for_each_value"); break;
      case 5: nda::for_each_value_in_order(sh, p.base, std::forward<F>(f)); this->end("for_each_value_in_order"); break;
      case 6: { const auto v = p.view(); v.for_each_value(std::forward<F>(f)); this->end("for_each_value of a named view"); break; }
    }
  }
};
template <class S> struct by_pair : step_base<S> {
  using B = step_base<S>; using B::B; using B::r; using B::sh;
  using sig = types<const int&, const int&>; static constexpr int N = 3; static const char* name() { return "pair"; }
  template <bool ConstOk, class F> void call(int i, F&& f) {
    this->begin();
    place<S> p(r), q(r);
    nda::array<int, nda::shape_of_rank<S::rank()>> d(nda::shape_of_rank<S::rank()>(sh), 1);
    switch (this->which[i]) {
      case 0: nda::copy_shape_traits<S, S>::for_each_value(sh, p.base, sh, q.base, std::forward<F>(f)); this->end("copy_shape_traits::for_each_value"); break;
      case 1: nda::for_each_value_in_order(sh, sh, p.base, sh, q.base, std::forward<F>(f)); this->end("two-way for_each_value_in_order"); break;
      case 2: nda::copy_shape_traits<S, nda::shape_of_rank<S::rank()>>::for_each_value(sh, p.base, d.shape(), d.base(), std::forward<F>(f)); this->end("copy_shape_traits::for_each_value between types"); break;
    }
  }
};

template <class S> static alphabet alpha() {
  const bool th = mc::thorough();
  if (S::rank() <= 1) return {{0, -2}, {0, 1, 3}, {1, -2}};
  if (S::rank() == 2) return th ? alphabet{{0, -2}, {0, 1, 2, 3}, {1, 2, 4}} : alphabet{{0}, {0, 1, 3}, {1, 4}};
  if (S::rank() == 3) return th ? alphabet{{-1}, {0, 1, 2, 3}, {1, 4, 12}} : alphabet{{0}, {0, 2}, {4, 8}};
  return {{0}, {1, 2}, {1, 8}};
}
template <class T> struct suite {
  static std::string name() { return std::string(T::name()) + " " + shape_name_(); }
  static std::string shape_name_() { return shape_name<decltype(T::sh)>(); }
  static void run(ctx& c) {
    using S = decltype(T::sh);
    int k = c.choose(NKINDS);
    int n = 1 + c.choose(mc::thorough() ? 3 : 2);
    seq_t w; for (int i = 0; i < n; i++) w.push_back(c.choose(T::N));
    rshape r = pick_shape<S>(c, alpha<S>());
    if (S::rank() > 0 && !ref::empty(r) && !injective(r)) return c.skip();
    if (!c.mine()) return;
    // arrays cannot hold negative strides' elements below the base only in views; both are in contract
    c.note("%s, %d steps, shape %s", kname[k], n, ref::str(r).c_str());
    c.obs(k); for (int x : w) c.obs(x); for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    sink s; T step(r, w, s);
    with<typename T::sig>::run(k, s, step, n);
    c.nontrivial();
  }
};
using shapes = types<shape<>, shape<dim<>>, dense_shape<1>, shape_of_rank<2>, dense_shape<2>, nda::matrix_shape<>, shape_of_rank<3>, dense_shape<3>, nda::chunky_image_shape<DYN>, nda::chunky_image_shape<2>, nda::chunky_image_shape<2, 4>, nda::planar_image_shape, nda::fixed_dense_shape<2, 3>, shape_of_rank<4>>;
template <template <class> class T, class L> struct apply_; template <template <class> class T, class... S> struct apply_<T, types<S...>> { using type = types<T<S>...>; };
using all = concat<apply_<generates, shapes>::type, apply_<by_index, shapes>::type, apply_<by_indices, shapes>::type, apply_<by_value, shapes>::type, apply_<by_pair, shapes>::type>::type;
static register_all<suite> reg("callables", part<all>());
