// C33: what the types of a call show to be wrong is rejected where it is written; everything else is accepted.
//
// Every program of a bounded grammar (one call each: an object, a member or function, and the types of its
// arguments) is presented to overload resolution, and its acceptance and the type of its result are compared
// with the rules of the documentation.
#include "ref.h"
#include "array/array.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
using namespace ref;
using nda::array; using nda::array_ref; using nda::const_array_ref; using nda::dim; using nda::interval; using nda::shape; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;

enum want { REJECT = 0, ACCEPT = 1, FREE = -1 };
struct prog { std::string text; bool got; int want; bool right; };
using progs = std::vector<prog>;

template <class...> using void_t = void;
template <template <class...> class E, class V, class... A> struct det { static constexpr bool ok = false; using type = void; };
template <template <class...> class E, class... A> struct det<E, void_t<E<A...>>, A...> { static constexpr bool ok = true; using type = E<A...>; };
template <template <class...> class E, class... A> using detect = det<E, void, A...>;
template <class T> T&& dv();  // a value of type T

template <size_t N> using size_c = std::integral_constant<size_t, N>;
struct bad {};
template <class T> struct named;
#define NAMED(T, S) template <> struct named<T> { static std::string s() { return S; } };
template <class T> std::string nm() { return named<T>::s(); }
template <class... T> std::string nms() { std::string r; std::string a[] = {nm<T>()..., ""}; for (size_t k = 0; k < sizeof...(T); k++) r += (k ? ", " : "") + a[k]; return r; }
using all_t = std::decay<decltype(nda::_)>::type;
NAMED(int, "int") NAMED(interval<>, "interval<>") NAMED(all_t, "_") NAMED(bad, "(something else)") NAMED(const char*, "const char*") NAMED(nda::index_t, "index_t")
typedef interval<2, 3> i23; NAMED(i23, "interval<2, 3>")
typedef nda::dim<> dim_; NAMED(dim_, "dim<>")
NAMED(float, "float") NAMED(double, "double") NAMED(char, "char") NAMED(short, "short") NAMED(const int, "const int") NAMED(std::string, "std::string")

static void suite(ctx& c, const progs& v) {
  size_t k = (size_t)c.choose((int)v.size());
  if (!c.mine()) return;
  const prog& p = v[k];
  c.note("%s", p.text.c_str());
  c.obs((long)k); c.obs(p.got);
  if (p.want != FREE) { c.nontrivial(); MC_CHECK(p.got == (p.want == ACCEPT), "%s is %s", p.text.c_str(), p.got ? "accepted" : "rejected"); }
  MC_CHECK(!p.got || p.right, "%s has another result than documented", p.text.c_str());
}

// ---- what is addressed: shapes, views and arrays, const and not
enum what { SHAPE, CSHAPE, VIEW, CVIEW, VIEWC, ARRAY, CARRAY };
static const char* what_name[] = {"shape", "const shape", "view", "const view", "view of const", "array", "const array"};
template <what W, class S> struct object;
template <class S> struct object<SHAPE, S> { using type = S&; using elem = void; };
template <class S> struct object<CSHAPE, S> { using type = const S&; using elem = void; };
template <class S> struct object<VIEW, S> { using type = array_ref<int, S>&; using elem = int; };
template <class S> struct object<CVIEW, S> { using type = const array_ref<int, S>&; using elem = int; };
template <class S> struct object<VIEWC, S> { using type = const_array_ref<int, S>&; using elem = const int; };
template <class S> struct object<ARRAY, S> { using type = array<int, S>&; using elem = int; };
template <class S> struct object<CARRAY, S> { using type = const array<int, S>&; using elem = const int; };
template <what W, class S> std::string oname() { return std::string(what_name[W]) + " of rank " + std::to_string(S::rank()); }
template <class T> struct is_view : std::false_type {};
template <class T, class S> struct is_view<array_ref<T, S>> : std::true_type { using elem = T; using shape = S; };
template <class T> struct is_shape : std::false_type {};
template <class... D> struct is_shape<shape<D...>> : std::true_type {};

template <class A> constexpr bool index_() { return std::is_same<A, int>::value || std::is_same<A, nda::index_t>::value; }
template <class A> constexpr bool good_() { return !std::is_same<A, bad>::value && !std::is_same<A, const char*>::value; }
constexpr long sum_() { return 0; }
template <class... B> constexpr long sum_(bool b, B... r) { return b + sum_(r...); }

// the result of addressing: an offset, an element or a slice with one dimension per interval
template <class E, size_t N, class R, bool Shape = is_shape<R>::value, bool View = is_view<R>::value> struct sliced : std::false_type {};
template <class E, size_t N, class R> struct sliced<E, N, R, true, false> : std::integral_constant<bool, std::is_void<E>::value && R::rank() == N> {};
template <class E, size_t N, class R> struct sliced<E, N, R, false, true> : std::integral_constant<bool, std::is_same<typename is_view<R>::elem, E>::value && R::rank() == N> {};
template <class E, class R, size_t Slices> constexpr bool result_ok() {
  return Slices ? sliced<E, Slices, R>::value : std::is_void<E>::value ? std::is_same<R, nda::index_t>::value : std::is_same<R, typename std::add_lvalue_reference<E>::type>::value;
}
template <class O, class... A> using call_t = decltype(dv<O>()(dv<A>()...));
template <class O, class T> using sub_t = decltype(dv<O>()[dv<T>()]);
template <class O, class... A> using in_t = decltype(dv<O>().is_in_range(dv<A>()...));
template <what W, class S, class... A> struct addressed {
  using O = typename object<W, S>::type; using E = typename object<W, S>::elem;
  static constexpr size_t slices = sizeof...(A) - sum_(index_<A>()...);
  static constexpr bool good = sizeof...(A) == S::rank() && sum_(good_<A>()...) == (long)sizeof...(A);
  template <class D, bool Ok> struct right : std::true_type {};
  template <class D> struct right<D, true> : std::integral_constant<bool, result_ok<E, typename D::type, slices>()> {};
  static void add(progs& v) {
    using C = detect<call_t, O, A...>; using T = std::tuple<typename std::conditional<index_<A>(), nda::index_t, A>::type...>; using B = detect<sub_t, O, T>;
    std::string a = nms<A...>(), o = oname<W, S>();
    v.push_back({o + " (" + a + ")", C::ok, good ? ACCEPT : REJECT, right<C, C::ok>::value});
    v.push_back({o + " [tuple(" + a + ")]", B::ok, good ? ACCEPT : REJECT, right<B, B::ok>::value});
    in(v, a, std::integral_constant<bool, W == SHAPE || W == CSHAPE>());
  }
  static void in(progs& v, const std::string& a, std::true_type) { using C = detect<in_t, O, A...>; v.push_back({oname<W, S>() + " is_in_range(" + a + ")", C::ok, good ? ACCEPT : REJECT, std::is_same<typename C::type, bool>::value}); }
  static void in(progs&, const std::string&, std::false_type) {}
};
template <what W, class S, class... K> struct kinds {
  template <class... A> static void go(progs& v, size_c<0>, types<A...>) { addressed<W, S, A...>::add(v); }
  template <size_t N, class... A> static void go(progs& v, size_c<N>, types<A...>) { addressed<W, S, A...>::add(v); int d[] = {(go(v, size_c<N - 1>(), types<A..., K>()), 0)...}; (void)d; }
};
template <what W> void all_access(progs& v) {
  using five = size_c<3>;
  kinds<W, shape<>, int, interval<>, bad>::go(v, size_c<2>(), types<>());
  kinds<W, shape_of_rank<1>, int, interval<>, all_t, i23, dim_, nda::index_t, bad, const char*>::go(v, size_c<2>(), types<>());
  kinds<W, dense_shape<2>, int, interval<>, all_t, i23, bad>::go(v, five(), types<>());
  kinds<W, shape_of_rank<2>, int, dim_, const char*>::go(v, five(), types<>());
  kinds<W, shape_of_rank<3>, int, interval<>, bad>::go(v, size_c<4>(), types<>());
  kinds<W, nda::fixed_dense_shape<2, 3, 4>, int, all_t>::go(v, size_c<4>(), types<>());
  kinds<W, shape_of_rank<4>, int, all_t>::go(v, size_c<5>(), types<>());
}

// ---- dimensions by compile-time number
template <class O, class D> using dim_t = decltype(dv<O>().template dim<D::value>());
template <class R, bool Const> struct dim_ref : std::false_type {};
template <class R> struct dim_ref<R&, true> : std::is_const<R> {};
template <class R> struct dim_ref<R&, false> : std::integral_constant<bool, !std::is_const<R>::value> {};
template <what W, class S, size_t D> void dim_of_(progs& v) {
  using X = detect<dim_t, typename object<W, S>::type, size_c<D>>;
  constexpr bool modifiable = W == SHAPE || W == VIEW || W == VIEWC;  // of a view: the shape it keeps, not the elements
  v.push_back({oname<W, S>() + " dim<" + std::to_string(D) + ">()", X::ok, D < S::rank() ? ACCEPT : REJECT, dim_ref<typename X::type, !modifiable>::value});
}
template <what W, class S> void dims_of_(progs& v) { dim_of_<W, S, 0>(v); dim_of_<W, S, 1>(v); dim_of_<W, S, 2>(v); dim_of_<W, S, 3>(v); dim_of_<W, S, 4>(v); dim_of_<W, S, 5>(v); dim_of_<W, S, 9>(v); dim_of_<W, S, 100>(v); }
template <what W> void all_dims(progs& v) {
  dims_of_<W, shape<>>(v); dims_of_<W, shape_of_rank<1>>(v); dims_of_<W, dense_shape<2>>(v); dims_of_<W, nda::fixed_dense_shape<2, 3, 4>>(v); dims_of_<W, shape_of_rank<4>>(v); dims_of_<W, shape_of_rank<5>>(v);
}

// ---- intervals and dims of different constants
constexpr long Y = dynamic;
constexpr bool clash(long a, long b) { return a != Y && b != Y && a != b; }
static std::string cn(long x) { return x == Y ? "*" : std::to_string(x); }
template <class A> std::string in_() { return "interval<" + cn(A::Min) + ", " + cn(A::Extent) + ">"; }
template <class A> std::string dn_() { return "dim<" + cn(A::Min) + ", " + cn(A::Extent) + ", " + cn(A::Stride) + ">"; }
template <class A, class B> using assign_t = decltype(dv<A>() = dv<B>());
template <class A, class B> using eq_t = decltype(dv<A>() == dv<B>());
template <class A, class B> using ne_t = decltype(dv<A>() != dv<B>());
template <class A, class B> void interval_pair(progs& v) {
  int w = clash(A::Min, B::Min) || clash(A::Extent, B::Extent) ? REJECT : ACCEPT;
  std::string a = in_<A>(), b = in_<B>();
  v.push_back({a + " constructed from " + b, std::is_constructible<A, const B&>::value, w, true});
  v.push_back({a + " converted from " + b, std::is_convertible<const B&, A>::value, w, true});
  v.push_back({a + " assigned from " + b, detect<assign_t, A&, const B&>::ok, w, std::is_same<typename detect<assign_t, A&, const B&>::type, A&>::value});
  v.push_back({"const " + a + " assigned from " + b, detect<assign_t, const A&, const B&>::ok, REJECT, true});
  v.push_back({a + " == " + b, detect<eq_t, const A&, const B&>::ok && detect<ne_t, const A&, const B&>::ok, ACCEPT, true});
}
template <class A, class B> void dim_pair(progs& v) {
  int w = clash(A::Min, B::Min) || clash(A::Extent, B::Extent) || clash(A::Stride, B::Stride) ? REJECT : ACCEPT;
  std::string a = dn_<A>(), b = dn_<B>();
  v.push_back({a + " constructed from " + b, std::is_constructible<A, const B&>::value, w, true});
  v.push_back({a + " converted from " + b, std::is_convertible<const B&, A>::value, w, true});
  v.push_back({a + " assigned from " + b, detect<assign_t, A&, const B&>::ok, w, std::is_same<typename detect<assign_t, A&, const B&>::type, A&>::value});
  v.push_back({"const " + a + " assigned from " + b, detect<assign_t, const A&, const B&>::ok, REJECT, true});
  v.push_back({a + " == " + b, detect<eq_t, const A&, const B&>::ok && detect<ne_t, const A&, const B&>::ok, ACCEPT, true});
}
template <class... T> struct pairs {
  template <class A> static void with_i(progs& v) { int d[] = {(interval_pair<A, T>(v), 0)...}; (void)d; }
  template <class A> static void with_d(progs& v) { int d[] = {(dim_pair<A, T>(v), 0)...}; (void)d; }
  static void intervals(progs& v) { int d[] = {(with_i<T>(v), 0)...}; (void)d; }
  static void dims(progs& v) { int d[] = {(with_d<T>(v), 0)...}; (void)d; }
};
template <long M> using intervals_with = types<interval<M, Y>, interval<M, 0>, interval<M, 3>, interval<M, 5>>;
template <class... A, class... B, class... C, class... D> pairs<A..., B..., C..., D...> cat(types<A...>, types<B...>, types<C...>, types<D...>);
using all_intervals = decltype(cat(intervals_with<Y>(), intervals_with<0>(), intervals_with<2>(), intervals_with<-2>()));

template <long M> using dims_with = types<dim<M, Y, Y>, dim<M, Y, 1>, dim<M, Y, 4>, dim<M, Y, -4>, dim<M, Y, 0>, dim<M, 3, Y>, dim<M, 3, 1>, dim<M, 3, -4>, dim<M, 5, Y>, dim<M, 5, 4>>;
using all_dim_types = decltype(cat(dims_with<Y>(), dims_with<0>(), dims_with<-2>(), types<dim<2, Y, Y>, dim<2, 3, 1>, dim<-1, 0, -1>, dim<5, 1, Y>>()));

// ---- ranks: conversions, comparisons, transfers. (A shape of rank 1 also claims to be made from shapes of other ranks.)
template <class D, class S> using compat_t = decltype(nda::is_compatible<D>(dv<S>()));
template <class A, class B> using copy_t = decltype(nda::copy(dv<A>(), dv<B>()));
template <class A, class B> using move_t = decltype(nda::move(dv<A>(), dv<B>()));
template <class A, class B> using mkcopy_t = decltype(nda::make_copy(dv<A>(), dv<B>()));
template <class A, class B> using mkmove_t = decltype(nda::make_move(dv<A>(), dv<B>()));
template <class A, class B> void rank_pair(progs& v) {
  constexpr size_t a = A::rank(), b = B::rank();
  int w = a == b ? ACCEPT : REJECT, conv = a == 1 && b != 1 ? FREE : w;
  std::string t = " of rank " + std::to_string(a), f = " of rank " + std::to_string(b);
  v.push_back({"shape" + t + " constructed from shape" + f, std::is_constructible<A, const B&>::value, conv, true});
  v.push_back({"shape" + t + " constructed from dims" + f, std::is_constructible<A, const typename B::dims_type&>::value, conv, true});
  v.push_back({"shape" + t + " assigned from shape" + f, detect<assign_t, A&, const B&>::ok, conv, true});
  v.push_back({"const shape" + t + " assigned from shape" + f, detect<assign_t, const A&, const B&>::ok, REJECT, true});
  v.push_back({"shape" + t + " == shape" + f, detect<eq_t, const A&, const B&>::ok, conv == FREE || b == 1 ? (a == b ? ACCEPT : FREE) : w, true});
  v.push_back({"shape" + t + " != shape" + f, detect<ne_t, const A&, const B&>::ok, conv == FREE || b == 1 ? (a == b ? ACCEPT : FREE) : w, true});
  v.push_back({"is_compatible, to" + t + " from" + f, detect<compat_t, A, const B&>::ok, a == 1 || b == 1 ? (a == b ? ACCEPT : FREE) : w, true});
  using VA = array_ref<int, A>; using VB = array_ref<int, B>; using CB = const_array_ref<int, B>; using AA = array<int, A>; using AB = array<int, B>;
  v.push_back({"view" + t + " constructed from view" + f, std::is_constructible<VA, const VB&>::value, conv, true});
  v.push_back({"view" + t + " assigned from view" + f, detect<assign_t, VA&, const VB&>::ok, conv, true});
  v.push_back({"view of const" + t + " constructed from view of const" + f, std::is_constructible<const_array_ref<int, A>, const CB&>::value, conv, true});
  v.push_back({"view" + t + " constructed from view of const" + f, std::is_constructible<VA, const CB&>::value, REJECT, true});
  v.push_back({"view" + t + " converted from const array" + f, std::is_convertible<const AB&, VA>::value, REJECT, true});
  v.push_back({"view" + t + " assigned from view of const" + f, detect<assign_t, VA&, const CB&>::ok, REJECT, true});
  v.push_back({"view of float" + t + " constructed from view of int" + f, std::is_constructible<array_ref<float, A>, const VB&>::value, REJECT, true});
  v.push_back({"view of char" + t + " converted from array of int" + f, std::is_convertible<AB&, array_ref<char, A>>::value, REJECT, true});
#define TRANSFER(NAME, E) \
  v.push_back({NAME " view" + f + " to view" + t, detect<E, const VB&, const VA&>::ok, w, true}); \
  v.push_back({NAME " view" + f + " to array" + t, detect<E, const VB&, AA&>::ok, w, true}); \
  v.push_back({NAME " array" + f + " to view" + t, detect<E, AB&, const VA&>::ok, w, true}); \
  v.push_back({NAME " array" + f + " to array" + t, detect<E, AB&, AA&>::ok, w, true});
  TRANSFER("copy", copy_t) TRANSFER("move", move_t)
  v.push_back({"copy view of const" + f + " to view" + t, detect<copy_t, const CB&, const VA&>::ok, w, true});
  v.push_back({"copy const array" + f + " to view" + t, detect<copy_t, const AB&, const VA&>::ok, w, true});
  v.push_back({"copy const array" + f + " to array" + t, detect<copy_t, const AB&, AA&>::ok, w, true});
#define MADE(NAME, E, FROM, X) v.push_back({NAME FROM + f + " with shape" + t, detect<E, X, const A&>::ok, w, std::is_same<typename std::decay<typename detect<E, X, const A&>::type>::type, AA>::value});
  MADE("make_copy of ", mkcopy_t, "view", const VB&) MADE("make_copy of ", mkcopy_t, "view of const", const CB&) MADE("make_copy of ", mkcopy_t, "array", AB&) MADE("make_copy of ", mkcopy_t, "const array", const AB&)
  MADE("make_move of ", mkmove_t, "view", const VB&) MADE("make_move of ", mkmove_t, "array", AB&)
}
using rank_shapes = types<shape<>, shape_of_rank<1>, shape_of_rank<2>, dense_shape<2>, shape_of_rank<3>, nda::chunky_image_shape<3>, shape_of_rank<4>, shape_of_rank<5>>;
template <class A, class... B> void ranks_with(progs& v, types<B...>) { int d[] = {(rank_pair<A, B>(v), 0)...}; (void)d; }
template <class... A> void all_ranks(progs& v, types<A...> all) { int d[] = {(ranks_with<A>(v, all), 0)...}; (void)d; }
// number of dims given to a shape
template <class S> struct shape_args {
  template <class... A> static void go(progs& v) {
    std::string t = "shape of rank " + std::to_string(S::rank());
    v.push_back({t + " constructed from " + std::to_string(sizeof...(A)) + " (" + nms<A...>() + ")", std::is_constructible<S, A...>::value, sizeof...(A) == S::rank() || !sizeof...(A) ? ACCEPT : REJECT, true});
  }
  template <class D> static void each(progs& v) { go<>(v); go<D>(v); go<D, D>(v); go<D, D, D>(v); go<D, D, D, D>(v); go<D, D, D, D, D>(v); }
  static void all(progs& v) { each<int>(v); each<dim_>(v); each<interval<>>(v); }
};

// ---- callables
struct fi0 { int operator()() const; };
template <class... A> struct fn { void operator()(A...) const; };
template <size_t N, class T> using nth = T;
template <class T, size_t... I> fn<nth<I, T>...> fn_of_(std::index_sequence<I...>);
template <class T, size_t N> using fn_of = decltype(fn_of_<T>(std::make_index_sequence<N>()));
template <class S, class F> using each_index_t = decltype(nda::for_each_index(dv<S>(), dv<F>()));
template <class S, class F> using all_indices_t = decltype(nda::for_all_indices(dv<S>(), dv<F>()));
template <class S, class F> using in_order_t = decltype(nda::for_each_index_in_order(dv<S>(), dv<F>()));
template <size_t... I> struct order {
  template <class S, class F> using each_index_t = decltype(nda::for_each_index<I...>(dv<S>(), dv<F>()));
  template <class S, class F> using all_indices_t = decltype(nda::for_all_indices<I...>(dv<S>(), dv<F>()));
};
template <class S, size_t N, size_t... I> void ordered(progs& v, std::index_sequence<I...>) {
  constexpr size_t r = S::rank();
  using F = fn_of<int, N>; using G = fn<nda::index_of_rank<N>>;
  std::string s = " over shape of rank " + std::to_string(r), a = std::to_string(N);
  using o = order<(r - 1 - I)...>;
  v.push_back({"for_all_indices with an order" + s + " with a function of " + a + " indices", detect<o::template all_indices_t, const S&, F>::ok, N == r ? ACCEPT : REJECT, true});
  v.push_back({"for_each_index with an order" + s + " with a function of an index of rank " + a, detect<o::template each_index_t, const S&, G>::ok, N == r ? ACCEPT : REJECT, true});
}
template <class S, size_t N> void ordered(progs&, std::index_sequence<>) {}
template <class S, size_t N> void loop(progs& v) {
  constexpr size_t r = S::rank();
  std::string s = " over shape of rank " + std::to_string(r), a = std::to_string(N);
  using F = fn_of<int, N>; using G = fn<nda::index_of_rank<N>>; using B = fn_of<const char*, N>;
  int w = N == r ? ACCEPT : REJECT;
  v.push_back({"for_all_indices" + s + " with a function of " + a + " indices", detect<all_indices_t, const S&, F>::ok, w, true});
  v.push_back({"for_each_index" + s + " with a function of an index of rank " + a, detect<each_index_t, const S&, G>::ok, w, true});
  v.push_back({"for_each_index_in_order" + s + " with a function of an index of rank " + a, detect<in_order_t, const S&, G>::ok, w, true});
  if (N) v.push_back({"for_all_indices" + s + " with a function of " + a + " pointers", detect<all_indices_t, const S&, B>::ok, REJECT, true});
  if (N > 1) v.push_back({"for_each_index" + s + " with a function of " + a + " indices", detect<each_index_t, const S&, F>::ok, REJECT, true});
  ordered<S, N>(v, std::make_index_sequence<r>());
}
template <class S> void loops(progs& v) {
  loop<S, 0>(v); loop<S, 1>(v); loop<S, 2>(v); loop<S, 3>(v); loop<S, 4>(v); loop<S, 5>(v);
  v.push_back({"for_all_indices with an int over shape of rank " + std::to_string(S::rank()), detect<all_indices_t, const S&, int>::ok, REJECT, true});
  v.push_back({"for_each_index with an int over shape of rank " + std::to_string(S::rank()), detect<each_index_t, const S&, int>::ok, REJECT, true});
}
template <class O, class F> using each_value_t = decltype(dv<O>().for_each_value(dv<F>()));
template <class D, class F> using generate_t = decltype(nda::generate(dv<D>(), dv<F>()));
template <class D, class F> using fill_t = decltype(nda::fill(dv<D>(), dv<F>()));
template <what W, class S> void values(progs& v) {
  using O = typename object<W, S>::type; constexpr bool c = std::is_const<typename object<W, S>::elem>::value;
  std::string o = oname<W, S>() + " for_each_value with ";
#define VALUE(F, N, OK) v.push_back({o + N, detect<each_value_t, O, F>::ok, OK ? ACCEPT : REJECT, true});
#define COMMA ,
  VALUE(fn<int&>, "a function of int&", !c) VALUE(fn<const int&>, "a function of const int&", true) VALUE(fn<int>, "a function of int", true) VALUE(fn<float&>, "a function of float&", false) VALUE(fn<>, "a function of nothing", false)
  VALUE(fn<int& COMMA int>, "a function of two", false) VALUE(fn<std::string>, "a function of a string", false) VALUE(int, "an int", false) VALUE(fn<int&&>, "a function of int&&", false) VALUE(fn<const char*>, "a function of a pointer", false)
}
template <class S> void generates(progs& v) {
  std::string o = " of rank " + std::to_string(S::rank()) + " from ";
#define GENERATE(F, N, OK) v.push_back({"generate view" + o + N, detect<generate_t, const array_ref<int, S>&, F>::ok, OK, true}); v.push_back({"generate array" + o + N, detect<generate_t, array<int, S>&, F>::ok, OK, true});
  GENERATE(fi0, "a function", ACCEPT) GENERATE(fi0&, "a named function", ACCEPT) GENERATE(const fi0&, "a const function", ACCEPT) GENERATE(int, "an int", REJECT) GENERATE(fn<int>, "a function of int", REJECT) GENERATE(int (*)(), "a function pointer", ACCEPT) GENERATE(std::string, "a string", REJECT)
}

// What a visitor is given: its own overloads decide.
struct seen_ { int* lvalue; int* constant; int* other; void operator()(int&) { ++*lvalue; } void operator()(const int&) { ++*constant; } template <class T> void operator()(T&&) { ++*other; } };
template <class O> void given(progs& v, const std::string& t, O& o, bool constant) {
  int n[3] = {0, 0, 0}; o.for_each_value(seen_{&n[0], &n[1], &n[2]});
  v.push_back({"for_each_value of " + t + " with a visitor of either kind", n[0] + n[1] + n[2] == (int)o.size() && !n[2], ACCEPT, n[constant] == (int)o.size()});
}
template <class S> void given_all(progs& v, const S& s) {
  std::string r = " of rank " + std::to_string(S::rank());
  array<int, S> a(s, 1); const array<int, S> c(s, 2); array_ref<int, S> w = a.ref(); const array_ref<int, S> cw = w; const_array_ref<int, S> k = a.cref(); array<int, S, nda::uninitialized_std_allocator<int>> u(s); const auto& cu = u;
  given(v, "array" + r, a, false); given(v, "const array" + r, c, true); given(v, "view" + r, w, false); given(v, "const view" + r, cw, false); given(v, "view of const" + r, k, true); given(v, "array with another allocator" + r, u, false); given(v, "const array with another allocator" + r, cu, true);
}

// ---- constness and members
template <class O, class... A> using assign_m = decltype(dv<O>().assign(dv<A>()...));
template <class O> using clear_m = decltype(dv<O>().clear());
template <class O, class A> using reshape_m = decltype(dv<O>().reshape(dv<A>()));
template <class O, class A> using set_shape_m = decltype(dv<O>().set_shape(dv<A>()));
template <class O, class A> using swap_m = decltype(dv<O>().swap(dv<A>()));
template <class O> using ref_m = decltype(dv<O>().ref());
template <class O> using cref_m = decltype(dv<O>().cref());
template <class O> using base_m = decltype(dv<O>().base());
template <class O> using data_m = decltype(dv<O>().data());
template <class O> using shape_m = decltype(dv<O>().shape());
template <class O> using resolve_m = decltype(dv<O>().resolve());
template <class D, class S> using reinterpret_shape_t = decltype(nda::reinterpret_shape(dv<S>(), dv<D>()));
template <class D, class S> using convert_shape_t = decltype(nda::convert_shape<D>(dv<S>()));
template <class R> using elem_of = typename is_view<typename std::decay<R>::type>::elem;
template <class R, class E, bool V = is_view<typename std::decay<R>::type>::value> struct views : std::false_type {};
template <class R, class E> struct views<R, E, true> : std::is_same<elem_of<R>, E> {};
template <class O> using tr_t = decltype(nda::transpose<1, 0>(dv<O>()));
template <class O> using re_t = decltype(nda::reorder<1, 0>(dv<O>()));
template <class O> using crop_t = decltype(nda::crop(dv<O>(), 0, 0, 1, 1));
template <class O> using slice_t = decltype(nda::slice_channel(dv<O>(), 0));
template <class S> void members(progs& v) {
  using A = array<int, S>; using V = array_ref<int, S>; using C = const_array_ref<int, S>;
  std::string r = " of rank " + std::to_string(S::rank());
#define MEMBER(TEXT, GOT, OK) v.push_back({TEXT + r, GOT, OK ? ACCEPT : REJECT, true});
  MEMBER("clear of array", (detect<clear_m, A&>::ok), true) MEMBER("clear of const array", (detect<clear_m, const A&>::ok), false)
  MEMBER("reshape of array", (detect<reshape_m, A&, const S&>::ok), true) MEMBER("reshape of const array", (detect<reshape_m, const A&, const S&>::ok), false)
  MEMBER("set_shape of array", (detect<set_shape_m, A&, const S&>::ok), true) MEMBER("set_shape of const array", (detect<set_shape_m, const A&, const S&>::ok), false)
  MEMBER("set_shape of view", (detect<set_shape_m, V&, const S&>::ok), true) MEMBER("set_shape of const view", (detect<set_shape_m, const V&, const S&>::ok), false)
  MEMBER("swap of array", (detect<swap_m, A&, A&>::ok), true) MEMBER("swap of const array", (detect<swap_m, const A&, A&>::ok), false) MEMBER("swap with const array", (detect<swap_m, A&, const A&>::ok), false)
  MEMBER("assignment to array", (detect<assign_t, A&, const A&>::ok), true) MEMBER("assignment to const array", (detect<assign_t, const A&, const A&>::ok), false) MEMBER("move assignment to const array", (detect<assign_t, const A&, A>::ok), false)
  MEMBER("assign(array) to array", (detect<assign_m, A&, const A&>::ok), true) MEMBER("assign(array) to const array", (detect<assign_m, const A&, const A&>::ok), false)
  MEMBER("assign(shape, value) to array", (detect<assign_m, A&, const S&, const int&>::ok), true) MEMBER("assign(shape, value) to const array", (detect<assign_m, const A&, const S&, const int&>::ok), false)
  MEMBER("resolve of shape", (detect<resolve_m, S&>::ok), true) MEMBER("resolve of const shape", (detect<resolve_m, const S&>::ok), false)
  MEMBER("assignment to view", (detect<assign_t, V&, const V&>::ok), true) MEMBER("assignment to const view", (detect<assign_t, const V&, const V&>::ok), false)
  MEMBER("fill of view", (detect<fill_t, const V&, int>::ok), true) MEMBER("fill of array", (detect<fill_t, A&, int>::ok), true)
  // what views of const things refer to
#define RESULT(TEXT, E, O, ELEM) v.push_back({TEXT + r, detect<E, O>::ok, ACCEPT, views<typename detect<E, O>::type, ELEM>::value});
  RESULT("ref of array", ref_m, A&, int) RESULT("ref of const array", ref_m, const A&, const int) RESULT("cref of array", cref_m, A&, const int) RESULT("cref of const array", cref_m, const A&, const int)
  RESULT("ref of view", ref_m, V&, int) RESULT("cref of view", cref_m, V&, const int) RESULT("ref of view of const", ref_m, C&, const int)
#define POINTER(TEXT, E, O, P) v.push_back({TEXT + r, detect<E, O>::ok, ACCEPT, std::is_same<typename detect<E, O>::type, P>::value});
  POINTER("base of array", base_m, A&, int*) POINTER("base of const array", base_m, const A&, const int*) POINTER("data of array", data_m, A&, int*) POINTER("data of const array", data_m, const A&, const int*)
  POINTER("base of view", base_m, const V&, int*) POINTER("base of view of const", base_m, const C&, const int*) POINTER("data of view", data_m, const V&, int*) POINTER("data of view of const", data_m, const C&, const int*)
  POINTER("shape of array", shape_m, A&, const S&) POINTER("shape of const array", shape_m, const A&, const S&) POINTER("shape of view", shape_m, V&, S&) POINTER("shape of const view", shape_m, const V&, const S&)
#define RESULT2(TEXT, E, X, O, ELEM) v.push_back({TEXT + r, detect<E, X, O>::ok, ACCEPT, views<typename detect<E, X, O>::type, ELEM>::value});
  using L = shape_of_rank<1>;
  RESULT2("reinterpret_shape of array", reinterpret_shape_t, const L&, A&, int) RESULT2("reinterpret_shape of const array", reinterpret_shape_t, const L&, const A&, const int) RESULT2("reinterpret_shape of view", reinterpret_shape_t, const L&, const V&, int) RESULT2("reinterpret_shape of view of const", reinterpret_shape_t, const L&, const C&, const int)
  using H = shape_of_rank<6>;
  RESULT2("convert_shape of array", convert_shape_t, H, A&, int) RESULT2("convert_shape of const array", convert_shape_t, H, const A&, const int) RESULT2("convert_shape of view", convert_shape_t, H, const V&, int) RESULT2("convert_shape of view of const", convert_shape_t, H, const C&, const int)
  // conversions
  MEMBER("array converted to view", (std::is_convertible<A&, V>::value), true) MEMBER("array converted to view of const", (std::is_convertible<A&, C>::value), true)
  MEMBER("const array converted to view", (std::is_convertible<const A&, V>::value), false) MEMBER("const array converted to view of const", (std::is_convertible<const A&, C>::value), true)
  MEMBER("view converted to view of const", (std::is_convertible<const V&, C>::value), true) MEMBER("view of const converted to view", (std::is_convertible<const C&, V>::value), false)
  // comparisons
  MEMBER("array == array", (detect<eq_t, const A&, const A&>::ok && detect<ne_t, const A&, const A&>::ok), true) MEMBER("view == view", (detect<eq_t, const V&, const V&>::ok && detect<ne_t, const V&, const V&>::ok), true)
  // scalars
  constexpr bool z = S::rank() == 0;
  MEMBER("view converted to int&", (std::is_convertible<const V&, int&>::value), z) MEMBER("view of const converted to const int&", (std::is_convertible<const C&, const int&>::value), z) MEMBER("view of const converted to int&", (std::is_convertible<const C&, int&>::value), false)
  MEMBER("array converted to int&", (std::is_convertible<A&, int&>::value), z) MEMBER("const array converted to const int&", (std::is_convertible<const A&, const int&>::value), z) MEMBER("const array converted to int&", (std::is_convertible<const A&, int&>::value), false)
  MEMBER("array converted to int", (std::is_convertible<A&, int>::value), z) MEMBER("view converted to int", (std::is_convertible<V, int>::value), z) MEMBER("view converted to pointer", (std::is_convertible<V, int*>::value), false)
}
template <class S> void permuted(progs& v) {  // rank 2
  using A = array<int, S>; using V = array_ref<int, S>; using C = const_array_ref<int, S>; std::string r = "";
  RESULT("transpose of array", tr_t, A&, int) RESULT("transpose of const array", tr_t, const A&, const int) RESULT("transpose of view", tr_t, const V&, int) RESULT("transpose of view of const", tr_t, const C&, const int)
  RESULT("reorder of array", re_t, A&, int) RESULT("reorder of const array", re_t, const A&, const int) RESULT("reorder of view", re_t, const V&, int) RESULT("reorder of view of const", re_t, const C&, const int)
}
template <class S> void imaged(progs& v) {  // rank 3
  using A = array<int, S>; using V = array_ref<int, S>; using C = const_array_ref<int, S>; std::string r = "";
  RESULT("crop of array", crop_t, A&, int) RESULT("crop of const array", crop_t, const A&, const int) RESULT("crop of view", crop_t, const V&, int) RESULT("crop of view of const", crop_t, const C&, const int)
  RESULT("channel of array", slice_t, A&, int) RESULT("channel of const array", slice_t, const A&, const int) RESULT("channel of view", slice_t, const V&, int) RESULT("channel of view of const", slice_t, const C&, const int)
}
// element types
template <class U, class O> using rei_t = decltype(nda::reinterpret<U>(dv<O>()));
template <class T, class U> void reinterpreted(progs& v) {
  int w = sizeof(T) == sizeof(U) ? ACCEPT : REJECT; using S = dense_shape<2>;
  std::string t = " of " + nm<T>() + " as " + nm<U>();
#define REI(TEXT, O, E) v.push_back({"reinterpret " TEXT + t, detect<rei_t, U, O>::ok, w, views<typename detect<rei_t, U, O>::type, E>::value});
  REI("array", array<T COMMA S>&, U) REI("const array", const array<T COMMA S>&, const U) REI("view", const array_ref<T COMMA S>&, U)
  v.push_back({"view of " + nm<U>() + " from view of " + nm<T>(), std::is_constructible<array_ref<U, S>, const array_ref<T, S>&>::value, std::is_same<T, U>::value ? ACCEPT : REJECT, true});
  v.push_back({"view of const " + nm<U>() + " from view of " + nm<T>(), std::is_constructible<array_ref<const U, S>, const array_ref<T, S>&>::value, std::is_same<T, U>::value ? ACCEPT : REJECT, true});
  v.push_back({"view of " + nm<U>() + " from array of " + nm<T>(), std::is_convertible<array<T, S>&, array_ref<U, S>>::value, std::is_same<T, U>::value ? ACCEPT : REJECT, true});
}
template <class T, class... U> void reinterpreted_as(progs& v, types<U...>) { int d[] = {(reinterpreted<T, U>(v), 0)...}; (void)d; }
template <class... T> void all_reinterpreted(progs& v, types<T...> l) { int d[] = {(reinterpreted_as<T>(v, l), 0)...}; (void)d; }
template <class T> using ustd_t = nda::uninitialized_std_allocator<T>;
template <class T> using uauto_t = nda::uninitialized_auto_allocator<T, 8>;
struct nontrivial_ { nontrivial_(); int x; };
struct trivial_ { int x; double y; };

// ---- Einstein expressions
template <size_t... I> struct ix {
  template <class O> using ein_t = decltype(nda::ein<I...>(dv<O>()));
};
template <size_t N, class Is> struct ix_of_;
template <size_t N, size_t... I> struct ix_of_<N, std::index_sequence<I...>> { using up = ix<I...>; using down = ix<(N - 1 - I)...>; using same = ix<(I, 0)...>; };
template <size_t N> using ix_of = ix_of_<N, std::make_index_sequence<N>>;
template <class O, size_t N> void indexed(progs& v, const std::string& o, size_t rank) {
  if (N == 0 && rank) return;
  std::string t = "ein of " + o + " of rank " + std::to_string(rank) + " with " + std::to_string(N) + " indices";
  int w = N == rank ? ACCEPT : REJECT;
  v.push_back({t + " ascending", detect<ix_of<N>::up::template ein_t, O>::ok, w, true});
  v.push_back({t + " descending", detect<ix_of<N>::down::template ein_t, O>::ok, w, true});
  v.push_back({t + " repeated", detect<ix_of<N>::same::template ein_t, O>::ok, w, true});
}
template <class O> void indexed_all(progs& v, const std::string& o, size_t rank) { indexed<O, 0>(v, o, rank); indexed<O, 1>(v, o, rank); indexed<O, 2>(v, o, rank); indexed<O, 3>(v, o, rank); indexed<O, 4>(v, o, rank); indexed<O, 5>(v, o, rank); }
template <size_t N, size_t... I> struct int_fn_;
template <class T, size_t... I> long (*int_fn(std::index_sequence<I...>))(nth<I, T>...);
template <class S> void indices(progs& v) {
  indexed_all<typename object<ARRAY, S>::type>(v, "array", S::rank()); indexed_all<typename object<CARRAY, S>::type>(v, "const array", S::rank());
  indexed_all<array_ref<int, S>>(v, "view", S::rank()); indexed_all<const_array_ref<int, S>>(v, "view of const", S::rank());
  indexed_all<fn_of<nda::index_t, S::rank()>>(v, "function", S::rank());
}
#define BINARY(NAME, OP) template <class A, class B> using NAME = decltype(dv<A>() OP dv<B>());
BINARY(plus_t, +) BINARY(minus_t, -) BINARY(times_t, *) BINARY(over_t, /) BINARY(mod_t, %) BINARY(set_t, =) BINARY(add_t, +=) BINARY(sub_t_, -=) BINARY(mul_t, *=) BINARY(div_t_, /=) BINARY(and_t, &)
template <class A, class B> using min_t = decltype(nda::min(dv<A>(), dv<B>()));
template <class A, class B> using max_t = decltype(nda::max(dv<A>(), dv<B>()));
template <class A> using neg_t = decltype(-dv<A>());
template <class A> using red_t = decltype(nda::ein_reduce(dv<A>()));
template <class A> using msum_t = decltype(nda::make_ein_sum<int, 0>(dv<A>()));
template <class A> using mshape_t = decltype(nda::make_ein_reduce_shape<0>(dv<A>()));
using vec = array_ref<int, shape_of_rank<1>>;
static vec a_; static int z_ = 0;
using leaf = decltype(nda::ein<0>(a_)); using leaf1 = decltype(nda::ein<1>(a_)); using scal = decltype(nda::ein(z_)); using sum_e = decltype(nda::ein<0>(a_) + nda::ein<1>(a_)); using neg_e = decltype(-nda::ein<0>(a_)); using prod_e = decltype(nda::ein<0>(a_) * nda::ein(z_));
using assign_e = decltype(nda::ein<0>(a_) = nda::ein<0>(a_)); using inc_e = decltype(nda::ein<0>(a_) += nda::ein<0>(a_));
NAMED(leaf, "ein<0>(v)") NAMED(leaf1, "ein<1>(v)") NAMED(scal, "ein(x)") NAMED(sum_e, "(ein<0>(v) + ein<1>(v))") NAMED(neg_e, "(-ein<0>(v))") NAMED(prod_e, "(ein<0>(v) * ein(x))") NAMED(assign_e, "(ein<0>(v) = ein<0>(v))") NAMED(inc_e, "(ein<0>(v) += ein<0>(v))") NAMED(vec, "v")
template <class T> struct operand : std::false_type {};
template <> struct operand<leaf> : std::true_type {}; template <> struct operand<leaf1> : std::true_type {}; template <> struct operand<scal> : std::true_type {}; template <> struct operand<sum_e> : std::true_type {}; template <> struct operand<neg_e> : std::true_type {}; template <> struct operand<prod_e> : std::true_type {};
template <class T> struct is_leaf : std::integral_constant<bool, std::is_same<T, leaf>::value || std::is_same<T, leaf1>::value || std::is_same<T, scal>::value> {};
template <class T> struct assignment : std::integral_constant<bool, std::is_same<T, assign_e>::value || std::is_same<T, inc_e>::value> {};
template <class A, class B> void operators(progs& v) {
  int w = assignment<A>::value || assignment<B>::value ? FREE : operand<A>::value && operand<B>::value ? ACCEPT : REJECT;
  int as = assignment<A>::value || assignment<B>::value || (!is_leaf<A>::value && std::is_same<A, B>::value) ? FREE : is_leaf<A>::value && operand<B>::value ? ACCEPT : REJECT;
  std::string a = nm<A>(), b = nm<B>();
#define OPERATOR(OP, E) v.push_back({a + " " OP " " + b, detect<E, const A&, const B&>::ok, w, true});
  if (operand<A>::value || operand<B>::value) {  // an operand with an operand, or with something else
    OPERATOR("+", plus_t) OPERATOR("-", minus_t) OPERATOR("*", times_t) OPERATOR("/", over_t)
    w = assignment<A>::value || assignment<B>::value ? FREE : operand<A>::value != operand<B>::value ? REJECT : ACCEPT;
    OPERATOR("min", min_t) OPERATOR("max", max_t)
    w = REJECT; OPERATOR("%", mod_t) OPERATOR("&", and_t)
  }
  if (operand<A>::value) {
#define ASSIGN(OP, E) v.push_back({a + " " OP " " + b, detect<E, const A&, const B&>::ok, as, true});
    if (!(is_leaf<A>::value && std::is_same<B, vec>::value)) { ASSIGN("=", set_t) }  // an array converts to the operand with the same indices
    ASSIGN("+=", add_t) ASSIGN("-=", sub_t_) ASSIGN("*=", mul_t)
    as = REJECT; ASSIGN("/=", div_t_)
  }
}
template <class A> void reduced(progs& v) {
  std::string a = nm<A>();
  v.push_back({"-" + a, detect<neg_t, const A&>::ok, operand<A>::value ? ACCEPT : FREE, true});
  v.push_back({"ein_reduce(" + a + ")", detect<red_t, const A&>::ok, assignment<A>::value ? ACCEPT : REJECT, true});
}
template <class A> void summed(progs& v) {
  std::string a = nm<A>();
  v.push_back({"make_ein_sum<int, 0>(" + a + ")", detect<msum_t, const A&>::ok, operand<A>::value ? ACCEPT : REJECT, true});
  v.push_back({"make_ein_reduce_shape<0>(" + a + ")", detect<mshape_t, const A&>::ok, operand<A>::value ? ACCEPT : REJECT, true});
}
using terms = types<leaf, leaf1, scal, sum_e, neg_e, prod_e, int, vec, assign_e, inc_e, std::string>;
template <class A, class... B> void operators_with(progs& v, types<B...>) { int d[] = {(operators<A, B>(v), 0)...}; (void)d; }
template <class... A> void all_operators(progs& v, types<A...> l) { int d[] = {(operators_with<A>(v, l), 0)...}; (void)d; int e[] = {(reduced<A>(v), 0)...}; (void)e; }

// ---- permutations: every list of dimensions
template <size_t... I> struct listed {
  template <class O> using tr = decltype(nda::transpose<I...>(dv<O>()));
  template <class O> using re = decltype(nda::reorder<I...>(dv<O>()));
  static std::string text() { std::string r; size_t a[] = {I..., 0}; for (size_t k = 0; k < sizeof...(I); k++) r += (k ? ", " : "") + std::to_string(a[k]); return "<" + r + ">"; }
};
template <size_t... I> constexpr bool permutation() {
  const size_t n = sizeof...(I); size_t a[] = {I..., 0};
  for (size_t k = 0; k < n; k++) { if (a[k] >= n) return false; for (size_t j = 0; j < k; j++) if (a[j] == a[k]) return false; }
  return true;
}
template <class R, class = void> struct rank_of : size_c<99> {};
template <class R> struct rank_of<R, void_t<decltype(std::decay<R>::type::rank())>> : size_c<std::decay<R>::type::rank()> {};
template <size_t R, size_t Top> struct lists {
  template <class O, class E, size_t... I> static void one(progs& v, const char* o, bool shape) {
    using T = detect<listed<I...>::template tr, O>;
    int w = !permutation<I...>() ? REJECT : sizeof...(I) == R ? ACCEPT : sizeof...(I) < R && shape ? ACCEPT : FREE;
    v.push_back({"transpose" + listed<I...>::text() + " of " + o + " of rank " + std::to_string(R), T::ok, w, rank_of<typename T::type>::value == R});
  }
  template <class S, bool All, size_t... I> static void with(progs& v) {
    one<const S&, void, I...>(v, "shape", true);
    if (All) more<S, I...>(v, std::integral_constant<bool, All>());
  }
  template <class S, size_t... I> static void more(progs& v, std::true_type) {
    one<const array_ref<int, S>&, int, I...>(v, "view", false); one<array<int, S>&, int, I...>(v, "array", false); one<const array<int, S>&, int, I...>(v, "const array", false);
  }
  template <class S, size_t... I> static void more(progs&, std::false_type) {}
  template <class S, bool All, size_t... I, size_t... K> static void go(progs& v, std::index_sequence<I...>, size_c<0>, std::index_sequence<K...>) { with<S, All, I...>(v); }
  template <class S, bool All, size_t... I, size_t N, size_t... K> static void go(progs& v, std::index_sequence<I...>, size_c<N>, std::index_sequence<K...> k) {
    with<S, All, I...>(v); int d[] = {(go<S, All>(v, std::index_sequence<I..., K>(), size_c<N - 1>(), k), 0)...}; (void)d;
  }
  template <class S, bool All> static void all(progs& v) { go<S, All>(v, std::index_sequence<>(), size_c<R>(), std::make_index_sequence<Top>()); }
};

#define PROGRAMS(NAME, ...) MC_SUITE(NAME) { static const progs all = [] { progs v; __VA_ARGS__; return v; }(); suite(c, all); }
#if PART == 0
PROGRAMS("addressing shapes", all_access<SHAPE>(v); all_access<CSHAPE>(v))
PROGRAMS("addressing views", all_access<VIEW>(v))
#elif PART == 1
PROGRAMS("addressing const views", all_access<CVIEW>(v); all_access<VIEWC>(v))
PROGRAMS("dims", all_dims<SHAPE>(v); all_dims<CSHAPE>(v); all_dims<VIEW>(v); all_dims<CVIEW>(v); all_dims<VIEWC>(v); all_dims<ARRAY>(v); all_dims<CARRAY>(v))
#elif PART == 2
PROGRAMS("addressing arrays", all_access<ARRAY>(v); all_access<CARRAY>(v))
#elif PART == 3
PROGRAMS("intervals", all_intervals::intervals(v))
PROGRAMS("constants of dims", all_dim_types::dims(v))
#elif PART == 4
PROGRAMS("ranks", all_ranks(v, rank_shapes()))
PROGRAMS("dims of a shape", shape_args<shape_of_rank<2>>::all(v); shape_args<dense_shape<3>>::all(v); shape_args<shape_of_rank<4>>::all(v))
#elif PART == 6
PROGRAMS("permutations", (lists<1, 3>::all<shape_of_rank<1>, true>(v)); (lists<2, 4>::all<dense_shape<2>, true>(v)); (lists<3, 5>::all<shape_of_rank<3>, true>(v)); (lists<4, 5>::all<shape_of_rank<4>, false>(v)))
#else
PROGRAMS("loops", loops<shape<>>(v); loops<shape_of_rank<1>>(v); loops<dense_shape<2>>(v); loops<nda::matrix_shape<>>(v); loops<shape_of_rank<3>>(v); loops<nda::chunky_image_shape<3>>(v); loops<shape_of_rank<4>>(v))
PROGRAMS("values", (values<VIEW, dense_shape<2>>(v)); (values<CVIEW, shape_of_rank<3>>(v)); (values<VIEWC, shape_of_rank<1>>(v)); (values<ARRAY, dense_shape<2>>(v)); (values<CARRAY, dense_shape<2>>(v)); (values<ARRAY, shape<>>(v)); (values<CARRAY, shape<>>(v)); (values<CARRAY, nda::matrix_shape<>>(v)); (values<VIEWC, nda::chunky_image_shape<>>(v)))
PROGRAMS("visitors", given_all(v, shape<>()); given_all(v, shape_of_rank<1>(3)); given_all(v, shape_of_rank<1>(dim<>(0, 3, 2))); given_all(v, dense_shape<2>(3, 2)); given_all(v, nda::matrix_shape<>(2, 3)); given_all(v, nda::planar_image_shape(3, 2, 2)); given_all(v, nda::chunky_image_shape<3>(3, 2, {})); given_all(v, nda::chunky_image_shape<3, 4>(3, 2, {})); given_all(v, nda::fixed_dense_shape<2, 3>()))
PROGRAMS("generators", generates<shape<>>(v); generates<dense_shape<2>>(v))
PROGRAMS("members", members<shape<>>(v); members<shape_of_rank<2>>(v); members<dense_shape<3>>(v); members<nda::fixed_dense_shape<2, 2>>(v))
PROGRAMS("permutations and images", permuted<dense_shape<2>>(v); permuted<nda::matrix_shape<>>(v); imaged<nda::chunky_image_shape<3>>(v); imaged<nda::planar_image_shape>(v))
PROGRAMS("element types", all_reinterpreted(v, types<char, short, int, float, long, double>()))
PROGRAMS("uninitialized allocators", v.push_back({"of int", detect<ustd_t, int>::ok && detect<uauto_t, int>::ok, ACCEPT, true}); v.push_back({"of a trivial class", detect<ustd_t, trivial_>::ok && detect<uauto_t, trivial_>::ok, ACCEPT, true});
  v.push_back({"std allocator of std::string", detect<ustd_t, std::string>::ok, REJECT, true}); v.push_back({"auto allocator of std::string", detect<uauto_t, std::string>::ok, REJECT, true}); v.push_back({"std allocator of a class with a constructor", detect<ustd_t, nontrivial_>::ok, REJECT, true}); v.push_back({"auto allocator of a class with a constructor", detect<uauto_t, nontrivial_>::ok, REJECT, true}))
PROGRAMS("ein indices", indices<shape<>>(v); indices<shape_of_rank<1>>(v); indices<dense_shape<2>>(v); indices<shape_of_rank<3>>(v); indices<shape_of_rank<4>>(v))
PROGRAMS("ein operators", all_operators(v, terms()); summed<leaf>(v); summed<prod_e>(v); summed<neg_e>(v); summed<int>(v); summed<vec>(v); summed<std::string>(v))
#endif
