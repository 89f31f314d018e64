// C15: uninitialized allocators skip default construction and nothing else. Constructions on poisoned memory.
#include "ref.h"
#include "world.h"
#include "array/matrix.h"
using namespace ref;

struct pod { int a; short b; char c; bool operator==(const pod& o) const { return a == o.a && b == o.b && c == o.c; } };
struct rgb { unsigned char v[3]; bool operator==(const rgb& o) const { return !memcmp(v, o.v, 3); } };
template <class T> T sample(int k);
template <> int sample<int>(int k) { return k * 77 + 5; }
template <> pod sample<pod>(int k) { return pod{k + 9, (short)(k * 3), (char)(k + 1)}; }
template <> char sample<char>(int k) { return (char)(k % 120 + 5); }
template <> rgb sample<rgb>(int k) { return rgb{{(unsigned char)k, (unsigned char)(k + 7), 3}}; }
template <> double sample<double>(int k) { return k * 1.5 + 0.25; }

// A wrapped allocator that counts what it constructs and destroys.
static long g_construct, g_destroy;
template <class T> struct counting : world::alloc_base<T, 0> {
  using world::alloc_base<T, 0>::alloc_base;
  counting() {}
  template <class U> struct rebind { using other = counting<U>; };
  template <class... X> void construct(T* p, X&&... x) { g_construct++; new ((void*)p) T(std::forward<X>(x)...); }
  void destroy(T* p) { g_destroy++; p->~T(); }
  counting select_on_container_copy_construction() const { return *this; }
};

template <class T, class Shape> struct tcase { using value = T; using shape = Shape; };
static alphabet alpha(size_t R) {
  alphabet a{{-1, 0, 2}, {0, 1, 2, 3}, {UN, 1, 2, 5, -1, -4}};
  if (R == 1) a.extents = {0, 1, 2, 3, 5, 9};
  if (R == 3) { a.mins = {0, 2}; a.extents = {0, 2}; a.strides = {UN, 1, -2, 8}; if (mc::thorough()) a.extents = {0, 1, 2, 3}; }
  return a;
}
static const unsigned char* bytes(const void* p) { return (const unsigned char*)p; }
template <class F> static void each0(const rshape& s, F&& f) { if (s.empty()) f(idx()); else each(s, f); }
static rshape resolved_or_discard(ctx& c, const rshape& q) { if (!injective(q) && !q.empty() && !ref::empty(q)) c.discard(); return q; }

template <class C> struct fresh {
  using T = typename C::value;
  using S = typename C::shape;
  static constexpr size_t R = S::rank();
  static std::string name() { return shape_name<S>() + " of " + std::to_string(sizeof(T)) + " bytes"; }
  using UI = nda::uninitialized_allocator<world::alloc<T, 0>>;
  using UC = nda::uninitialized_allocator<counting<T>>;
  using OR = world::alloc<T, 0>;
  using UA = nda::uninitialized_auto_allocator<T, 6>;
  using AO = nda::auto_allocator<T, 6>;
  template <class A> static bool untouched(const A& a, const idx& i, unsigned char fill) {
    const unsigned char* p = bytes(&a[to_tuple<R>(i)]);
    for (size_t k = 0; k < sizeof(T); k++) if (p[k] != fill) return false;
    return true;
  }
  template <class A> static void expect(const A& a, const rshape& q, int from, const char* what) {
    int k = from;
    each0(q, [&](const idx& i) { if (!(a[to_tuple<R>(i)] == sample<T>(k))) mc::fail("%s: element %s is wrong", what, str(i).c_str()); k++; });
  }
  static void run(ctx& c) {
    rshape r = pick_shape<S>(c, alpha(R));
    S s = to_shape<S>(r);
    { S t = s; t.resolve(); resolved_or_discard(c, from_shape(t)); }
    if (!c.mine()) return;
    S t = s; t.resolve();
    rshape q = from_shape(t);
    long n = 0; each0(q, [&](const idx&) { n++; });
    c.note("%s", str(q).c_str());
    world::reset(); world::on() = world::ALLOC;
    {  // untouched by default construction, in every way to default-construct
      nda::array<T, S, UI> a(s), b(s, UI()), d = nda::make_array<T>(s, UI());
      each0(q, [&](const idx& i) { MC_CHECK(untouched(a, i, 0xcd) && untouched(b, i, 0xcd) && untouched(d, i, 0xcd), "a default-constructed element at %s was written", str(i).c_str()); });
      // values, copies and moves are constructed
      nda::array<T, S, UI> v(s, sample<T>(3)), w = nda::make_array<T>(s, sample<T>(3), UI());
      each0(q, [&](const idx& i) { MC_CHECK(v[to_tuple<R>(i)] == sample<T>(3) && w[to_tuple<R>(i)] == sample<T>(3), "array(shape, value): element %s", str(i).c_str()); });
      int k = 10; each0(q, [&](const idx& i) { a[to_tuple<R>(i)] = sample<T>(k++); });
      nda::array<T, S, UI> x(a); expect(x, q, 10, "copy construction"); expect(a, q, 10, "copied array");
      b = a; expect(b, q, 10, "copy assignment");
      UI other; other.id = 7;
      nda::array<T, S, UI> y(std::move(x), other); expect(y, q, 10, "move construction to another allocator");
      MC_CHECK(y.get_allocator().id == 7 && y.get_allocator() == other && y.get_allocator() != a.get_allocator() && a.get_allocator() == UI(), "allocator identity");
      if (n) { const world::block* k = world::block_of(y.data()); MC_CHECK(k && k->owner == 7, "allocated from another allocator"); }
      d.assign(std::move(y)); expect(d, q, 10, "assign(&&)");
      nda::array<T, S, UI> z(s, sample<T>(1)); z.assign(s, sample<T>(4));
      each0(q, [&](const idx& i) { MC_CHECK(z[to_tuple<R>(i)] == sample<T>(4), "assign(shape, value): element %s", str(i).c_str()); });
    }
    {  // construction through the wrapped allocator
      g_construct = g_destroy = 0;
      { nda::array<T, S, UC> a(s); MC_CHECK(g_construct == 0, "default construction constructed %ld elements", g_construct); }
      MC_CHECK(g_destroy == n, "%ld of %ld elements destroyed", g_destroy, n);
      g_construct = 0;
      long d0 = 0; { S def; def.resolve(); (void)d0; }
      nda::array<T, S, UC> v(s, sample<T>(2)); MC_CHECK(g_construct == n, "construction from a value: %ld of %ld elements", g_construct, n);
      g_construct = 0;
      nda::array<T, S, UC> w(v); MC_CHECK(g_construct == n, "copy construction: %ld of %ld elements", g_construct, n);
      g_construct = 0;
      w = v; MC_CHECK(g_construct == n || n == 0, "copy assignment: %ld of %ld elements", g_construct, n);
    }
    {  // ordinary arrays value-initialise, and write nothing else
      nda::array<T, S, OR> a(s), b(s, OR(2));
      static const T zero = T();
      each0(q, [&](const idx& i) { MC_CHECK(a[to_tuple<R>(i)] == zero && b[to_tuple<R>(i)] == zero, "element %s of an ordinary array is not value-initialised", str(i).c_str()); });
      if (const world::block* k = n ? world::block_of(a.data()) : nullptr) {
        std::vector<char> own(k->bytes); each0(q, [&](const idx& i) { const char* p = (const char*)&a[to_tuple<R>(i)]; for (size_t j = 0; j < sizeof(T); j++) own[p + j - k->p] = 1; });
        for (size_t j = 0; j < k->bytes; j++) if (!own[j]) MC_CHECK((unsigned char)k->p[j] == 0xcd, "padding was written");
      }
      a.clear(); S def; def.resolve();
      each0(from_shape(def), [&](const idx& i) { MC_CHECK(a[to_tuple<R>(i)] == zero, "clear: element %s is not value-initialised", str(i).c_str()); });
    }
    {  // in-object buffers
      struct holder { alignas(64) volatile unsigned char m[sizeof(nda::array<T, S, UA>) + 64]; };
      static holder h;
      for (auto& x : h.m) x = 0xee;
      auto* a = new ((void*)h.m) nda::array<T, S, UA>(s);
      bool in = n && bytes(a->data()) >= bytes((void*)h.m) && bytes(a->data()) < bytes((void*)h.m) + sizeof(*a);
      long span = n ? (q.empty() ? 1 : flat_span(q).extent()) : 0;
      MC_CHECK(in == (n && span <= 6), "span %ld in an in-object buffer of 6: %d", span, in);
      if (in) each0(q, [&](const idx& i) { MC_CHECK(untouched(*a, i, 0xee), "a default-constructed element at %s of an in-object buffer was written", str(i).c_str()); });
      int k = 10; each0(q, [&](const idx& i) { (*a)[to_tuple<R>(i)] = sample<T>(k++); });
      nda::array<T, S, UA> b(*a), d(s, sample<T>(4)); expect(b, q, 10, "copy of an uninitialized in-object array");
      each0(q, [&](const idx& i) { MC_CHECK(d[to_tuple<R>(i)] == sample<T>(4), "in-object value construction"); });
      nda::array<T, S, UA> e(std::move(*a)); expect(e, q, 10, "move of an uninitialized in-object array");
      a->~array();
      nda::array<T, S, AO> z(s); static const T zero = T();
      each0(q, [&](const idx& i) { MC_CHECK(z[to_tuple<R>(i)] == zero, "ordinary in-object array: element %s is not value-initialised", str(i).c_str()); });
      nda::array<T, S, nda::uninitialized_std_allocator<T>> u(s, sample<T>(6));
      each0(q, [&](const idx& i) { MC_CHECK(u[to_tuple<R>(i)] == sample<T>(6), "uninitialized_std_allocator"); });
      nda::array<T, S> o(s); each0(q, [&](const idx& i) { MC_CHECK(o[to_tuple<R>(i)] == zero, "element of an array with the default allocator is not value-initialised"); });
    }
    world::all_gone(); c.check_soft();
    for (auto& d : q) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    c.obs(sizeof(T));
    if (n) c.nontrivial();
  }
};
using nda::dim; using nda::dense_dim; using nda::shape_of_rank; using nda::dense_shape; using nda::dynamic;
static register_all<large_<fresh, 3>::body> lreg("large construct", part<types<tcase<int, nda::shape<dim<>>>, tcase<rgb, dense_shape<2>>, tcase<pod, nda::matrix_shape<>>, tcase<double, nda::fixed_dense_shape<40>>, tcase<char, shape_of_rank<4>>>>());
static register_all<fresh> reg("construct", part<types<tcase<int, nda::shape<>>, tcase<int, nda::shape<dim<>>>, tcase<pod, nda::shape<dim<>>>, tcase<rgb, dense_shape<1>>, tcase<int, nda::shape<dim<dynamic, 3>>>, tcase<double, nda::shape<dim<0, 2>>>,
  tcase<int, shape_of_rank<2>>, tcase<rgb, dense_shape<2>>, tcase<pod, nda::matrix_shape<>>, tcase<int, nda::fixed_dense_shape<2, 3>>, tcase<int, shape_of_rank<3>>, tcase<double, dense_shape<3>>>>());
#if PART == 0
// The traits and the comparisons of the wrapper are those of the wrapped allocator.
template <int Flags> static void traits_of(ctx& c) {
  using B = world::alloc<int, Flags>; using W = nda::uninitialized_allocator<B>;
  using tb = std::allocator_traits<B>; using tw = std::allocator_traits<W>;
  int a = (int)c.range(0, 3), b = (int)c.range(0, 3), n = (int)c.range(1, 5);
  if (!c.mine()) return;
  c.note("flags %d, allocators %d and %d, %d elements", Flags, a, b, n);
  MC_CHECK(+tw::propagate_on_container_copy_assignment::value == +tb::propagate_on_container_copy_assignment::value, "propagation on copy assignment differs");
  MC_CHECK(+tw::propagate_on_container_move_assignment::value == +tb::propagate_on_container_move_assignment::value, "propagation on move assignment differs");
  MC_CHECK(+tw::propagate_on_container_swap::value == +tb::propagate_on_container_swap::value, "propagation on swap differs");
  MC_CHECK((std::is_same<typename tw::value_type, int>::value && std::is_same<typename tw::pointer, typename tb::pointer>::value), "value or pointer type differs");
  B ba(a), bb(b); W wa(ba), wb(bb);
  MC_CHECK((wa == wb) == (ba == bb) && (wa != wb) == (ba != bb), "comparison differs: == %d, != %d", (int)(wa == wb), (int)(wa != wb));
  MC_CHECK(tw::select_on_container_copy_construction(wa).id == tb::select_on_container_copy_construction(ba).id, "the allocator of a copy differs");
  W wc(wa), wd(std::move(wc)); wc = wb;
  MC_CHECK(wd == wa && wc == wb, "copy or assignment of the allocator");
  world::reset();
  { int* p = wa.allocate(n); long got = (long)world::blocks().size(); MC_CHECK(got == 1, "%ld blocks after allocate", got); tw::deallocate(wa, p, n); }
  { int* p = tw::allocate(wa, n); ba.deallocate(p, n); }
  world::all_gone(); c.check_soft();
  c.nontrivial(); c.obs(Flags); c.obs(a); c.obs(b); c.obs(n);
}
template <int F> struct add_traits { add_traits() { mc::suites().push_back({"traits " + std::to_string(F), [](ctx& c) { traits_of<F>(c); }, ""}); } };
static add_traits<0> t0; static add_traits<1> t1; static add_traits<2> t2; static add_traits<3> t3; static add_traits<4> t4; static add_traits<5> t5; static add_traits<6> t6; static add_traits<7> t7;
static add_traits<8> t8; static add_traits<16> t16; static add_traits<18> t18;
#endif
