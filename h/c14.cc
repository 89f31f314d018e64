// C14: in-object buffers: alignment, location and capacity for every element size, capacity and alignment.
#include "ref.h"
#include "world.h"
#include "array/matrix.h"
using namespace ref;

template <size_t Bytes> struct blob { unsigned char b[Bytes]; blob(int v = 0) { memset(b, v, Bytes); } bool operator==(const blob& o) const { return !memcmp(b, o.b, Bytes); } bool operator!=(const blob& o) const { return !(*this == o); } };
template <class T> T val(int k) { return T(k + 1); }
// The base allocator: counts, so that any use of the heap shows.
static long g_alloc, g_free, g_live;
template <class T> struct heap { using value_type = T; using is_always_equal = std::true_type; heap() {} template <class U> heap(const heap<U>&) {} template <class U> struct rebind { using other = heap<U>; };
  T* allocate(size_t n) { g_alloc++; g_live += (long)n; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t n) { g_free++; g_live -= (long)n; ::operator delete(p); }
  bool operator==(const heap&) const { return true; } bool operator!=(const heap&) const { return false; } };

template <class T, size_t N, size_t Al> struct cfg {
  static std::string name() { return std::to_string(sizeof(T)) + " byte elements aligned to " + std::to_string(alignof(T)) + ", capacity " + std::to_string(N) + ", alignment " + std::to_string(Al); }
  using A = nda::auto_allocator<T, N, Al, heap<T>>;
  using S = nda::shape<nda::dim<>>;
  using arr = nda::array<T, S, A>;
  struct box { char odd; arr a; char odd2; };  // arrays at odd places
  static bool inside(const arr& a) { const char* p = (const char*)a.base(); return p >= (const char*)&a && p < (const char*)(&a + 1); }
  static void check(const arr& a, long n, bool may_hold, int first, const char* what) {
    MC_CHECK((long)a.size() == n, "%s: %zu elements, expected %ld", what, a.size(), n);
    size_t need = may_hold ? std::max(Al, alignof(T)) : alignof(T);
    if (n == 0) return;
    MC_CHECK(inside(a) == may_hold, "%s: %ld elements are %s the object", what, n, may_hold ? "not in" : "in");
    MC_CHECK((uintptr_t)a.base() % need == 0, "%s: the storage at %p is not aligned to %zu", what, (const void*)a.base(), need);
    if (may_hold) MC_CHECK((const char*)(a.base() + n) <= (const char*)(&a + 1), "%s: the elements end past the object", what);
    for (long i = 0; i < n; i++) if (first >= 0 && !(a(i) == val<T>(first + (int)i))) mc::fail("%s: element %ld is wrong", what, i);
  }
  static void paint(arr& a, int first) { long i = 0; for (auto at : a.i()) a((index_t)at) = val<T>(first + (int)i++); }
  static void run(ctx& c) {
    MC_CHECK(alignof(arr) >= Al && alignof(arr) >= alignof(T), "the array is only aligned to %zu", alignof(arr));
    long n = c.range(0, N + 2), m = c.range(0, N + 2); int how = (int)c.choose(12);
    if (!c.mine()) return;
    bool fits = n <= (long)N, mfits = m <= (long)N;
    c.note("%s: %ld then %ld elements, way %d", name().c_str(), n, m, how);
    g_alloc = g_free = g_live = 0;
    {
      box x[3], y[3];
      for (int k = 0; k < 3; k++) {
        arr &a = x[k].a, &b = y[k].a;
        a = arr(S(n)); paint(a, 3); check(a, n, fits, 3, "assigned");
        b = arr(S(m), val<T>(9));
        paint(b, 5); check(b, m, mfits, 5, "second");
        switch (how) {
          case 0: { arr d(a); check(d, n, fits, 3, "copied"); check(a, n, fits, 3, "source of a copy"); break; }
          case 1: { arr d(std::move(a)); check(d, n, fits, 3, "moved"); a = arr(); break; }
          case 2: a = b; check(a, m, mfits, 5, "copy assigned"); check(b, m, mfits, 5, "source of an assignment"); break;
          case 3: a = std::move(b); if (n != m) check(a, m, mfits, 5, "move assigned"); else for (long i = 0; i < m; i++) MC_CHECK(a(i) == val<T>(5 + (int)i), "move assigned: element %ld", i); b = arr(); break;
          case 4: a.swap(b); for (long i = 0; i < m; i++) MC_CHECK(a(i) == val<T>(5 + (int)i), "swapped: element %ld", i); for (long i = 0; i < n; i++) MC_CHECK(b(i) == val<T>(3 + (int)i), "swapped: other element %ld", i);
                  if (fits && mfits) { check(a, m, true, 5, "swapped"); check(b, n, true, 3, "swapped other"); } break;
          case 5: a.reshape(S(m)); MC_CHECK((long)a.size() == m, "reshaped size"); for (long i = 0; i < std::min(n, m); i++) MC_CHECK(a(i) == val<T>(3 + (int)i), "reshaped: element %ld", i); break;
          case 6: a.assign(S(m), val<T>(7)); MC_CHECK((long)a.size() == m, "assigned size"); for (long i = 0; i < m; i++) MC_CHECK(a(i) == val<T>(7), "assigned value: element %ld", i); check(a, m, mfits, -1, "assigned value"); break;
          case 7: a.clear(); check(a, 0, true, -1, "cleared"); a = b; check(a, m, mfits, 5, "assigned after clear"); break;
          case 8: { auto d = nda::make_array<T>(S(n), val<T>(2), A()); check(d, n, fits, -1, "make_array"); break; }
          case 9: { arr d(S(n), val<T>(4), a.get_allocator()); check(d, n, fits, -1, "with a copy of the allocator"); break; }
          case 10: { arr d(a, A()); check(d, n, fits, 3, "copied with an allocator"); break; }
          case 11: if (alignof(arr) <= alignof(max_align_t)) { arr* d = new arr(S(n)); paint(*d, 1); check(*d, n, fits, 1, "allocated"); delete d; } break;
        }
        if (fits && mfits && how != 5) MC_CHECK(g_alloc == 0, "%ld allocations although everything fits in the objects", g_alloc);
      }
    }
    MC_CHECK(g_alloc == g_free && g_live == 0, "%ld allocations and %ld deallocations", g_alloc, g_free);
    if (n) c.nontrivial();
    c.obs(n); c.obs(m); c.obs(how);
  }
};
using list = types<cfg<char, 1, 1>, cfg<char, 5, 1>, cfg<char, 16, 64>, cfg<char, 3, 16>, cfg<short, 4, 32>, cfg<int, 4, 4>, cfg<int, 4, 64>, cfg<int, 7, 16>, cfg<double, 2, 8>, cfg<double, 3, 128>, cfg<blob<3>, 5, 1>, cfg<blob<3>, 5, 32>, cfg<blob<24>, 2, 256>, cfg<long double, 2, 16>, cfg<long double, 2, 64>, cfg<blob<7>, 1, 4096>>;
template <class C> struct body : C {};
static register_all<body> reg("buffer", list());

// The names for small matrices and vectors: everything in the object.
template <class M> static void small(ctx& c, M& m, const char* what) {
  (void)c;
  const char* p = (const char*)m.base();
  MC_CHECK(p >= (const char*)&m && (const char*)(m.base() + m.size()) <= (const char*)(&m + 1), "%s is not stored in its object", what);
  MC_CHECK((uintptr_t)p % alignof(typename M::value_type) == 0, "%s is not aligned", what);
}
template <class T, nda::index_t R, nda::index_t C> static void small_matrices(ctx& c) {
  c.note("small_matrix %ld x %ld of %zu bytes", (long)R, (long)C, sizeof(T));
  nda::small_matrix<T, R, C> a; small(c, a, "small_matrix");
  MC_CHECK((long)a.rows() == R && (long)a.columns() == C, "small_matrix extents");
  for (long i = 0; i < R; i++) for (long j = 0; j < C; j++) { MC_CHECK(a(i, j) == T(0), "small_matrix element (%ld, %ld) is not zero", i, j); a(i, j) = T(i * C + j); }
  for (long k = 0; k < R * C; k++) MC_CHECK(a.base()[k] == T(k), "small_matrix is not row by row");
  auto b = a; small(c, b, "copied small_matrix"); MC_CHECK(a == b && b.base() != a.base(), "copied small_matrix");
  auto d = std::move(b); small(c, d, "moved small_matrix"); MC_CHECK(a == d, "moved small_matrix");
  nda::small_matrix<T, R, C> e(nda::matrix_shape<R, C>(), T(3)); small(c, e, "filled small_matrix"); e.swap(d); small(c, e, "swapped small_matrix"); small(c, d, "swapped small_matrix"); MC_CHECK(e == a && d(R - 1, C - 1) == T(3), "swapped small_matrix");
  nda::small_vector<T, R> v; small(c, v, "small_vector"); MC_CHECK(v.size() == (size_t)R && v.i().stride() == 1, "small_vector"); auto w = v; small(c, w, "copied small_vector"); MC_CHECK(w == v, "copied small_vector");
  c.nontrivial(); c.obs(R); c.obs(C); c.obs(sizeof(T));
}
MC_SUITE("small matrices") {
  int k = (int)c.choose(8);
  if (!c.mine()) return;
  switch (k) { case 0: small_matrices<int, 1, 1>(c); break; case 1: small_matrices<int, 2, 3>(c); break; case 2: small_matrices<float, 4, 4>(c); break; case 3: small_matrices<char, 3, 3>(c); break;
    case 4: small_matrices<double, 1, 7>(c); break; case 5: small_matrices<short, 8, 8>(c); break; case 6: small_matrices<long double, 2, 2>(c); break; case 7: small_matrices<char, 1, 5>(c); break; }
}

// The allocator itself: every short history of two of them, used directly.
template <class T> struct numbered { using value_type = T; int id; explicit numbered(int i = 0) : id(i) {} template <class U> numbered(const numbered<U>& o) : id(o.id) {}
  T* allocate(size_t n) { g_alloc++; g_live += (long)n; long* p = (long*)::malloc(16 + n * sizeof(T)); p[0] = id; p[1] = (long)n; return (T*)(p + 2); }
  void deallocate(T* q, size_t n) { long* p = (long*)q - 2; if (p[0] != id || p[1] != (long)n) mc::soft_fail("a block of allocator %ld and %ld elements is given back to allocator %d as %zu elements", p[0], p[1], id, n); g_free++; g_live -= (long)n; ::free(p); }
  bool operator==(const numbered& o) const { return id == o.id; } bool operator!=(const numbered& o) const { return id != o.id; } };
template <class T, size_t N, size_t Al> struct direct {
  using A = nda::auto_allocator<T, N, Al, numbered<T>>;
  static std::string name() { return std::to_string(sizeof(T)) + " byte elements, capacity " + std::to_string(N) + ", alignment " + std::to_string(Al); }
  struct live { T* p; size_t n; bool in; };
  struct side { A* a; int id; std::vector<live> l; bool busy() const { for (auto& x : l) if (x.in) return true; return false; } };
  static void compare(const side* s) {
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
      const A &a = *s[i].a, &b = *s[j].a;
      bool want = s[i].busy() || s[j].busy() ? i == j : s[i].id == s[j].id;
      MC_CHECK((a == b) == want, "allocator %d == allocator %d is %d, expected %d", i, j, (int)(a == b), (int)want);
      MC_CHECK((a != b) == !want, "allocator %d != allocator %d is %d, expected %d", i, j, (int)(a != b), (int)!want);
    }
  }
  static void take(side& s, size_t n, const char* what) {
    bool in = n <= N && !s.busy(); long before = g_alloc;
    T* p = s.a->allocate(n);
    const char *b = (const char*)s.a, *q = (const char*)p;
    bool inside = q >= b && q < b + sizeof(A);
    MC_CHECK(inside == in && g_alloc == before + (in ? 0 : 1), "%s: %zu elements %s the allocator", what, n, in ? "are not taken from" : "are taken from");
    if (in) MC_CHECK((uintptr_t)p % std::max(Al, alignof(T)) == 0 && q + n * sizeof(T) <= b + sizeof(A), "%s: place of the buffer", what);
    memset((void*)p, 0x5a + (int)s.l.size(), n * sizeof(T));
    s.l.push_back(live{p, n, in});
  }
  static void give(side& s, size_t k) { live x = s.l[k]; long before = g_free; s.a->deallocate(x.p, x.n); MC_CHECK(g_free == before + (x.in ? 0 : 1), "giving back %zu elements", x.n); s.l.erase(s.l.begin() + (long)k); }
  static void run(ctx& c) {
    int steps = mc::thorough() ? 5 : 4;
    std::vector<int> ops; for (int k = 0; k < steps; k++) ops.push_back((int)c.choose(11));
    int side0 = (int)c.choose(1 << steps);
    if (!c.mine()) return;
    g_alloc = g_free = g_live = 0;
    std::string txt; for (int k = 0; k < steps; k++) txt += " " + std::to_string(ops[(size_t)k]) + (side0 >> k & 1 ? "b" : "a");
    c.note("%s: operations%s", name().c_str(), txt.c_str());
    A a, b; side s[2] = {{&a, 0, {}}, {&b, 0, {}}};
    compare(s);
    for (int k = 0; k < steps; k++) {
      side &x = s[side0 >> k & 1], &y = s[1 - (side0 >> k & 1)];
      switch (ops[(size_t)k]) {
        case 0: take(x, 1, "one"); break;
        case 1: take(x, N, "as many as fit"); break;
        case 2: take(x, N + 1, "more than fit"); break;
        case 3: if (x.l.empty()) return c.discard(); give(x, 0); break;
        case 4: if (x.l.size() < 2) return c.discard(); give(x, x.l.size() - 1); break;
        case 5: *x.a = *y.a; x.id = y.id; break;
        case 6: *x.a = std::move(*y.a); x.id = y.id; break;
        case 7: { A z(*x.a); side d{&z, x.id, {}}; take(d, N, "in a copy"); take(d, 1, "in a copy again"); give(d, 0); give(d, 0); break; }
        case 8: { A z(std::move(*x.a)); side d{&z, x.id, {}}; take(d, 1, "in a moved allocator"); give(d, 0); break; }
        case 9: { A z(std::allocator_traits<A>::select_on_container_copy_construction(*x.a)); side d{&z, x.id, {}}; take(d, N, "in an allocator for a copy"); give(d, 0); break; }
        case 10: { nda::auto_allocator<char, 3> o; A d(o); side e{&d, 0, {}}; take(e, N, "in a converted allocator"); give(e, 0); break; }
      }
      compare(s);
      for (auto& q : s) for (size_t n = 0; n < q.l.size(); n++) c.obs((long)q.l[n].n * 2 + q.l[n].in);
    }
    for (auto& q : s) while (!q.l.empty()) { give(q, q.l.size() - 1); compare(s); }
    MC_CHECK(g_alloc == g_free && g_live == 0, "%ld allocations and %ld deallocations", g_alloc, g_free);
    c.check_soft(); c.nontrivial();
  }
};
template <class C> struct dbody : C {};
static register_all<dbody> dreg("allocator", types<direct<int, 4, 4>, direct<char, 3, 32>, direct<double, 1, 64>>());
