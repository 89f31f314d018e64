// C10, C11, C12, C13, C14, C15: explicit-state exploration of histories of array operations.
//
// The state is a set of slots, each empty or holding an array. From every state every enabled operation is
// executed on the real code next to a reference model (shape, values in index order, allocator identity), up to
// a depth. States are the whole memory of the slots and blocks up to renaming of addresses, so merging two
// histories that reach the same state loses nothing. PROP selects what is monitored; CFG the array types.
#include "ref.h"
#include "world.h"
#include "array/matrix.h"
using namespace ref;
using world::elem;

#ifndef PROP
#define PROP 10
#endif
constexpr bool P_VALUES = PROP == 10 || PROP == 13 || PROP == 14 || PROP == 15;
constexpr bool P_LIFE = PROP == 11 || PROP == 13 || PROP == 14;
constexpr bool P_ALLOC = PROP == 12 || PROP == 13 || PROP == 14 || PROP == 15;
constexpr bool P_FAULTS = PROP == 13;

// ---- allocators under test
template <class A> struct traits {  // a plain instrumented allocator
  static constexpr bool in_object = false, uninit = false;
  static constexpr long capacity = -1;
  static A make(int id) { return A(id); }
  static int id(const A& a) { return a.id; }
  static int soccc(int id) { return std::is_same<A, world::alloc<typename A::value_type, world::SOCCC_FRESH>>::value ? world::FRESH_ID : id; }
  static bool stateless() { return A::is_always_equal::value; }
};
template <class T, size_t N, size_t Al, class B> struct traits<nda::auto_allocator<T, N, Al, B>> {
  using A = nda::auto_allocator<T, N, Al, B>;
  static constexpr bool in_object = true, uninit = false;
  static constexpr long capacity = N;
  static A make(int) { return A(); }
  static int id(const A&) { return 0; }
  static int soccc(int id) { return id; }
  static bool stateless() { return true; }
};
template <class B> struct traits<nda::uninitialized_allocator<B>> {
  using A = nda::uninitialized_allocator<B>;
  static constexpr bool in_object = traits<B>::in_object, uninit = true;
  static constexpr long capacity = traits<B>::capacity;
  static A make(int id) { return make_(id, std::integral_constant<bool, in_object>()); }
  static A make_(int, std::true_type) { return A(); }
  static A make_(int id, std::false_type) { A a; a.id = traits<B>::make(id).id; return a; }
  static int id(const A& a) { return traits<B>::id(a); }
  static int soccc(int id) { return traits<B>::soccc(id); }
  static bool stateless() { return traits<B>::stateless(); }
};

// ---- shapes under test: each family lists the shapes used by histories; the first is used to start with
template <class S> struct family { using shape = S; };
struct f_rank1 : family<nda::shape<nda::dim<>>> { static constexpr const char* name = "rank 1";
  static std::vector<rshape> list() { return {{{0, 2, UN}}, {{1, 3, UN}}, {{1, 2, -2}}, {{-1, 0, UN}}}; } };
struct f_rank2 : family<nda::shape_of_rank<2>> { static constexpr const char* name = "rank 2";
  static std::vector<rshape> list() { return {{{0, 2, UN}, {0, 2, UN}}, {{0, 2, 1}, {0, 2, 3}}, {{1, 2, 2}, {0, 2, -1}}, {{1, 1, UN}, {1, 3, UN}}, {{0, 0, UN}, {0, 2, UN}}}; } };
struct f_dense2 : family<nda::dense_shape<2>> { static constexpr const char* name = "dense rank 2";
  static std::vector<rshape> list() { return {{{0, 2, 1}, {0, 2, UN}}, {{0, 2, 1}, {0, 2, -3}}, {{1, 1, 1}, {-1, 2, UN}}}; } };
struct f_fixed : family<nda::fixed_dense_shape<2>> { static constexpr const char* name = "constant";
  static std::vector<rshape> list() { return {{{0, 2, 1}}}; } };
struct f_partial : family<nda::shape<nda::dim<0, 2>>> { static constexpr const char* name = "constant extent";
  static std::vector<rshape> list() { return {{{0, 2, UN}}, {{0, 2, 3}}, {{0, 2, -1}}}; } };
struct f_matrix : family<nda::matrix_shape<nda::dynamic, 2>> { static constexpr const char* name = "matrix with 2 columns";
  static std::vector<rshape> list() { return {{{0, 1, UN}, {0, 2, 1}}, {{0, 2, 3}, {0, 2, 1}}, {{1, 2, -2}, {0, 2, 1}}}; } };
struct f_rank3 : family<nda::shape_of_rank<3>> { static constexpr const char* name = "rank 3";
  static std::vector<rshape> list() { return {{{0, 2, UN}, {1, 1, UN}, {0, 2, UN}}, {{0, 2, 4}, {0, 2, -1}, {1, 2, 9}}, {{1, 1, UN}, {0, 3, UN}, {0, 0, UN}}}; } };
struct f_image : family<nda::shape<nda::strided_dim<3>, nda::dim<>, nda::dense_dim<0, 3>>> { static constexpr const char* name = "chunky image";
  static std::vector<rshape> list() { return {{{0, 2, 3}, {0, 1, UN}, {0, 3, 1}}, {{1, 1, 3}, {-1, 2, -7}, {0, 3, 1}}, {{0, 0, 3}, {0, 2, UN}, {0, 3, 1}}}; } };
struct f_rank5 : family<nda::shape_of_rank<5>> { static constexpr const char* name = "rank 5";
  static std::vector<rshape> list() { return {{{0, 2, UN}, {0, 1, UN}, {1, 2, UN}, {0, 1, UN}, {0, 2, UN}}, {{0, 1, UN}, {0, 2, UN}, {1, 1, UN}, {0, 2, UN}, {0, 1, UN}}}; } };
// Boxes inside each other in the same layout: growing and shrinking without moving.
struct f_nested1 : family<nda::shape<nda::dim<>>> { static constexpr const char* name = "nested rank 1";
  static std::vector<rshape> list() { return {{{0, 2, 1}}, {{0, 4, UN}}, {{1, 1, 1}}, {{0, 1, 2}}}; } };
struct f_nested2 : family<nda::dense_shape<2>> { static constexpr const char* name = "nested rank 2";
  static std::vector<rshape> list() { return {{{0, 2, 1}, {0, 2, 2}}, {{0, 1, 1}, {0, 2, 2}}, {{0, 2, 1}, {0, 3, UN}}, {{1, 1, 1}, {1, 1, 2}}}; } };
// The same box and layout at other indices, overlapping the first.
struct f_shift1 : family<nda::shape<nda::dim<>>> { static constexpr const char* name = "shifted rank 1";
  static std::vector<rshape> list() { return {{{0, 4, 1}}, {{1, 4, UN}}, {{-2, 4, 1}}}; } };
struct f_shift2 : family<nda::shape_of_rank<2>> { static constexpr const char* name = "shifted rank 2";
  static std::vector<rshape> list() { return {{{0, 2, 1}, {0, 2, 2}}, {{1, 2, 1}, {0, 2, 2}}, {{0, 2, 1}, {-1, 2, 2}}, {{0, 2, 2}, {0, 2, 1}}}; } };
struct f_large : family<nda::shape<nda::dim<>>> { static constexpr const char* name = "large rank 1";
  static std::vector<rshape> list() { return {{{0, 33, UN}}, {{1, 17, -2}}, {{-3, 40, UN}}, {{2, 130, UN}}}; } };
struct f_large2 : family<nda::dense_shape<2>> { static constexpr const char* name = "large rank 2";
  static std::vector<rshape> list() { return {{{0, 17, 1}, {0, 2, UN}}, {{-1, 3, 1}, {0, 19, -5}}, {{2, 16, 1}, {1, 3, UN}}}; } };
struct f_rank0 : family<nda::shape<>> { static constexpr const char* name = "rank 0"; static std::vector<rshape> list() { return {{}}; } };

constexpr int ANY = -123456789;   // an element whose value is not specified
enum status { EMPTY, VALUE, LOOSE };  // no array; array with a known value; moved-from or failed: unspecified contents
struct mslot { status st = EMPTY; rshape shape; std::vector<int> val; int id = 0; };

// Positions of a shape's indices in loop order.
static long pos_of(const rshape& s, const idx& i) {
  long p = 0, m = 1; for (size_t k = 0; k < s.size(); k++) { p += (i[k] - s[k].min) * m; m *= s[k].extent; } return p;
}
static long count(const rshape& s) { long n = 1; for (auto& d : s) n *= d.extent; return n; }
template <class F> static void each_index(const rshape& s, F&& f) { if (s.empty()) f(idx()); else each(s, f); }
static long span_of(const rshape& s) { if (count(s) <= 0) return 0; span f = flat_span(s); return f.extent(); }

template <class T, class Fam, class A, int K> struct machine {
  using shape = typename Fam::shape;
  using arr = nda::array<T, shape, A>;
  using tr = traits<A>;
  static constexpr bool copyable = std::is_copy_constructible<T>::value;
  using at = std::allocator_traits<A>;
  static constexpr size_t R = shape::rank();
  static constexpr bool CCA = at::propagate_on_container_copy_assignment::value, CMA = at::propagate_on_container_move_assignment::value, CS = at::propagate_on_container_swap::value;
  struct store { alignas(64) char mem[K][(sizeof(arr) + 63) / 64 * 64]; };
  static store& mem() { static store s; return s; }
  static arr& get(int s) { return *reinterpret_cast<arr*>(mem().mem[s]); }
  static const arr& cget(int s) { return get(s); }
  static void wipe(int s) { memset(mem().mem[s], 0xee, sizeof(mem().mem[s])); }

  std::vector<rshape> shapes, resolved;
  mslot m[K];
  ctx& c;
  int faults = 0;
  explicit machine(ctx& c) : c(c) {
    shapes = Fam::list();
    for (auto& r : shapes) { shape s = to_shape<shape>(r); s.resolve(); resolved.push_back(from_shape(s)); }
    for (int s = 0; s < K; s++) wipe(s);
  }
  static rshape default_shape() { shape s; s.resolve(); return from_shape(s); }
  static std::vector<int> constant(const rshape& s, int v) { return std::vector<int>((size_t)std::max(0L, count(s)), v); }
  static int fresh() { return tr::uninit ? ANY : 0; }
  static int norm(int id) { return tr::stateless() ? 0 : id; }

  // ---- operations
  enum kind { MAKE, MAKE_ALLOC, MAKE_SHAPE, MAKE_SHAPE_ALLOC, MAKE_VALUE, MAKE_VALUE_ALLOC, COPY, COPY_ALLOC, MOVE, MOVE_ALLOC,
              COPY_ASSIGN, MOVE_ASSIGN, ASSIGN_COPY, ASSIGN_MOVE, ASSIGN_SHAPE, CLEAR, RESHAPE, SWAP, SWAP_FREE, PAINT, WRITE, DESTROY };
  struct op { kind k; int s, t, arg, id; };  // slot, other slot, shape, allocator
  static const char* kind_name(kind k) {
    static const char* n[] = {"array()", "array(alloc)", "array(shape)", "array(shape,alloc)", "array(shape,value)", "array(shape,value,alloc)", "array(const&)", "array(const&,alloc)", "array(&&)", "array(&&,alloc)",
                              "=const&", "=&&", "assign(const&)", "assign(&&)", "assign(shape,value)", "clear", "reshape", "swap", "swap()", "paint", "write", "destroy"};
    return n[k];
  }
  static bool copies(kind k) { return k == MAKE_VALUE || k == MAKE_VALUE_ALLOC || k == COPY || k == COPY_ALLOC || k == COPY_ASSIGN || k == ASSIGN_COPY || k == ASSIGN_SHAPE; }
  std::vector<op> enabled() const {
    std::vector<op> v = all_enabled();
    if (!copyable) v.erase(std::remove_if(v.begin(), v.end(), [](const op& o) { return copies(o.k); }), v.end());
    return v;
  }
  std::vector<op> all_enabled() const {
    std::vector<op> v;
    bool ids = !tr::stateless();
    for (int s = 0; s < K; s++) {
      if (m[s].st == EMPTY) {
        bool first = true; for (int q = 0; q < s; q++) if (m[q].st == EMPTY) first = false;
        if (!first) continue;  // empty slots are interchangeable
        v.push_back({MAKE, s, 0, 0, 0});
        if (ids) v.push_back({MAKE_ALLOC, s, 0, 0, 1});
        for (int k = 0; k < (int)shapes.size(); k++) {
          v.push_back({MAKE_SHAPE, s, 0, k, 0}); v.push_back({MAKE_VALUE, s, 0, k, 0});
          if (ids || k == 0) { v.push_back({MAKE_SHAPE_ALLOC, s, 0, k, 1}); v.push_back({MAKE_VALUE_ALLOC, s, 0, k, 1}); }
        }
        for (int t = 0; t < K; t++) if (t != s && m[t].st != EMPTY) {
          v.push_back({COPY, s, t, 0, 0}); v.push_back({COPY_ALLOC, s, t, 0, 1}); if (ids) v.push_back({COPY_ALLOC, s, t, 0, 2});
          v.push_back({MOVE, s, t, 0, 0}); v.push_back({MOVE_ALLOC, s, t, 0, 1}); if (ids) v.push_back({MOVE_ALLOC, s, t, 0, 2});
        }
        continue;
      }
      for (int t = 0; t < K; t++) if (m[t].st != EMPTY) {
        v.push_back({COPY_ASSIGN, s, t, 0, 0}); v.push_back({MOVE_ASSIGN, s, t, 0, 0});
        v.push_back({ASSIGN_COPY, s, t, 0, 0}); v.push_back({ASSIGN_MOVE, s, t, 0, 0});
      }
      for (int t = s; t < K; t++) if (m[t].st != EMPTY) { v.push_back({SWAP, s, t, 0, 0}); if (t != s) { v.push_back({SWAP_FREE, s, t, 0, 0}); v.push_back({SWAP, t, s, 0, 0}); } }
      for (int k = 0; k < (int)shapes.size(); k++) { v.push_back({ASSIGN_SHAPE, s, 0, k, 0}); v.push_back({RESHAPE, s, 0, k, 0}); }
      v.push_back({CLEAR, s, 0, 0, 0});
      if (m[s].st == VALUE && count(m[s].shape) > 0) { v.push_back({PAINT, s, 0, 0, 0}); v.push_back({WRITE, s, 0, 0, 0}); }
      v.push_back({DESTROY, s, 0, 0, 0});
    }
    return v;
  }
  static constexpr int FILL = 5;
  // Operations that copy elements.
  void run_copy(const op&, arr*, const shape&, const A&, std::false_type) {}
  void run_copy(const op& o, arr* p, const shape& sh, const A& al, std::true_type) {
    const T value = T(FILL); world::counts() = world::counts_t();
    switch (o.k) {
      case MAKE_VALUE: new (p) arr(sh, value); break;
      case MAKE_VALUE_ALLOC: new (p) arr(sh, value, al); break;
      case COPY: new (p) arr(cget(o.t)); break;
      case COPY_ALLOC: new (p) arr(cget(o.t), al); break;
      case COPY_ASSIGN: { arr& r = (get(o.s) = cget(o.t)); if (&r != &get(o.s)) mc::fail("operator= does not return *this"); break; }
      case ASSIGN_COPY: get(o.s).assign(cget(o.t)); break;
      case ASSIGN_SHAPE: get(o.s).assign(sh, value); break;
      default: break;
    }
    costs = world::counts();
  }
  void run_real(const op& o) {
    arr* p = reinterpret_cast<arr*>(mem().mem[o.s]);
    const shape sh = to_shape<shape>(shapes[o.arg]);
    const A al = tr::make(o.id);
    world::counts() = world::counts_t(); world::heap().requests = 0;
    live_before = world::live(); frees_before = world::heap().frees; allocs_before = world::heap().allocs;
    switch (o.k) {
      case MAKE: new (p) arr(); break;
      case MAKE_ALLOC: new (p) arr(al); break;
      case MAKE_SHAPE: new (p) arr(sh); break;
      case MAKE_SHAPE_ALLOC: new (p) arr(sh, al); break;
      case MOVE: new (p) arr(std::move(get(o.t))); break;
      case MOVE_ALLOC: new (p) arr(std::move(get(o.t)), al); break;
      case MOVE_ASSIGN: { arr& r = (get(o.s) = std::move(get(o.t))); if (&r != &get(o.s)) mc::fail("operator= does not return *this"); break; }
      case ASSIGN_MOVE: get(o.s).assign(std::move(get(o.t))); break;
      case CLEAR: get(o.s).clear(); break;
      case RESHAPE: get(o.s).reshape(sh); break;
      case SWAP: get(o.s).swap(get(o.t)); break;
      case SWAP_FREE: { using std::swap; swap(get(o.s), get(o.t)); break; }
      case PAINT: { int n = 100; each_index(m[o.s].shape, [&](const idx& i) { get(o.s)[to_tuple<R>(i)] = T(n++); }); break; }
      case WRITE: { idx i; for (auto& d : m[o.s].shape) i.push_back(d.max()); get(o.s)[to_tuple<R>(i)] = T(7); break; }
      case DESTROY: get(o.s).~arr(); break;
      default: return run_copy(o, p, sh, al, std::integral_constant<bool, copyable>());
    }
    costs = world::counts();
  }
  world::counts_t costs;
  long live_before = 0, frees_before = 0, allocs_before = 0;
  static bool constructs(kind k) { return k <= MOVE_ALLOC; }

  void set(int s, const rshape& sh, std::vector<int> v, int id) { m[s].st = VALUE; m[s].shape = sh; m[s].val = std::move(v); m[s].id = id; }
  void run_model(const op& o) {
    mslot& a = m[o.s]; mslot& b = m[o.t];
    const rshape& sh = resolved[o.arg];
    int id = norm(o.id);
    // A copy of an array with unspecified contents has unspecified contents.
    bool loose = o.k >= COPY && o.k <= ASSIGN_MOVE && o.s != o.t && b.st == LOOSE;
    run_model_(o, a, b, sh, id);
    if (loose) a.st = LOOSE;
  }
  void run_model_(const op& o, mslot& a, mslot& b, const rshape& sh, int id) {
    switch (o.k) {
      case MAKE: case MAKE_ALLOC: set(o.s, default_shape(), constant(default_shape(), fresh()), id); break;
      case MAKE_SHAPE: case MAKE_SHAPE_ALLOC: set(o.s, sh, constant(sh, fresh()), id); break;
      case MAKE_VALUE: case MAKE_VALUE_ALLOC: set(o.s, sh, constant(sh, FILL), id); break;
      case COPY: set(o.s, b.shape, b.val, norm(tr::soccc(b.id))); break;
      case COPY_ALLOC: set(o.s, b.shape, b.val, id); break;
      case MOVE: set(o.s, b.shape, b.val, CMA ? b.id : 0); b.st = LOOSE; break;
      case MOVE_ALLOC: set(o.s, b.shape, b.val, id); b.st = LOOSE; break;
      case COPY_ASSIGN: if (o.s != o.t) set(o.s, b.shape, b.val, CCA ? b.id : a.id); break;
      case MOVE_ASSIGN: if (o.s != o.t) { int old = a.id; set(o.s, b.shape, b.val, CMA ? b.id : a.id); b.st = LOOSE; if (CMA) b.id = old; } break;
      case ASSIGN_COPY: if (o.s != o.t) set(o.s, b.shape, b.val, a.id); break;
      case ASSIGN_MOVE: if (o.s != o.t) { set(o.s, b.shape, b.val, a.id); b.st = LOOSE; } break;
      case ASSIGN_SHAPE: set(o.s, sh, constant(sh, FILL), a.id); break;
      case CLEAR: set(o.s, default_shape(), constant(default_shape(), fresh()), a.id); break;
      case RESHAPE: {
        // The elements of an array that was moved from, or in which an operation failed, are not specified.
        std::vector<int> v = constant(sh, a.st == LOOSE ? ANY : fresh());
        if (a.st == VALUE) each_index(sh, [&](const idx& i) { if (contains(a.shape, i)) v[pos_of(sh, i)] = a.val[pos_of(a.shape, i)]; });
        set(o.s, sh, v, a.id); break;
      }
      case SWAP: case SWAP_FREE: if (o.s != o.t) {
        std::swap(a, b);
        // Without propagation on swap, arrays with different allocators keep theirs, or exchange them by moves that propagate.
        if (!CS && !(CMA && norm(tr::id(cget(o.s).get_allocator())) == a.id && norm(tr::id(cget(o.t).get_allocator())) == b.id)) std::swap(a.id, b.id);
      }
      break;
      case PAINT: { int n = 100; for (auto& x : a.val) x = n++; break; }
      case WRITE: a.val.back() = 7; break;
      case DESTROY: a = mslot(); break;
    }
  }
  // After a failed allocation: the array being modified is unspecified, unless nothing was to change.
  void fail_model(const op& o) {
    mslot& a = m[o.s]; mslot& b = m[o.t];
    switch (o.k) {
      case MAKE: case MAKE_ALLOC: case MAKE_SHAPE: case MAKE_SHAPE_ALLOC: case MAKE_VALUE: case MAKE_VALUE_ALLOC: case COPY: case COPY_ALLOC: break;
      case MOVE: case MOVE_ALLOC: b.st = LOOSE; break;
      case RESHAPE: break;  // unchanged
      case MOVE_ASSIGN: case ASSIGN_MOVE: case SWAP: case SWAP_FREE: a.st = LOOSE; b.st = LOOSE; break;
      default: a.st = LOOSE; break;
    }
  }
  // Which allocator an array has after a failure is unspecified: continue with the one it has.
  void sync_ids() { for (int s = 0; s < K; s++) if (m[s].st == LOOSE) m[s].id = norm(tr::id(cget(s).get_allocator())); }
  // ---- checks
  const char* base(int s) const { return (const char*)cget(s).base(); }
  struct before { const char* base[K]; bool in_object[K]; long n[K]; };
  bool inside(int s, const void* p) const { return (const char*)p >= mem().mem[s] && (const char*)p < mem().mem[s] + sizeof(arr); }
  before snapshot() const {
    before b{};
    for (int s = 0; s < K; s++) if (m[s].st != EMPTY) { b.base[s] = base(s); b.in_object[s] = base(s) && inside(s, base(s)); b.n[s] = m[s].st == VALUE ? (long)m[s].val.size() : -1; }
    return b;
  }
  static int value_of(const elem& e) { return world::value_of(e); }
  static int value_of(int e) { return e; }
  bool known(int s) const { return tr::uninit || std::find(m[s].val.begin(), m[s].val.end(), ANY) == m[s].val.end(); }
  void check_values() {
    for (int s = 0; s < K; s++) {
      if (m[s].st != VALUE) continue;
      const arr& a = cget(s);
      rshape got = from_shape(a.shape());
      if (!(got == m[s].shape)) mc::fail("array %d has shape %s, expected %s", s, str(got).c_str(), str(m[s].shape).c_str());
      long n = count(m[s].shape);
      MC_CHECK((long)a.size() == n && a.empty() == (n <= 0), "array %d: size() or empty()", s);
      if (n > 0 && !a.base()) mc::fail("array %d of %ld elements has a null base", s, n);
      size_t k = 0;
      each_index(m[s].shape, [&](const idx& i) {
        int want = m[s].val[k++];
        if (want == ANY) return;
        int got = value_of(a[to_tuple<R>(i)]);
        if (got != want) mc::fail("array %d: element %s is %d, expected %d", s, str(i).c_str(), got, want);
      });
      if (PROP == 10) {
        MC_CHECK(a == a && !(a != a), "an array differs from itself");
        for (int t = 0; t < s; t++) if (m[t].st == VALUE && known(s) && known(t)) { bool eq = m[t].shape == m[s].shape && m[t].val == m[s].val; MC_CHECK((a == cget(t)) == eq && (cget(t) != a) == !eq, "arrays %d and %d: equality", t, s); }
      }
    }
  }
  void check_life() {
    if (!world::is_elem<T>::value) return;
    long expect = 0; bool exact = true;
    for (int s = 0; s < K; s++) {
      if (m[s].st == LOOSE) exact = false;
      if (m[s].st != VALUE) continue;
      expect += (long)m[s].val.size();
      rshape got = from_shape(cget(s).shape());
      if (!(got == m[s].shape)) { exact = false; continue; }  // decided by C10
      each_index(m[s].shape, [&](const idx& i) { (void)value_of(cget(s)[to_tuple<R>(i)]); });
    }
    if (exact && world::live() != expect) mc::fail("%ld elements are alive, the arrays address %ld", world::live(), expect);
    if (!exact && world::live() < expect) mc::fail("%ld elements are alive, the arrays with a value address %ld", world::live(), expect);
  }
  void check_alloc() {
    std::vector<const void*> owned;
    for (int s = 0; s < K; s++) {
      if (m[s].st == EMPTY) continue;
      const arr& a = cget(s);
      int id = tr::id(a.get_allocator());
      if (m[s].st == VALUE && norm(id) != m[s].id) mc::fail("array %d uses allocator %d, expected %d", s, id, m[s].id);
      if (m[s].st != VALUE) continue;
      rshape sh = from_shape(a.shape());
      long span = span_of(sh);
      if (span == 0 || !a.base()) continue;
      const char* lo = (const char*)a.base() + flat_span(sh).lo * (long)sizeof(T);
      const char* hi = lo + span * (long)sizeof(T);
      if (lo != (const char*)a.data()) mc::fail("array %d: data() is not the first element of the allocation", s);
      if (tr::in_object && PROP != 12) {
        bool in = lo >= mem().mem[s] && hi <= mem().mem[s] + sizeof(arr), want = span <= tr::capacity;
        if (in != want) mc::fail("array %d of span %ld %s in its object (capacity %ld)", s, span, in ? "is" : "is not", tr::capacity);
        if (in) { if ((uintptr_t)lo % alignof(T)) mc::fail("in-object buffer is misaligned"); continue; }
      } else if (tr::in_object && lo >= mem().mem[s] && hi <= mem().mem[s] + sizeof(arr)) continue;
      const world::block* b = world::block_of(lo);
      if (!b || hi > b->p + b->bytes) mc::fail("array %d: its %ld elements are not in one allocated block", s, span);
      if (b->n < (size_t)span) mc::fail("array %d: block of %zu elements for a span of %ld", s, b->n, span);
      if (b->owner != (tr::in_object ? b->owner : id)) mc::fail("array %d: block of allocator %d in an array with allocator %d", s, b->owner, id);
      for (auto* p : owned) if (p == b->p) mc::fail("two arrays share a block");
      owned.push_back(b->p);
    }
    world::check_reds();
  }
  // What an operation may do to elements and blocks.
  void check_costs(const op& o, const before& b, const mslot* old) {
    auto k = costs; auto& h = world::heap(); long allocs = h.requests;
    bool counted = world::is_elem<T>::value;
    long n = b.n[o.t];
    auto copies = k.copy + k.cassign, moves = k.move + k.massign;
    auto transfer = [&](const char* why) {
      if (base(o.s) != b.base[o.t]) mc::fail("%s between arrays with %s allocators does not transfer the block", kind_name(o.k), why);
      if (allocs) mc::fail("%s between arrays with %s allocators allocates", kind_name(o.k), why);
      if (counted && k.constructs() + k.cassign + k.massign) mc::fail("%s between arrays with %s allocators creates or assigns elements", kind_name(o.k), why);
    };
    auto by_element = [&] {
      if (counted && copies) mc::fail("%s copies elements", kind_name(o.k));
      if (counted && n >= 0 && moves != n) mc::fail("%s moves %ld elements, expected %ld", kind_name(o.k), moves, n);
    };
    if (PROP == 12 && !tr::in_object) switch (o.k) {
      case MOVE: if (CMA || old[o.t].id == 0) transfer(CMA ? "propagating" : "equal"); else by_element(); break;
      case MOVE_ALLOC: if (old[o.t].id == norm(o.id)) transfer("equal"); else by_element(); break;
      case MOVE_ASSIGN: if (o.s == o.t) break; if (CMA || old[o.t].id == old[o.s].id) transfer(CMA ? "propagating" : "equal"); else by_element(); break;
      case ASSIGN_MOVE: if (o.s != o.t) by_element(); break;
      case COPY: case COPY_ALLOC: if (counted && n >= 0 && (copies != n || moves)) mc::fail("%s: %ld element copies, expected %ld", kind_name(o.k), copies, n); break;
      case COPY_ASSIGN: case ASSIGN_COPY: if (counted && n >= 0 && o.s != o.t && (copies != n || moves)) mc::fail("%s: %ld element copies, expected %ld", kind_name(o.k), copies, n); break;
      case SWAP: case SWAP_FREE:
        if (counted && copies) mc::fail("swap copies elements");
        if (CS && o.s != o.t && (base(o.s) != b.base[o.t] || base(o.t) != b.base[o.s] || allocs || h.frees != frees_before || (counted && k.constructs() + k.destroy + k.cassign + k.massign))) mc::fail("swap of arrays with propagating allocators does not just exchange blocks");
        break;
      case RESHAPE: if (counted && copies) mc::fail("reshape copies elements"); break;
      default: break;
    }
    if (PROP == 14 && tr::in_object) switch (o.k) {
      case MOVE: case MOVE_ALLOC: if (b.in_object[o.t]) by_element(); else if (b.base[o.t]) transfer("equal"); break;
      case MOVE_ASSIGN: if (o.s != o.t) { if (b.in_object[o.t]) by_element(); else if (b.base[o.t] && !b.in_object[o.s]) transfer("equal"); } break;
      case COPY: case COPY_ASSIGN: if (counted && n >= 0 && o.s != o.t && copies != n) mc::fail("%s: %ld element copies, expected %ld", kind_name(o.k), copies, n); break;
      case MAKE: case MAKE_ALLOC: case MAKE_SHAPE: case MAKE_SHAPE_ALLOC: case MAKE_VALUE: case MAKE_VALUE_ALLOC: {
        long need = std::max(span_of(m[o.s].shape), span_of(default_shape()));
        if (need <= tr::capacity && allocs) mc::fail("%s of a span that fits the buffer allocates", kind_name(o.k));
        break;
      }
      case ASSIGN_SHAPE: case CLEAR: if (span_of(m[o.s].shape) <= tr::capacity && allocs) mc::fail("%s to a span that fits the buffer allocates", kind_name(o.k)); break;
      default: break;
    }
    if (PROP == 11 && counted) switch (o.k) {
      case MAKE_SHAPE: case MAKE_SHAPE_ALLOC: case MAKE: case MAKE_ALLOC: if (k.def != (long)m[o.s].val.size() || k.val || k.copy || k.move) mc::fail("%s: %ld of %zu elements value-initialised", kind_name(o.k), k.def, m[o.s].val.size()); break;
      case MAKE_VALUE: case MAKE_VALUE_ALLOC: case ASSIGN_SHAPE: if (k.copy != (long)m[o.s].val.size() || k.val || k.move || k.cassign) mc::fail("%s: %ld of %zu elements copy-constructed from the value", kind_name(o.k), k.copy, m[o.s].val.size()); break;
      case COPY: case COPY_ALLOC: if (n >= 0 && (k.copy != n || k.val || k.move || k.cassign)) mc::fail("%s: %ld of %ld elements copy-constructed", kind_name(o.k), k.copy, n); break;
      case CLEAR: if (k.copy || k.move || k.cassign || k.massign) mc::fail("clear copies or moves elements"); break;
      default: break;
    }
  }
  void check_all() {
    c.check_soft();
    if (P_VALUES) check_values();
    if (P_ALLOC) check_alloc();
    if (P_LIFE) check_life();
    c.check_soft();
  }
  // ---- state: all memory up to renaming of addresses
  uint64_t state() {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    std::vector<const world::block*> order;
    auto words = [&](const char* p, size_t n) {
      for (size_t o = 0; o + 8 <= n; o += 8) {
        uint64_t w; memcpy(&w, p + o, 8);
        const char* q = (const char*)w;
        bool done = false;
        for (int s = 0; s < K && !done; s++) if (q >= mem().mem[s] && q <= mem().mem[s] + sizeof(arr)) { mix(0x1000 + s); mix(q - mem().mem[s]); done = true; }
        for (auto& b : world::blocks()) {
          if (done) break;
          if (q >= b.p - 64 && q <= b.p + b.bytes + 64) {
            size_t k = 0; while (k < order.size() && order[k] != &b) k++;
            if (k == order.size()) order.push_back(&b);
            mix(0x2000 + k); mix(q - b.p); done = true;
          }
        }
        if (!done) { if (w > 0x10000 && (w >> 40) != 0 && (w >> 48) == 0) mix(0x3000); else mix(w); }  // stale addresses are all alike
      }
    };
    for (int s = 0; s < K; s++) { mix(m[s].st); mix(m[s].id); if (m[s].st != EMPTY) words(mem().mem[s], sizeof(mem().mem[s])); for (int v : m[s].val) mix(m[s].st == VALUE ? v : 0); }
    for (size_t k = 0; k < order.size(); k++) { mix(order[k]->bytes); mix(order[k]->owner); words(order[k]->p, order[k]->bytes); }
    mix(world::blocks().size());
    mix(faults);
    return h;
  }
  void destroy_all() {
    for (int s = 0; s < K; s++) if (m[s].st != EMPTY) { get(s).~arr(); m[s].st = EMPTY; wipe(s); }
    if (P_LIFE || P_ALLOC) world::all_gone();
    c.check_soft();
  }
  void explore(int depth, int undeduped, int max_faults) {
    world::reset();
    world::on() = (P_LIFE ? world::LIFETIME : 0) | (P_ALLOC ? world::ALLOC : 0) | world::VALUES;
    for (int step = 0; step < depth; step++) {
      auto ops = enabled();
      op o = ops[c.choose((int)ops.size())];
      world::heap().fail_at = -1; world::heap().failed = false;
      int fail = -1;
      if (P_FAULTS && faults < max_faults) fail = c.choose(5) - 1;
      if (step == 1 || depth == 1) if (!c.mine()) return abandon();
      c.note("%d: %s array %d%s%s%s%s", step, kind_name(o.k), o.s, (o.k >= COPY && o.k <= ASSIGN_MOVE) || o.k == SWAP || o.k == SWAP_FREE ? (" other " + std::to_string(o.t)).c_str() : "",
             o.k == RESHAPE || o.k == ASSIGN_SHAPE || (o.k >= MAKE_SHAPE && o.k <= MAKE_VALUE_ALLOC) ? (" shape " + str(shapes[o.arg])).c_str() : "", o.id ? (" allocator " + std::to_string(o.id)).c_str() : "", fail >= 0 ? (" failing allocation " + std::to_string(fail)).c_str() : "");
      before b = snapshot();
      mslot old[K]; for (int s = 0; s < K; s++) old[s] = m[s];
      world::heap().fail_at = fail;
      bool threw = false;
      try { run_real(o); } catch (const std::bad_alloc&) { threw = true; }
      world::heap().fail_at = -1;
      if (fail >= 0 && !world::heap().failed) { if (!threw) run_model(o); cleanup_discard(o); }
      if (threw && fail < 0) mc::fail("%s threw bad_alloc", kind_name(o.k));
      if (fail >= 0 && !threw) mc::fail("%s: a failed allocation did not reach the caller", kind_name(o.k));
      if (c.fresh()) mc::count(0, "transitions");
      if (threw) { faults++; fail_model(o); if (constructs(o.k)) wipe(o.s); sync_ids(); mc::count(1, "faults"); if (PROP == 13) c.nontrivial(); }
      else run_model(o);
      if (o.k == DESTROY) wipe(o.s);
      check_all();
      if (!threw) { check_costs(o, b, old); c.check_soft(); }
      c.obs(state());
      if (!P_FAULTS) c.nontrivial();
      if (step + 1 < depth && step >= undeduped && c.seen(state(), depth - step - 1)) break;
    }
    destroy_all();
  }
  void abandon() { for (int s = 0; s < K; s++) if (m[s].st != EMPTY) { get(s).~arr(); m[s].st = EMPTY; } }
  void cleanup_discard(const op&) { abandon(); c.discard(); }
};

template <class T, class Fam, class A, int K, int Quick, int Thorough, int Undeduped> struct cfg {};
template <class C> struct body;
template <class T, class Fam, class A, int K, int Q, int Th, int U> struct body<cfg<T, Fam, A, K, Q, Th, U>> {
  static std::string name() { return std::string(Fam::name) + ", " + alloc_name((A*)nullptr) + (std::is_same<T, elem>::value ? "" : std::is_same<T, world::move_elem>::value ? ", move-only elements" : ", int") + ", " + std::to_string(K) + " arrays"; }
  template <class E, int F> static std::string alloc_name(world::alloc<E, F>*) {
    std::string r = "allocator"; if (F & world::CCA) r += "+cca"; if (F & world::CMA) r += "+cma"; if (F & world::CS) r += "+cs"; if (F & world::SOCCC_FRESH) r += "+soccc"; if (F & world::STATELESS) r += "+stateless"; return r;
  }
  template <class E, size_t N, size_t Al, class B> static std::string alloc_name(nda::auto_allocator<E, N, Al, B>*) { return "auto<" + std::to_string(N) + "," + std::to_string(Al) + "> over " + alloc_name((B*)nullptr); }
  template <class B> static std::string alloc_name(nda::uninitialized_allocator<B>*) { return "uninitialized " + alloc_name((B*)nullptr); }
  static void run(ctx& c) { machine<T, Fam, A, K> x(c); x.explore(mc::thorough() ? Th : Q, U, 2); }
};

using namespace world;
template <int F> using A = world::alloc<elem, F>;
constexpr int STD = STATELESS | CMA;
template <size_t N, int F = STD> using AU = nda::auto_allocator<elem, N, alignof(elem), A<F>>;
template <int F> using UI = nda::uninitialized_allocator<world::alloc<int, F>>;
template <size_t N> using UA = nda::uninitialized_allocator<nda::auto_allocator<int, N, alignof(int), world::alloc<int, STD>>>;
#ifndef DQ
#define DQ 4
#define DT 5
#endif
#ifndef DU
#define DU 1
#endif
template <class F, class Al, class T = elem, int K = 2> using C = cfg<T, F, Al, K, DQ, DT, DU>;
template <int F> using MA = world::alloc<world::move_elem, F>;
template <size_t N, int F = STD> using MAU = nda::auto_allocator<world::move_elem, N, alignof(world::move_elem), MA<F>>;
template <class F, class Al, int K = 2> using M = cfg<world::move_elem, F, Al, K, DQ, DT, DU>;  // elements that cannot be copied
template <class F, class Al, class T = elem, int K = 2> using L = cfg<T, F, Al, K, DQ - 1, DT - 1, DU>;  // one operation less
#if PROP == 14
using all = types<C<f_rank1, AU<2>>, C<f_rank1, AU<3>>, C<f_rank2, AU<4>>, C<f_rank2, AU<1>>, C<f_fixed, AU<2>>, C<f_fixed, AU<1>>, C<f_partial, AU<2>>, C<f_dense2, AU<4>>, C<f_matrix, AU<3>>, C<f_rank0, AU<1>>, C<f_rank2, AU<32>>, C<f_rank1, AU<2, 0>>, C<f_partial, AU<3, CCA | CMA | CS>>,
                  C<f_nested1, AU<3>>, L<f_nested2, AU<4>>, L<f_shift1, AU<4>>, L<f_shift2, AU<3>>, L<f_large, AU<40>>, L<f_large2, AU<64>>, L<f_rank3, AU<4>>, L<f_image, AU<12>>, L<f_rank5, AU<8>>,
                  M<f_rank1, MAU<2>>, M<f_fixed, MAU<2>>, M<f_matrix, MAU<3>>>;
#elif PROP == 15
using all = types<C<f_rank1, UI<STD>, int>, C<f_rank2, UI<0>, int>, C<f_rank2, UI<CCA | CMA | CS>, int>, C<f_rank1, UI<CCA>, int>, C<f_rank1, UI<CMA>, int>, C<f_rank1, UI<CS>, int>, C<f_rank1, UI<SOCCC_FRESH>, int>, C<f_fixed, UI<0>, int>, C<f_partial, UI<STD>, int>, C<f_rank1, UA<2>, int>, C<f_rank2, UA<4>, int>, C<f_fixed, UA<2>, int>,
                  C<f_nested1, UI<0>, int>, L<f_nested2, UI<STD>, int>, L<f_shift1, UI<0>, int>, L<f_shift2, UI<STD>, int>, L<f_large, UI<0>, int>, L<f_rank3, UI<STD>, int>, L<f_large, UA<40>, int>, L<f_image, UI<CMA>, int>>;
#else
using all = types<C<f_rank1, A<STD>>, C<f_rank2, A<STD>>, C<f_dense2, A<STD>>, C<f_fixed, A<STD>>, C<f_partial, A<STD>>, C<f_matrix, A<STD>>, C<f_rank0, A<STD>>, C<f_rank2, A<STD>, elem, 3>,
                  C<f_rank1, A<0>>, C<f_rank2, A<0>>, C<f_fixed, A<0>>, C<f_partial, A<0>>, C<f_rank1, A<CCA | CMA | CS>>, C<f_rank2, A<CCA | CMA | CS>>, C<f_fixed, A<CCA | CMA | CS>>, C<f_partial, A<CCA>>, C<f_rank1, A<CCA>>, C<f_rank2, A<CMA>>, C<f_partial, A<CMA>>, C<f_rank1, A<CS>>, C<f_fixed, A<CS>>,
                  C<f_rank1, A<SOCCC_FRESH>>, C<f_rank1, A<CCA | CMA>>, C<f_matrix, A<CMA | CS>>, C<f_rank1, A<STATELESS>>, C<f_rank0, A<0>>, C<f_rank1, A<0>, elem, 3>, C<f_dense2, world::alloc<int, 0>, int>, C<f_rank2, world::alloc<int, STD>, int>,
                  C<f_rank1, AU<2>>, C<f_rank2, AU<4>>, C<f_fixed, AU<2>>, C<f_partial, AU<2>>, C<f_rank2, AU<1>>,
                  C<f_nested1, A<STD>>, C<f_nested2, A<STD>>, L<f_nested1, A<0>>, L<f_nested2, A<CCA | CMA | CS>>, L<f_shift1, A<STD>>, L<f_shift2, A<STD>>, L<f_shift1, A<0>>, L<f_shift2, A<CCA | CMA | CS>>, L<f_rank3, A<0>>, L<f_image, A<STD>>, L<f_image, A<CCA | CMA | CS>>, L<f_rank5, A<CMA>>, L<f_large, A<STD>>, L<f_large2, A<0>>, L<f_large, AU<40>>, L<f_large, world::alloc<int, 0>, int>, L<f_large2, world::alloc<int, STD>, int>,
                  M<f_rank1, MA<STD>>, M<f_rank2, MA<0>>, M<f_fixed, MA<STD>>, M<f_image, MA<0>>, M<f_matrix, MA<CMA>>, M<f_rank1, MAU<2>>>;
#endif
static register_all<body> reg("history", part<all>());
