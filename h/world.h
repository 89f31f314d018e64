// Instrumented elements and allocators: every construction, destruction, access, allocation and release of
// the code under test is checked against a registry. Nothing here depends on how the library works.
#pragma once
#include "mc.h"
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>

namespace world {

enum monitors { LIFETIME = 1, ALLOC = 2, VALUES = 4 };
inline int& on() { static int m = LIFETIME | ALLOC | VALUES; return m; }
__attribute__((format(printf, 2, 3))) inline void bad(int m, const char* f, ...) {
  if (!(on() & m)) return;
  va_list ap; va_start(ap, f); std::string s = mc::vfmt(f, ap); va_end(ap);
  mc::soft_fail("%s", s.c_str());
}

struct counts_t { long def = 0, val = 0, copy = 0, move = 0, cassign = 0, massign = 0, destroy = 0; long constructs() const { return def + val + copy + move; } };
inline counts_t& counts() { static counts_t c; return c; }
inline long& live() { static long n = 0; return n; }
constexpr int MOVED = -77777;
constexpr unsigned ALIVE = 0x5a11e11fu, DEAD = 0xdeadbeefu;

// A counting element. Value 0 when value-initialised.
struct elem {
  int v; volatile unsigned magic; elem* volatile self;  // volatile: stores around the lifetime must not be optimised away
  bool alive() const { return magic == ALIVE && self == this; }
  void use(const char* what) const { if (!alive()) bad(LIFETIME, "%s of an element that is not alive", what); }
  void born() { if (alive()) bad(LIFETIME, "construction over a live element"); magic = ALIVE; self = this; live()++; }
  elem() { born(); v = 0; counts().def++; }
  elem(int x) { born(); v = x; counts().val++; }
  elem(const elem& o) { o.use("copy"); born(); v = o.v; counts().copy++; }
  elem(elem&& o) noexcept { o.use("move"); born(); v = o.v; o.v = MOVED; counts().move++; }
  elem& operator=(const elem& o) { use("assignment"); o.use("copy assignment"); v = o.v; counts().cassign++; return *this; }
  elem& operator=(elem&& o) noexcept { use("assignment"); o.use("move assignment"); int x = o.v; o.v = MOVED; v = x; counts().massign++; return *this; }
  ~elem() { if (!alive()) bad(LIFETIME, "destruction of an element that is not alive"); magic = DEAD; live()--; counts().destroy++; }
  bool operator==(const elem& o) const { use("comparison"); o.use("comparison"); return v == o.v; }
  bool operator!=(const elem& o) const { return !(*this == o); }
};
// An element that can be moved but not copied.
struct move_elem : elem {
  move_elem() = default; explicit move_elem(int x) : elem(x) {}
  move_elem(const move_elem&) = delete; move_elem& operator=(const move_elem&) = delete;
  move_elem(move_elem&&) = default; move_elem& operator=(move_elem&&) = default;
};
inline int value_of(const elem& e) { e.use("read"); return e.v; }
inline int value_of(int e) { return e; }

// ---- heap
struct block { char* p; size_t bytes, n; int owner; size_t esize; bool tracked; };
inline std::vector<block>& blocks() { static std::vector<block> b; return b; }
struct heap_t { long allocs = 0, frees = 0; long fail_at = -1, fail_at2 = -1; long requests = 0; bool failed = false; size_t last_n = 0; };
inline heap_t& heap() { static heap_t h; return h; }
constexpr size_t RED = 32;

inline void reset() {
  for (auto& b : blocks()) ::free(b.p - RED);
  blocks().clear(); heap() = heap_t(); counts() = counts_t(); live() = 0;
}
inline void* get(size_t n, size_t esize, int owner, bool tracked) {
  long k = heap().requests++;
  if (n == 0) bad(ALLOC, "allocation of zero elements requested");
  if (k == heap().fail_at || k == heap().fail_at2) { heap().failed = true; throw std::bad_alloc(); }
  if (n > (1u << 20)) { bad(ALLOC, "absurd allocation of %zu elements requested", n); throw std::bad_alloc(); }
  char* p = (char*)::malloc(n * esize + 2 * RED);
  memset(p, 0xab, RED); memset(p + RED, 0xcd, n * esize); memset(p + RED + n * esize, 0xab, RED);
  blocks().push_back(block{p + RED, n * esize, n, owner, esize, tracked});
  heap().allocs++; heap().last_n = n;
  return p + RED;
}
inline bool reds_ok(const block& b) {
  for (size_t i = 0; i < RED; i++) if ((unsigned char)b.p[-1 - (long)i] != 0xab || (unsigned char)b.p[b.bytes + i] != 0xab) return false;
  return true;
}
inline long live_in(const block& b) {
  if (!b.tracked) return 0;
  long n = 0;
  for (size_t i = 0; i < b.n; i++) if (((elem*)(b.p + i * b.esize))->alive()) n++;
  return n;
}
inline void put(void* p, size_t n, int owner) {
  for (size_t k = 0; k < blocks().size(); k++) {
    block& b = blocks()[k];
    if (b.p != p) continue;
    if (b.n != n) bad(ALLOC, "block of %zu elements released as %zu", b.n, n);
    if (b.owner != owner) bad(ALLOC, "block of allocator %d released to allocator %d", b.owner, owner);
    if (!reds_ok(b)) bad(ALLOC | LIFETIME, "write outside an allocated block");
    long l = live_in(b);
    if (l) bad(LIFETIME, "block released with %ld elements alive", l);
    memset(b.p, 0xdd, b.bytes); ::free(b.p - RED);
    blocks().erase(blocks().begin() + k);
    heap().frees++;
    return;
  }
  bad(ALLOC, "release of %p which is not an allocated block", p);
}
inline const block* block_of(const void* p) {
  for (auto& b : blocks()) if ((const char*)p >= b.p && (const char*)p < b.p + b.bytes) return &b;
  return nullptr;
}
inline void check_reds() { for (auto& b : blocks()) if (!reds_ok(b)) bad(ALLOC | LIFETIME, "write outside an allocated block"); }
inline void all_gone() {
  if (!blocks().empty()) bad(ALLOC, "%zu blocks never released", blocks().size());
  long alive = live();
  if (alive) bad(LIFETIME, "%ld elements alive after all arrays are gone", alive);
}

// ---- allocators
template <class T> struct is_elem : std::false_type {};
template <> struct is_elem<elem> : std::true_type {};
template <> struct is_elem<move_elem> : std::true_type {};
enum { CCA = 1, CMA = 2, CS = 4, SOCCC_FRESH = 8, STATELESS = 16, CONSTRUCTS = 32 };
inline long& constructed_by_allocator() { static long n = 0; return n; }
constexpr int DEFAULT_ID = 0, FRESH_ID = 50;
template <class T, int Flags> struct alloc_base {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (Flags & CCA) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (Flags & CMA) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (Flags & CS) != 0>;
  using is_always_equal = std::integral_constant<bool, (Flags & STATELESS) != 0>;
  template <class U> struct rebind { using other = alloc_base<U, Flags>; };
  int id = DEFAULT_ID;
  alloc_base() = default;
  explicit alloc_base(int i) : id((Flags & STATELESS) ? DEFAULT_ID : i) {}
  template <class U> alloc_base(const alloc_base<U, Flags>& o) : id(o.id) {}
  T* allocate(size_t n) { return (T*)get(n, sizeof(T), id, is_elem<T>::value); }
  void deallocate(T* p, size_t n) noexcept { put((void*)p, n, id); }
  alloc_base select_on_container_copy_construction() const { return (Flags & SOCCC_FRESH) ? alloc_base(FRESH_ID) : *this; }
  bool operator==(const alloc_base& o) const { return id == o.id; }
  bool operator!=(const alloc_base& o) const { return id != o.id; }
};
template <class T, int Flags> using alloc = alloc_base<T, Flags>;

}  // namespace world
