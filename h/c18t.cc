// C18: a list of dimensions is accepted by transpose exactly when it is a permutation.
#include "ref.h"
#include "array/array.h"
using namespace ref;

// The lists of length L with entries below B, numbered from 0.
template <size_t B, size_t L> struct lists {
  static constexpr size_t power(size_t n) { return n == 0 ? 1 : B * power(n - 1); }
  static constexpr size_t count = power(L);
  static constexpr size_t digit(size_t k, size_t i) { return k / power(i) % B; }
  static std::vector<size_t> list(size_t k) { std::vector<size_t> r; for (size_t i = 0; i < L; i++) r.push_back(digit(k, i)); return r; }
};
template <class X, size_t... I> struct call {
  template <class Y, class R = decltype(nda::transpose<I...>(std::declval<Y>()))> static constexpr bool ok(int) { return true; }
  template <class Y> static constexpr bool ok(long) { return false; }
};
template <class X, class B, size_t K, class Is> struct accepts;
template <class X, class B, size_t K, size_t... Is> struct accepts<X, B, K, std::index_sequence<Is...>> {
  static constexpr bool value = call<X, B::digit(K, Is)...>::template ok<X>(0);
};
template <class X, class B, size_t L, class Ks> struct table;
template <class X, class B, size_t L, size_t... K> struct table<X, B, L, std::index_sequence<K...>> {
  static bool get(size_t k) { static const bool t[] = {accepts<X, B, K, std::make_index_sequence<L>>::value...}; return t[k]; }
};
template <size_t B, size_t L, class X, bool Partial> struct lists_of {
  using ls = lists<B, L>;
  static void run(ctx& c, size_t rank) {
    size_t k = c.choose((int)ls::count);
    if (!c.mine()) return;
    std::vector<size_t> v = ls::list(k);
    std::string s; for (size_t i : v) s += " " + std::to_string(i);
    c.note("%s", s.c_str());
    std::vector<bool> seen(L); bool permutation = Partial || L == rank;
    for (size_t i : v) { if (i >= L || seen[i]) permutation = false; else seen[i] = true; }
    bool got = table<X, ls, L, std::make_index_sequence<ls::count>>::get(k);
    MC_CHECK(got == permutation, "transpose by%s is %s", s.c_str(), got ? "accepted" : "rejected");
    if (permutation) c.nontrivial();
    c.obs(permutation); for (size_t i : v) c.obs((long)i);
  }
};
using nda::shape_of_rank; using nda::dense_shape;
#if PART == 0
MC_SUITE("lists of 5 for a shape of rank 5") { lists_of<5, 5, shape_of_rank<5>, true>::run(c, 5); }
#elif PART == 1
MC_SUITE("lists of 5 for a view of rank 5") { lists_of<5, 5, nda::array_ref<int, shape_of_rank<5>>, false>::run(c, 5); }
#else
MC_SUITE("lists of 1 for a shape of rank 4") { lists_of<3, 1, shape_of_rank<4>, true>::run(c, 4); }
MC_SUITE("lists of 2 for a shape of rank 4") { lists_of<4, 2, dense_shape<4>, true>::run(c, 4); }
MC_SUITE("lists of 3 for a shape of rank 4") { lists_of<5, 3, shape_of_rank<4>, true>::run(c, 4); }
MC_SUITE("lists of 4 for a shape of rank 4") { lists_of<5, 4, shape_of_rank<4>, true>::run(c, 4); }
MC_SUITE("lists of 2 for a view of rank 3") { lists_of<4, 2, nda::array_ref<int, shape_of_rank<3>>, false>::run(c, 3); }
MC_SUITE("lists of 3 for a view of rank 3") { lists_of<4, 3, nda::array_ref<int, shape_of_rank<3>>, false>::run(c, 3); }
MC_SUITE("lists of 3 for an array of rank 3") { lists_of<4, 3, nda::array_of_rank<int, 3>&, false>::run(c, 3); }
MC_SUITE("lists of 3 for a const array of rank 3") { lists_of<4, 3, const nda::dense_array<int, 3>&, false>::run(c, 3); }
MC_SUITE("lists of 4 for a view of rank 4") { lists_of<4, 4, nda::array_ref<int, dense_shape<4>>, false>::run(c, 4); }
#endif
