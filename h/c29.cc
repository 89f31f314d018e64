// C29: text form of intervals, dims and shapes (absl/absl.h with a stand-in for Abseil's formatting library).
#include "ref.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/absl.h"
using namespace ref;
using nda::dim; using nda::dynamic; using nda::interval; using nda::shape; using nda::dense_dim;
static const long DYN = (long)nda::dynamic;

static std::string num(long v) { return std::to_string(v); }
static std::string want(const rd& d) { return "dim(" + num(d.min) + ", " + num(d.extent) + (d.stride == UN ? "" : ", " + num(d.stride)) + ")"; }
static std::string want(const rshape& s) { std::string r = "shape<" + num((long)s.size()) + ">("; for (size_t k = 0; k < s.size(); k++) r += (k ? ", " : "") + want(s[k]); return r + ")"; }
template <class T> static void expect(const T& x, const std::string& w, const char* what) {
  std::string a, b, d;
  try { a = absl::StrFormat("%v", x); b = absl::StrCat("<", x, "|", x, ">"); absl::stub::sink s; AbslStringify(s, x); d = s.text; }
  catch (const std::string& e) { mc::fail("%s: formatting fails: %s", what, e.c_str()); }
  MC_CHECK(a == w, "%s: StrFormat gives \"%s\", expected \"%s\"", what, a.c_str(), w.c_str());
  MC_CHECK(b == "<" + w + "|" + w + ">", "%s: StrCat gives \"%s\"", what, b.c_str());
  MC_CHECK(d == w, "%s: a sink receives \"%s\", expected \"%s\"", what, d.c_str(), w.c_str());
}
static const bool wide_index = sizeof(index_t) > 4;
static std::vector<long> big(std::vector<long> v) { if (wide_index) { v.push_back(1L << 40); v.push_back(-(3L << 35)); } else { v.push_back(1L << 29); v.push_back(-(3L << 27)); } return v; }
template <class I> struct intervals {
  static std::string name() { return "<" + num(I::Min) + "," + num(I::Extent) + ">"; }
  static void run(ctx& c) {
    long m = (long)I::Min != DYN ? (long)I::Min : c.pick(big({-9, -3, -1, 0, 1, 2, 7, 10, 123})), e = (long)I::Extent != DYN ? (long)I::Extent : c.pick(std::vector<long>{-1, 0, 1, 2, 9, 10, 100, 4096});
    if (!c.mine()) return;
    c.note("interval %ld %ld", m, e);
    I i((index_t)m, (index_t)e); interval<> g((index_t)m, (index_t)e);
    std::string w = "[" + num(m) + ", " + num(m + e) + ")";
    expect(i, w, "interval"); expect(g, w, "run-time interval"); const I k = i; expect(k, w, "const interval");
    c.obs((uint64_t)m); c.obs((uint64_t)e); if (e > 0) c.nontrivial();
  }
};
template <class D> struct dims {
  static std::string name() { return dim_name<D>(); }
  static void run(ctx& c) {
    rd d = pick_dim<D>(c, alphabet{big({-9, -3, -1, 0, 1, 2, 10}), {0, 1, 2, 9, 10, 4096}, big({UN, -9, -2, -1, 0, 1, 2, 10, 100})});
    if (!c.mine()) return;
    c.note("%s", str(rshape{d}).c_str());
    D x = to_dim<D>(d); dim<> g = to_dim<dim<>>(d);
    expect(x, want(d), "dim"); expect(g, want(d), "run-time dim"); expect(shape<D>(x), want(rshape{d}), "shape of the dim");
    if (d.stride == UN) { x.set_stride(5); rd r = d; r.stride = 5; expect(x, want(r), "dim after set_stride"); }
    c.obs((uint64_t)d.min); c.obs((uint64_t)d.extent); c.obs((uint64_t)d.stride); c.nontrivial();
  }
};
template <class S> struct shapes {
  static std::string name() { return shape_name<S>(); }
  static void run(ctx& c) {
    constexpr size_t R = S::rank(); const bool th = mc::thorough();
    alphabet a = R <= 1 ? alphabet{{0, -2, 5}, {0, 1, 3, 12}, {UN, 1, -2, 4, 0}} : R == 2 ? alphabet{{0, -2, 5}, {0, 1, 12}, {UN, 1, -2, 0}} : R == 3 ? alphabet{th ? std::vector<long>{0, -1} : std::vector<long>{-1}, {0, 1, 12}, {UN, 1, -4}} : R == 4 ? alphabet{{3}, {1, 12}, {UN, -8}} : alphabet{{-3}, {12}, {UN, 2}};
    rshape r = pick_shape<S>(c, a);
    if (!c.mine()) return;
    c.note("%s", str(r).c_str());
    S s = to_shape<S>(r); nda::shape_of_rank<R> g = to_shape<nda::shape_of_rank<R>>(r);
    expect(s, want(r), "shape"); expect(g, want(r), "run-time shape");
    S t = s; t.resolve(); expect(t, want(from_shape(t)), "resolved shape"); nda::shape_of_rank<R> h(t); expect(h, want(from_shape(t)), "resolved run-time shape");
    if (!ref::empty(r) || r.empty()) { std::vector<char> mem(1); nda::array_ref<char, S> v(mem.data(), s); expect(v.shape(), want(from_shape(t)), "shape of a view"); }
    for (auto& d : r) { c.obs((uint64_t)d.extent); c.obs((uint64_t)d.stride); } c.nontrivial();
  }
};
using D0 = types<dim<>, dense_dim<>, dim<-2>, dim<DYN, 12>, dim<5, 3, -2>, dim<0, 4, 0>>;
using D1 = types<dim<>, dense_dim<>, dim<DYN, 12>>;
using S = concat<types<shape<>>, all_shapes<1, D0>::type, all_shapes<2, D0>::type, all_shapes<3, D1>::type,
  types<nda::fixed_dense_shape<640, 480, 3>, nda::shape_of_rank<4>, nda::dense_shape<4>, nda::fixed_dense_shape<2, 3, 4, 5>, nda::shape_of_rank<5>, shape<dim<1, 2, 3>, dim<>, dim<4, 5>, dim<>, dim<6>, dim<>>>>::type;
static register_all<intervals> ri("interval", part<types<interval<>, interval<0>, interval<-7>, interval<DYN, 0>, interval<DYN, 4>, interval<3, 4>, interval<-12, 10>, interval<0, -1>, interval<8, 0>>>());
static register_all<dims> rdm("dim", part<types<dim<>, dense_dim<>, dim<-3>, dim<DYN, 4>, dim<DYN, DYN, -2>, dim<DYN, DYN, 0>, dim<1, 2>, dim<1, DYN, 4>, dim<DYN, 10, 100>, dim<-5, 10, -15>, dim<0, 0, 0>, dim<0, 1, 1>>>());
static register_all<shapes> rs("shape", part<S>());
