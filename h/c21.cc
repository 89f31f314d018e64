// C21: image crops and channel slices view exactly the requested pixels.
#include "ref.h"
#include "array/image.h"
using namespace ref;
using nda::crop_origin; using nda::dynamic;

template <class A, class B> struct same_stride : std::integral_constant<bool, A::Stride == B::Stride> {};

template <class S> struct imgs {
  static std::string name() { return shape_name<S>(); }
  using view = nda::array_ref<int, S>; using cview = nda::array_ref<const int, S>;
  template <size_t I> static long fixed(long, long v) { return v; }
  // memory layouts of an image: planar, x innermost with padding, interleaved, interleaved with padding, mirrored in y, mirrored in x
  static bool lay(rshape& r, int l) {
    const long w = std::max(r[0].extent, 1l), h = std::max(r[1].extent, 1l), n = std::max(r[2].extent, 1l);
    auto set = [&](long x, long y, long c) {
      long st[] = {(long)dim_of<S, 0>::Stride, (long)dim_of<S, 1>::Stride, (long)dim_of<S, 2>::Stride}, v[] = {x, y, c};
      for (int d = 0; d < 3; d++) { if (st[d] != dynamic && st[d] != v[d]) return false; r[d].stride = v[d]; }
      return true;
    };
    switch (l) {
    case 0: return set(1, w, w * h);
    case 1: return set(1, w + 2, (w + 2) * h + 1);
    case 2: return set(n, n * w, 1);
    case 3: return set(4, 4 * w + 3, 1) && n <= 4;
    case 4: return set(1, -(w + 1), (w + 1) * h);
    case 5: return set(n, -n * w - 1, 1);
    case 6: return set(-2, 2 * w, 2 * w * h);
    case 7: return set(1, w * n, w);           // line interleaved
    case 8: return set(h, 1, w * h);           // columns
    case 9: return set(0, 1, h);               // every column is the same memory
    default: return set(-4, 4 * w, 1) && n <= 4;
    }
  }
  static long where(const rshape& r, long x, long y, long c) { return offset(r, {x, y, c}); }
  template <class V> static void check_crop(const V& v, const rshape& r, const int* base, long x0, long y0, long x1, long y1, bool zero, const char* what) {
    const long bx0 = std::max(x0, r[0].min), by0 = std::max(y0, r[1].min), bx1 = std::min(x1, r[0].min + r[0].extent), by1 = std::min(y1, r[1].min + r[1].extent);
    rshape q = from_shape(v.shape());
    if (bx0 >= bx1 || by0 >= by1 || r[2].extent <= 0) {
      if (!v.empty() || v.size() != 0) mc::fail("%s to [%ld,%ld)x[%ld,%ld) of %s is %s, expected an empty view", what, x0, x1, y0, y1, str(r).c_str(), str(q).c_str());
      for (auto& d : q) if (d.extent < 0) mc::fail("%s to [%ld,%ld)x[%ld,%ld) of %s has a negative extent: %s", what, x0, x1, y0, y1, str(r).c_str(), str(q).c_str());
      return;
    }
    rshape want = r; want[0].extent = bx1 - bx0; want[1].extent = by1 - by0; want[0].min = zero ? 0 : bx0; want[1].min = zero ? 0 : by0;
    // strides of dims of one element do not matter
    for (int d = 0; d < 3; d++) if (q[d].min != want[d].min || q[d].extent != want[d].extent || (q[d].stride != want[d].stride && want[d].extent > 1)) mc::fail("%s to [%ld,%ld)x[%ld,%ld) of %s is %s, expected %s", what, x0, x1, y0, y1, str(r).c_str(), str(q).c_str(), str(want).c_str());
    for (long y = by0; y < by1; y++) for (long x = bx0; x < bx1; x++) for (long k = r[2].min; k < r[2].min + r[2].extent; k++) {
      const int* p = &v(x - bx0 + want[0].min, y - by0 + want[1].min, k); const int* e = base + where(r, x, y, k);
      if (p != e) mc::fail("%s to [%ld,%ld)x[%ld,%ld) of %s: pixel (%ld,%ld,%ld) is %ld elements away from the original's", what, x0, x1, y0, y1, str(r).c_str(), x, y, k, (long)(p - e));
    }
  }
  static void check_slice_of(const nda::array_ref<int, S>& v, const rshape& r, const int* base) {
    for (long k = r[2].min; k < r[2].min + r[2].extent; k++) check_slice(nda::slice_channel(v, k), r, base, k, "slice_channel");
  }
  template <class V> static void check_slice(const V& v, const rshape& r, const int* base, long k, const char* what) {
    static_assert(V::rank() == 2, "a channel is two-dimensional");
    rshape q = from_shape(v.shape());
    for (int d = 0; d < 2; d++) if (q[d].min != r[d].min || q[d].extent != r[d].extent || (q[d].stride != r[d].stride && r[d].extent > 1)) mc::fail("%s(%ld) of %s is %s", what, k, str(r).c_str(), str(q).c_str());
    for (long y = r[1].min; y <= r[1].max(); y++) for (long x = r[0].min; x <= r[0].max(); x++) {
      const int* p = &v(x, y); const int* e = base + where(r, x, y, k);
      if (p != e) mc::fail("%s(%ld) of %s: pixel (%ld,%ld) is %ld elements away from the original's", what, k, str(r).c_str(), x, y, (long)(p - e));
    }
  }
  template <class A> static void all(A&& a, const rshape& r, const int* base, bool deep, ctx& c, const char* what) {
    long n = 0;
    const long xl = r[0].min - 2, xh = r[0].min + r[0].extent + 2, yl = r[1].min - 2, yh = r[1].min + r[1].extent + 2;
    for (long x0 = xl; x0 <= xh; x0++) for (long x1 = xl; x1 <= xh; x1++) for (long y0 = yl; y0 <= yh; y0++) for (long y1 = yl; y1 <= yh; y1++) {
      n++;
      check_crop(nda::crop(a, x0, y0, x1, y1), r, base, x0, y0, x1, y1, false, what);
      check_crop(nda::crop(a, x0, y0, x1, y1, crop_origin::crop), r, base, x0, y0, x1, y1, false, what);
      check_crop(nda::crop(a, x0, y0, x1, y1, crop_origin::zero), r, base, x0, y0, x1, y1, true, what);
    }
    for (long far : {1000000l, -1000000l}) for (long y0 : {yl, yl + 2}) {
      check_crop(nda::crop(a, -far, y0, far, yh), r, base, -far, y0, far, yh, false, what); check_crop(nda::crop(a, xl + 2, -far, xh, far, crop_origin::zero), r, base, xl + 2, -far, xh, far, true, what);
      check_crop(nda::crop(a, far, y0, far + 1, yh), r, base, far, y0, far + 1, yh, false, what); check_crop(nda::crop(a, xl, far - 5, xh, far + 5), r, base, xl, far - 5, xh, far + 5, false, what);
    }
    mc::count(0, "crops", n * 3);
    (void)deep; (void)c;
  }
  static void run(ctx& c) {
    const bool th = mc::thorough();
    alphabet a; rshape r;
    rd x, y, k;
    x.min = c.pick(std::vector<long>{0, -3, 4}); x.extent = c.pick(th ? std::vector<long>{0, 1, 2, 3, 5} : std::vector<long>{0, 1, 2, 3});
    y.min = c.pick(std::vector<long>{0, 2, -1}); y.extent = c.pick(th ? std::vector<long>{0, 1, 2, 3, 4} : std::vector<long>{0, 1, 3});
    using C = dim_of<S, 2>;
    k.min = C::Min != dynamic ? (long)C::Min : c.pick(std::vector<long>{0, 1, -2}); k.extent = C::Extent != dynamic ? (long)C::Extent : c.pick(std::vector<long>{0, 1, 3, 4});
    r = {x, y, k}; for (auto& d : r) d.stride = 0;
    int l = c.choose(11);
    if (!lay(r, l)) return c.discard();
    if (!c.mine()) return;
    for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    c.note("image %s", str(r).c_str());
    span sp = empty(r) ? span{0, 0} : flat_span(r);
    std::vector<int> mem(sp.extent() + 8);
    int* base = mem.data() + 4 - sp.lo;
    S s = to_shape<S>(r);
    view v(base, s); cview cv(base, s);
    static_assert(std::is_same<decltype(nda::crop(v, 0, 0, 1, 1)), view>::value, "a crop has the type of the image");
    static_assert(std::is_same<decltype(nda::crop(cv, 0, 0, 1, 1)), cview>::value, "a crop has the type of the image");
    all(v, r, base, true, c, "crop(view)");
    all(cv, r, base, true, c, "crop(const view)");
    check_slice_of(v, r, base);
    for (long q = r[2].min; q <= r[2].max(); q++) { auto sv = nda::slice_channel(cv, q); static_assert(std::is_same<typename decltype(sv)::value_type, const int>::value, ""); check_slice(sv, r, base, q, "slice_channel(const view)"); }
    // crops of crops, and channels of crops
    for (long x0 = r[0].min - 1; x0 <= r[0].max() + 1; x0++) for (long x1 = x0 - 1; x1 <= r[0].max() + 2; x1++) for (bool z : {false, true}) {
      auto m = nda::crop(v, x0, r[1].min, x1, r[1].max(), z ? crop_origin::zero : crop_origin::crop);
      if (m.empty()) continue;
      rshape q = from_shape(m.shape());
      long bx0 = std::max(x0, r[0].min);
      const int* b2 = base + (q.size() ? offset(r, {bx0, r[1].min, r[2].min}) : 0);
      check_slice_of(m, q, b2);
      for (long u0 = q[0].min - 1; u0 <= q[0].max() + 1; u0++) for (long u1 = u0; u1 <= q[0].max() + 2; u1++) for (long w0 = q[1].min; w0 <= q[1].max(); w0++)
        check_crop(nda::crop(m, u0, w0, u1, q[1].max() + 3, z ? crop_origin::crop : crop_origin::zero), q, b2, u0, w0, u1, q[1].max() + 3, !z, "crop(crop)");
    }
    {  // null images stay null
      view nv(nullptr, s); auto m = nda::crop(nv, r[0].min, r[1].min, r[0].min + 1, r[1].min + 1);
      if (!r[0].extent || !r[1].extent || r[2].extent) MC_CHECK(m.base() == nullptr, "crop of a null view is not null");
    }
    for (long x0 : {r[0].min - 2, r[0].min, r[0].min + 3}) for (long w : {0l, 2l, -1l}) for (bool z : {false, true}) {
      S sc = nda::crop_image_shape(s, x0, x0 + 1, x0 + w, x0 + 1 + w, z ? crop_origin::zero : crop_origin::crop);
      rshape q = from_shape(sc), e = r; e[0] = {z ? 0 : x0, w, r[0].stride}; e[1] = {z ? 0 : x0 + 1, w, r[1].stride};
      MC_CHECK(w < 0 || q == e, "crop_image_shape: %s, expected %s", str(q).c_str(), str(e).c_str());
    }
    if (l != 9) { owning<std::allocator<int>>(s, r, c); owning<nda::auto_allocator<int, 16>>(s, r, c); }
    if (!empty(r)) c.nontrivial();
  }
  template <class Alloc> static void owning(const S& s, const rshape& r, ctx& c) {  // owning images
    {
      nda::array<int, S, Alloc> o(s, 0); const auto& co = o;
      static_assert(std::is_same<decltype(nda::crop(o, 0, 0, 1, 1)), view>::value && std::is_same<decltype(nda::crop(co, 0, 0, 1, 1)), cview>::value, "crops of const images are read-only");
      const int* ob = &*o.base();
      all(o, r, ob, false, c, "crop(image)");
      all(co, r, ob, false, c, "crop(const image)");
      for (long q = r[2].min; q <= r[2].max(); q++) {
        auto s1 = nda::slice_channel(o, q); auto s2 = nda::slice_channel(co, q);
        static_assert(std::is_same<typename decltype(s1)::value_type, int>::value && std::is_same<typename decltype(s2)::value_type, const int>::value, "channels of const images are read-only");
        check_slice(s1, r, ob, q, "slice_channel(image)"); check_slice(s2, r, ob, q, "slice_channel(const image)");
      }
    }
  }
};
// images with one long side: crops at the corners of every interesting rectangle
template <class S> struct large_imgs {
  using B = imgs<S>;
  static std::string name() { return B::name(); }
  static void run(ctx& c) {
    rd x{c.pick(std::vector<long>{0, -7}), 0, 0}, y{3, 0, 0}, k;
    bool wide = c.flip();
    long n = c.pick(std::vector<long>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257}), m = c.pick(std::vector<long>{1, 3});
    x.extent = wide ? n : m; y.extent = wide ? m : n;
    using C = dim_of<S, 2>;
    k.min = C::Min != dynamic ? (long)C::Min : 0; k.extent = C::Extent != dynamic ? (long)C::Extent : c.pick(n > 17 ? std::vector<long>{1, 3} : std::vector<long>{1, 3, 17});
    rshape r = {x, y, k}; int l = c.choose(11);
    if (!B::lay(r, l)) return c.discard();
    if (!c.mine()) return;
    for (auto& d : r) { c.obs(d.min); c.obs(d.extent); c.obs(d.stride); }
    c.note("image %s", str(r).c_str()); c.nontrivial();
    span sp = flat_span(r); std::vector<int> mem(sp.extent() + 8); int* base = mem.data() + 4 - sp.lo;
    typename B::view v(base, to_shape<S>(r));
    auto cuts = [](const rd& d) { std::vector<long> q{d.min - 1, d.min, d.min + d.extent / 2, d.max() + 1, d.max() + 2}; std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); return q; };
    auto xs = cuts(r[0]), ys = cuts(r[1]);
    long crops = 0;
    for (long x0 : xs) for (long x1 : xs) for (long y0 : ys) for (long y1 : ys) for (bool z : {false, true}) {
      if (x0 > x1 && y0 > y1) continue;
      auto w = nda::crop(v, x0, y0, x1, y1, z ? crop_origin::zero : crop_origin::crop); crops++;
      B::check_crop(w, r, base, x0, y0, x1, y1, z, "crop(view)");
    }
    mc::count(0, "crops", crops);
    B::check_slice_of(v, r, base);
  }
};
using all_images = types<nda::image_shape, nda::planar_image_shape, nda::chunky_image_shape<>, nda::chunky_image_shape<1>, nda::chunky_image_shape<3>, nda::chunky_image_shape<4>, nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<dynamic, 4>, nda::chunky_image_shape<3, dynamic>, nda::shape<nda::dense_dim<>, nda::dim<>, nda::dim<0, 3>>, nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>>;
static register_all<imgs> reg("image", part<all_images>());
static register_all<large_imgs> reg_large("large image", part<all_images>());
