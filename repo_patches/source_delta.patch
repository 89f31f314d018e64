From debfa17f39ef929f9eabb10f507593912109b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/33] fix: call the caller's functions in place instead of
 moving from them

for_all_indices, for_each_index<LoopOrder...>, generate, transform_index,
transform_indices and the matrix and chunky image value loops moved from
functions passed as lvalues, leaving the caller's object moved-from and
losing any state it accumulated.
---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..7aec7b3 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1951,7 +1951,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&fn](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1959,14 +1959,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&fn](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&fn](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2916,7 +2916,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&g](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2931,7 +2931,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2945,7 +2945,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..7a97f13 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..1417403 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From 7b960b49399e7db88a791c2968524609b2532f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 02/33] fix: z-order traversal of an empty range calls nothing

The function was called with elements outside of the empty range.
---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..928a50e 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any dimension is empty, there are no points to visit.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 1a17362ff9637b41fd19671f282a62234a33f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 03/33] fix: make_move of an rvalue array moves it

`return src;` where src is an rvalue reference is a copy before C++20.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7aec7b3..36e4167 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2880,7 +2880,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return std::move(src);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 7886ce10a91c0551860e2c35fc378af5ab858ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 04/33] fix: make_copy of an array_ref with a shape is not
 ambiguous

The overload taking an allocator also accepted shapes.
---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 36e4167..deaae50 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2788,7 +2788,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 
 /** Make a copy of the `src` array or array_ref with a new allocator `alloc`. */
 template <class T, class ShapeSrc,
-    class Alloc = std::allocator<typename std::remove_const<T>::type>>
+    class Alloc = std::allocator<typename std::remove_const<T>::type>,
+    class = internal::enable_if_allocator<Alloc>>
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
-- 
2.43.0


From c43e400d39d9adc5fe482238bb5512a70b3cf3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 05/33] fix: move_reinterpret_shape checks the shape at the
 requested offset

The sign of the offset was the opposite of the one reinterpret_shape and
set_shape use, so valid offsets were reported as errors and invalid ones
were accepted.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index deaae50..396195e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3052,7 +3052,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
@@ -3066,7 +3066,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
-  result.base_ += offset;
+  result.base_ = internal::pointer_add(result.base_, offset);
 
   return result;
 }
-- 
2.43.0


From e2e64376641bf9efc98773031ee6146c7886efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 06/33] fix: a crop that does not intersect the image is empty

The extents of such a crop were negative, so a crop outside of the image in
both x and y had a positive size.
---
 include/array/image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 7a97f13..b645da9 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -154,8 +154,8 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
     index_t y1, crop_origin origin = crop_origin::crop) {
   x0 = internal::max(x0, im.x().min());
   y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  x1 = internal::max(x0, internal::min(x1, im.x().max() + 1));
+  y1 = internal::max(y0, internal::min(y1, im.y().max() + 1));
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 405c39a491cdbaa3fcc51754b6e04c7bb26273d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 07/33] fix: auto_allocator with a custom base allocator is
 comparable

Arrays using such an allocator could not be moved or swapped.
---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 396195e..cee626e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3164,8 +3164,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3173,8 +3174,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0


From af312ff3c7f0a80ebd03bc0e15b86e5b9c8cedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 08/33] fix: make_compact does not pad around constant dense
 dimensions

A dimension with a constant stride of one multiplied the constant stride given
to later dimensions a second time: shape<dense_dim<0, 4>, dim<0, 2>> became
strides {1, 16}. Negative constant strides could place dimensions with padding.
---
 include/array/array.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index cee626e..05411b3 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. A dimension that keeps its own
+  // stride does not use the current stride.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
@@ -1516,8 +1518,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
 template <class Dims, size_t... Is>
 NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is...>) {
   // Currently, the algorithm is:
-  // - If any dimension has a static stride greater than one, don't give any
-  //   static strides.
+  // - If any dimension has a static stride greater than one or negative, don't
+  //   give any static strides.
   // - If all dimensions are dynamic, use 1 as the next stride.
   // - If a dimension has static stride 1, use its Extent as the next stride.
   // This is very conservative, but the only thing I can figure out how to
@@ -1526,7 +1528,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne =
+      any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
+           (std::tuple_element<Is, Dims>::type::Stride > 1 ||
+               std::tuple_element<Is, Dims>::type::Stride < 0))...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0


From dfda2f9b1a08e8b8bb97fb5cbd24fc92ed0ff2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 09/33] fix: assigning a value to a moved-from array allocates

A moved-from array with a constant shape (or one whose allocation failed) has a
non-empty shape and no allocation, assign(shape, value) constructed into null.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 05411b3..adba5d7 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2531,7 +2531,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From 6b046768770a7a54048f65817d4404f0760362e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 10/33] fix: an array without an allocation has a null base

An empty shape with a negative stride gave a non-null base for a null buffer,
so such arrays released a null block, and were mistaken for non-empty arrays
when assigned.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index adba5d7..049e4e3 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2292,7 +2292,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From da6aa264f908ec646c00501f47d539893cb10d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 11/33] fix: assignment between arrays without allocations

Two arrays without an allocation were taken to be the same array. Assigning
one to the other did not propagate the allocator, and asserted if they had a
constant non-empty shape and were moved from, so swapping a moved-from array
could assert or lose the elements of the other array.
---
 include/array/array.h | 52 ++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 049e4e3..b34c44e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2405,9 +2405,7 @@ public:
         alloc_ == other.get_allocator()) {
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
-      move_construct(other);
+      assign(std::move(other));
     }
   }
 
@@ -2422,9 +2420,7 @@ public:
     if (alloc_ == other.get_allocator()) {
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
-      move_construct(other);
+      assign(std::move(other));
     }
   }
 
@@ -2439,15 +2435,7 @@ public:
    * is then reallocated if necessary, and each element in the array is copy
    * constructed from other. */
   array& operator=(const array& other) {
-    if (base_ == other.base_) {
-      if (base_) {
-        assert(shape_ == other.shape_);
-      } else {
-        shape_ = other.shape_;
-        assert(shape_.empty());
-      }
-      return *this;
-    }
+    if (this == &other) { return *this; }
 
     if (alloc_traits::propagate_on_container_copy_assignment::value) {
       if (alloc_ != other.get_allocator()) { deallocate(); }
@@ -2464,15 +2452,7 @@ public:
    * move-assigned from `other`. */
   array& operator=(array&& other) {
     using std::swap;
-    if (base_ == other.base_) {
-      if (base_) {
-        assert(shape_ == other.shape_);
-      } else {
-        swap(shape_, other.shape_);
-        assert(shape_.empty());
-      }
-      return *this;
-    }
+    if (this == &other) { return *this; }
 
     if (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) {
       swap(alloc_, other.alloc_);
@@ -2489,13 +2469,11 @@ public:
    * array is destroyed, reallocated if necessary, and then each element is
    * copy- or move-constructed from `other`. */
   void assign(const array& other) {
-    if (base_ == other.base_) {
-      if (base_) {
-        assert(shape_ == other.shape_);
-      } else {
-        shape_ = other.shape_;
-        assert(shape_.empty());
-      }
+    if (this == &other) { return; }
+    if (!other.base_) {
+      // `other` has no elements: it is empty, or it was moved from.
+      deallocate();
+      shape_ = other.shape_;
       return;
     }
     if (base_ && shape_ == other.shape_) {
@@ -2508,13 +2486,11 @@ public:
     copy_construct(other);
   }
   void assign(array&& other) {
-    if (base_ == other.base_) {
-      if (base_) {
-        assert(shape_ == other.shape_);
-      } else {
-        shape_ = other.shape_;
-        assert(shape_.empty());
-      }
+    if (this == &other) { return; }
+    if (!other.base_) {
+      // `other` has no elements: it is empty, or it was moved from.
+      deallocate();
+      shape_ = other.shape_;
       return;
     }
     if (base_ && shape_ == other.shape_) {
-- 
2.43.0


From 7b1723468aaeffb06d39848a42bb43223509b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 12/33] fix: reshape uses the allocator of the array

The new allocation came from a default constructed allocator, so reshaping
replaced a propagating allocator, or moved every element twice with one that
does not propagate.
---
 include/array/array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index b34c44e..959a172 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2611,7 +2611,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     Shape intersection =
@@ -2621,6 +2621,8 @@ public:
     copy_shape_traits_type::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
+    // Release the old allocation first, the allocator may be able to use it again.
+    deallocate();
     *this = std::move(new_array);
   }
 
-- 
2.43.0


From 5d4a618d0bcbc2589540246a0db58508e7175cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 13/33] fix: reshape to a shape that does not overlap, or with
 constant extents

The intersection of shapes that do not overlap had negative extents, which could
be taken for a positive number of elements, and the intersection of shapes with
a constant extent was converted to that extent, reading and writing out of
bounds.
---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 959a172..f700b32 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1556,7 +1556,8 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  // If the dimensions do not intersect, the result is empty.
+  index_t extent = internal::max<index_t>(0, max - min + 1);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
@@ -2614,11 +2615,11 @@ public:
     array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     // Release the old allocation first, the allocator may be able to use it again.
-- 
2.43.0


From 7af9cf11c3ab8dac4b3666472a9c18e521add032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 14/33] fix: shapes with unresolved strides are compatible with
 constant strides

is_compatible disagreed with the conversion, which gives an unresolved stride
the constant stride of the destination.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index f700b32..d2210bc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1540,7 +1540,7 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
 template <index_t Min, index_t Extent, index_t Stride, class DimSrc>
 NDARRAY_HOST_DEVICE bool is_dim_compatible(const dim<Min, Extent, Stride>&, const DimSrc& src) {
   return (is_dynamic(Min) || src.min() == Min) && (is_dynamic(Extent) || src.extent() == Extent) &&
-         (is_dynamic(Stride) || src.stride() == Stride);
+         (is_dynamic(Stride) || is_unresolved(src.stride()) || src.stride() == Stride);
 }
 
 template <class... DimsDst, class ShapeSrc, size_t... Is>
-- 
2.43.0


From 108fef1c503b15a2b3651ef76474f38e01500ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 15/33] fix: slices of a const array are const

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index d2210bc..2901768 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2546,11 +2546,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(const_pointer(base_), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(const_pointer(base_), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
-- 
2.43.0


From 1583156596457f1aa11e3a7f5753122f79250289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 16/33] fix: uninitialized_allocator forwards
 select_on_container_copy_construction

---
 include/array/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 2901768..12f1b1f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3180,9 +3180,12 @@ public:
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_move_assignment;
   using propagate_on_container_swap =
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_swap;
-  static uninitialized_allocator select_on_container_copy_construction(
-      const uninitialized_allocator& alloc) {
-    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(alloc);
+
+  uninitialized_allocator() = default;
+  uninitialized_allocator(const BaseAlloc& alloc) : BaseAlloc(alloc) {}
+
+  uninitialized_allocator select_on_container_copy_construction() const {
+    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(*this);
   }
 
   value_type* allocate(size_t n) { return std::allocator_traits<BaseAlloc>::allocate(*this, n); }
-- 
2.43.0


From f489fcc6e3253389a9a891b23b773eafab8e3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 17/33] fix: default alignment of uninitialized_auto_allocator
 is that of the type

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 12f1b1f..55ca45b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3222,7 +3222,7 @@ using uninitialized_std_allocator = uninitialized_allocator<std::allocator<T>>;
 
 /** Allocator equivalent to `auto_allocator<T, N, Alignment>` that
  * does not default construct values. */
-template <class T, size_t N, size_t Alignment = sizeof(T),
+template <class T, size_t N, size_t Alignment = alignof(T),
     class = std::enable_if_t<std::is_trivial<T>::value>>
 using uninitialized_auto_allocator = uninitialized_allocator<auto_allocator<T, N, Alignment>>;
 
-- 
2.43.0


From 6d283a2704a5448e553a5f22a7ddbe3295330ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 18/33] fix: is_explicitly_compatible of shapes of different
 ranks

---
 include/array/array.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 55ca45b..30f5343 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1549,6 +1549,22 @@ NDARRAY_HOST_DEVICE bool is_shape_compatible(
   return all(is_dim_compatible(DimsDst(), src.template dim<Is>())...);
 }
 
+// Check that the dimension `convert_dim<I>` makes is compatible with `DimDst`.
+template <size_t I, class DimDst, class... Us, std::enable_if_t<(I < sizeof...(Us)), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_convertible(const std::tuple<Us...>& u) {
+  return is_dim_compatible(DimDst(), std::get<I>(u));
+}
+template <size_t I, class DimDst, class... Us, std::enable_if_t<(I >= sizeof...(Us)), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_convertible(const std::tuple<Us...>&) {
+  return is_dynamic(DimDst::Extent) || DimDst::Extent == 1;
+}
+
+template <class... DimsDst, class DimsSrc, size_t... Is>
+NDARRAY_HOST_DEVICE bool is_shape_convertible(
+    const shape<DimsDst...>&, const DimsSrc& src, index_sequence<Is...>) {
+  return all(is_dim_convertible<Is, DimsDst>(src)...);
+}
+
 template <class DimA, class DimB>
 NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Min = static_max(DimA::Min, DimB::Min);
@@ -1679,7 +1695,9 @@ NDARRAY_HOST_DEVICE ShapeDst convert_shape(const ShapeSrc& src) {
 template <class ShapeDst, class ShapeSrc,
     class = internal::enable_if_shapes_explicitly_compatible<ShapeSrc, ShapeDst>>
 NDARRAY_HOST_DEVICE bool is_explicitly_compatible(const ShapeSrc& src) {
-  return internal::is_shape_compatible(ShapeDst(), src, typename ShapeSrc::dim_indices());
+  return internal::is_trivial_slice<ShapeDst::rank()>(
+             src.dims(), typename ShapeSrc::dim_indices()) &&
+         internal::is_shape_convertible(ShapeDst(), src.dims(), typename ShapeDst::dim_indices());
 }
 
 /** Iterate over all indices in the shape, calling a function `fn` for each set
-- 
2.43.0


From 6d5a610f45418f5382a15f5af30d0b055ded4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 19/33] fix: an empty shape is a subset of every shape

---
 include/array/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 30f5343..30a0f99 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1263,6 +1263,9 @@ public:
    * `offset`. */
   template <typename OtherShape>
   NDARRAY_HOST_DEVICE bool is_subset_of(const OtherShape& other, index_t offset) const {
+    // An empty shape projects to no flat indices.
+    if (empty()) return true;
+    if (other.empty()) return false;
     // TODO: https://github.com/dsharlet/array/issues/2
     return flat_min() >= other.flat_min() + offset && flat_max() <= other.flat_max() + offset;
   }
-- 
2.43.0


From 6f3486b9d263e4124948e511c31f31393b5fe152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 20/33] fix: move_reinterpret_shape resolves the strides of the
 new shape

---
 include/array/array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 30a0f99..0d4ffbc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3057,7 +3057,9 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), -offset));
+  NewShape resolved_shape = new_shape;
+  resolved_shape.resolve();
+  assert(resolved_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
@@ -3069,7 +3071,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.buffer_, from.buffer_);
   swap(result.buffer_size_, from.buffer_size_);
   swap(result.base_, from.base_);
-  result.shape_ = new_shape;
+  result.shape_ = resolved_shape;
   from.shape_ = OldShape();
   result.base_ = internal::pointer_add(result.base_, offset);
 
-- 
2.43.0


From 7a06a3e7f27d1692c460fd48db0ba6cdbf81d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 21/33] fix: move_reinterpret_shape leaves the source without
 an allocation

---
 include/array/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 0d4ffbc..ed59417 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3061,6 +3061,8 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   resolved_shape.resolve();
   assert(resolved_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
+  // If `NewShape` is not empty by default, neither is `result`.
+  result.deallocate();
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
     swap(result.alloc_, from.alloc_);
-- 
2.43.0


From b7735d8fed3ea83244a76a80cde2a9de7e3235d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 22/33] fix: assigning an ein operand to another of the same
 type

---
 include/array/ein_reduce.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..0c057c0 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -86,7 +86,11 @@ struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
     return op(std::get<Is>(i)...);
   }
 
-  // Only ein_op has assignment operators.
+  // Only ein_op has assignment operators. Without this overload, assigning an
+  // operand of the same type would be the implicit assignment operator.
+  ein_op(const ein_op&) = default;
+  ein_op(ein_op&&) = default;
+  auto operator=(const ein_op& r) const { return make_ein_op_assign(*this, r); }
   template <class T, class = enable_if_ein_op<T>>
   auto operator=(const T& r) const {
     return make_ein_op_assign(*this, r);
-- 
2.43.0


From 60d9b9572cce854b3808a1e5438fd014f3c82146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 23/33] fix: check the bounds of all dimensions of an ein
 operand with a repeated index

---
 include/array/ein_reduce.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 0c057c0..f807265 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -281,13 +281,24 @@ template <index_t NewStride, index_t Min, index_t Extent, index_t Stride>
 NDARRAY_INLINE auto with_stride(const dim<Min, Extent, Stride>& d) {
   return dim<Min, Extent, NewStride>(d.min(), d.extent());
 }
-template <index_t NewStride, class Dim>
-NDARRAY_INLINE auto with_stride(const std::tuple<Dim>& maybe_dim) {
-  return std::make_tuple(with_stride<NewStride>(std::get<0>(maybe_dim)));
+template <index_t NewStride, class... Dims, size_t... Is>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims, index_sequence<Is...>) {
+  return std::make_tuple(with_stride<NewStride>(std::get<Is>(dims))...);
 }
-template <index_t NewStride>
-NDARRAY_INLINE std::tuple<> with_stride(std::tuple<> maybe_dim) {
-  return maybe_dim;
+template <index_t NewStride, class... Dims>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims) {
+  return with_stride<NewStride>(dims, make_index_sequence<sizeof...(Dims)>());
+}
+
+// Get all of the elements of `t` for which the corresponding value of Is... is Dim, if `t` is not
+// empty.
+template <size_t Dim, size_t... Is, class T, size_t... Js>
+NDARRAY_INLINE auto get_all(const T& t, index_sequence<Js...>) {
+  return std::tuple_cat(get_or_empty<(Dim == Is ? Js : sizeof...(Is))>(t)...);
+}
+template <size_t Dim, size_t... Is, class T>
+NDARRAY_INLINE auto get_all(const T& t) {
+  return get_all<Dim, Is...>(t, make_index_sequence<sizeof...(Is)>());
 }
 
 // These types are flags that let us overload behavior based on these 3 options.
@@ -299,17 +310,17 @@ class is_operand_shape {};
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
   // If this is part of the result, we want to keep its strides.
-  return get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op));
+  return get_all<Dim, Is...>(dims_of(op.op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
   // For inferred shapes, we want shapes without any constexpr strides, so it can be reshaped.
-  return with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<dynamic>(get_all<Dim, Is...>(dims_of(op.op)));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_operand_shape, const ein_op<Dims, Is...>& op) {
   // If this is an operand shape, we want all of its dimensions to be stride 0.
-  return with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<0>(get_all<Dim, Is...>(dims_of(op.op)));
 }
 
 template <size_t Dim, class Kind, class Op, class X>
-- 
2.43.0


From 01178df9801ef87137023a8eb2aed9b4d2ad40ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 24/33] fix: functions that return a new array use the
 allocator they are given

make_copy, make_move, make_compact_copy, make_compact_move and make_ein_sum
return a local array. Unless the compiler elides the move, an allocator that
does not propagate on move assignment was replaced by a default constructed
one (and every element moved).
---
 include/array/array.h      | 20 +++++++++++++-------
 include/array/ein_reduce.h |  3 ++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index ed59417..663422b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2796,9 +2796,11 @@ template <class T, class ShapeSrc,
     class Alloc = std::allocator<typename std::remove_const<T>::type>,
     class = internal::enable_if_allocator<Alloc>>
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
-  array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
+  using result_type = array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc>;
+  result_type dst(src.shape(), alloc);
   copy(src, dst);
-  return dst;
+  // If `dst` were moved instead of elided, the result would not use `alloc`.
+  return result_type(std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_allocator<AllocDst>>
@@ -2812,9 +2814,11 @@ template <class T, class ShapeSrc, class ShapeDst,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
 auto make_copy(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
-  array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
+  using result_type = array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc>;
+  result_type dst(shape, alloc);
   copy(src, dst);
-  return dst;
+  // If `dst` were moved instead of elided, the result would not use `alloc`.
+  return result_type(std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class ShapeDst, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
@@ -2873,9 +2877,11 @@ template <class T, class ShapeSrc, class ShapeDst, class Alloc = std::allocator<
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
 auto make_move(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
-  array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
+  using result_type = array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc>;
+  result_type dst(shape, alloc);
   move(src, dst);
-  return dst;
+  // If `dst` were moved instead of elided, the result would not use `alloc`.
+  return result_type(std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class ShapeDst, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
@@ -2886,7 +2892,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return std::move(src);
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index f807265..19153ad 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -494,7 +494,8 @@ NDARRAY_INLINE auto make_ein_sum(
   auto result_shape = make_ein_reduce_shape<ResultIs...>(expr);
   auto result = make_array<T>(result_shape, init, alloc);
   ein_reduce(ein<ResultIs...>(result) += expr);
-  return result;
+  // If `result` were moved instead of elided, it would not use `alloc`.
+  return decltype(result)(std::move(result), alloc);
 }
 
 } // namespace nda
-- 
2.43.0


From 0a14ae8401806d1c5bdf2b4a10cee0de6c00fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 25/33] fix: make_compact of a shape with several dimensions of
 stride 1

The extent of a static dimension of stride 1 was used as the stride of other
dimensions, even if another dimension of stride 1 has a dynamic extent.
---
 include/array/array.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 663422b..54baf49 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1535,8 +1535,13 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
            (std::tuple_element<Is, Dims>::type::Stride > 1 ||
                std::tuple_element<Is, Dims>::type::Stride < 0))...);
+  // The extent of another dimension with stride 1 says nothing about this one.
+  constexpr bool AnyDynamicDense =
+      any((std::tuple_element<Is, Dims>::type::Stride == 1 &&
+           is_dynamic(std::tuple_element<Is, Dims>::type::Extent))...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
-  constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
+  constexpr index_t NextStride =
+      AnyStrideGreaterThanOne || AnyDynamicDense ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
 }
 
-- 
2.43.0


From bc7518b5562eebea7bc598c3c6ede50289817d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 26/33] fix: is_compact and is_one_to_one of a shape with a
 stride of 0

The indices that share a flat index because of a dimension with stride 0 were
counted as flat indices: a dimension with padding and one with stride 0 was
reported to be one-to-one, or compact.
---
 include/array/array.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 54baf49..da709f3 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -733,6 +733,14 @@ NDARRAY_HOST_DEVICE index_t flat_max(const Dims& dims, index_sequence<Is...>) {
              internal::max<index_t>(0, std::get<Is>(dims).stride())...);
 }
 
+// Computes the number of indices that map to each flat index because of dims
+// with stride 0.
+template <class Dims, size_t... Is>
+NDARRAY_HOST_DEVICE index_t broadcast_size(const Dims& dims, index_sequence<Is...>) {
+  return product(
+      (std::get<Is>(dims).stride() == 0 ? std::get<Is>(dims).extent() : index_t(1))...);
+}
+
 // Make dims with the interval of the first parameter and the stride
 // of the second parameter.
 template <index_t DimMin, index_t DimExtent, index_t DimStride>
@@ -1247,7 +1255,10 @@ public:
   /** Returns `true` if this shape is 'compact' in memory. A shape is compact
    * if there are no unaddressable flat indices between the first and last
    * addressable flat elements. */
-  NDARRAY_HOST_DEVICE bool is_compact() const { return flat_extent() <= size(); }
+  NDARRAY_HOST_DEVICE bool is_compact() const {
+    return flat_extent() * static_cast<size_type>(internal::broadcast_size(dims_, dim_indices())) <=
+           size();
+  }
 
   /** Returns `true` if this shape is an injective function mapping indices to
    * flat indices. If the dims overlap, or a dim has stride zero, multiple
@@ -1255,7 +1266,7 @@ public:
    * return `false`. */
   NDARRAY_HOST_DEVICE bool is_one_to_one() const {
     // TODO: https://github.com/dsharlet/array/issues/2
-    return flat_extent() >= size();
+    return internal::broadcast_size(dims_, dim_indices()) <= 1 && flat_extent() >= size();
   }
 
   /** Returns `true` if this shape projects to a set of flat indices that is a
-- 
2.43.0


From cb0c6e5a66b19ac918b289fd3166f2c0bbd7e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 27/33] fix: copy and move compile with g++ -O1

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index da709f3..e790006 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1428,12 +1428,12 @@ NDARRAY_INLINE NDARRAY_HOST_DEVICE void for_each_index_in_order(
 }
 
 template <typename TSrc, typename TDst>
-NDARRAY_INLINE NDARRAY_HOST_DEVICE void move_assign(TSrc& src, TDst& dst) {
+NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void move_assign(TSrc& src, TDst& dst) {
   dst = std::move(src);
 }
 
 template <typename TSrc, typename TDst>
-NDARRAY_INLINE NDARRAY_HOST_DEVICE void copy_assign(const TSrc& src, TDst& dst) {
+NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void copy_assign(const TSrc& src, TDst& dst) {
   dst = src;
 }
 
-- 
2.43.0


From cbda7846207fa0c561e1c6205172006e3c0908a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 28/33] fix: transpose accepts only permutations

enable_if_permutation compared the product of the dims plus two with a
factorial, which transpose<1, 1, 2, 2, 3> (and others) also satisfy.
---
 include/array/array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index e790006..b6aa852 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -989,13 +989,17 @@ NDARRAY_HOST_DEVICE bool is_trivial_slice(
   return all((Is < DstRank || std::get<Is>(src_dims).extent() == 1)...);
 }
 
-constexpr index_t factorial(index_t x) { return x == 1 ? 1 : x * factorial(x - 1); }
+// The number of times `I` appears in `Is...`.
+template <size_t I, size_t... Is>
+constexpr index_t count_of() {
+  return sum((I == Is ? 1 : 0)...);
+}
 
 // The errors that result from not satisfying this check are probably hell,
 // but it would be pretty tricky to check that all of [0, Rank) is in `Is...`
 template <size_t Rank, size_t... Is>
 using enable_if_permutation = std::enable_if_t<sizeof...(Is) == Rank && all(Is < Rank...) &&
-                                               product((Is + 2)...) == factorial(Rank + 1)>;
+                                               all(count_of<Is, Is...>() == 1 ...)>;
 
 template <class DimDst, class DimSrc>
 NDARRAY_HOST_DEVICE void assert_dim_compatible(size_t dim_index, const DimSrc& src) {
-- 
2.43.0


From b8e43e61ea2a1c8bd31963c61064af0ac9b00ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 29/33] fix: transform_index, transform_indices and crop accept
 arrays with any allocator

---
 include/array/array.h |  8 ++++----
 include/array/image.h | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index b6aa852..6d9e15c 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2965,8 +2965,8 @@ NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn
   for_each_index(
       dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_index(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_index(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_index(dst.ref(), fn);
 }
 
@@ -2979,8 +2979,8 @@ NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&&
   transform_index(
       dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_indices(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_indices(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_indices(dst.ref(), fn);
 }
 
diff --git a/include/array/image.h b/include/array/image.h
index b645da9..65628a8 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -164,14 +164,14 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
   }
   return array_ref<T, Shape>(base, cropped_shape);
 }
-template <class T, class Shape>
-array_ref<const T, Shape> crop(const array<T, Shape>& im, index_t x0, index_t y0, index_t x1,
-    index_t y1, crop_origin origin = crop_origin::crop) {
+template <class T, class Shape, class Alloc>
+array_ref<const T, Shape> crop(const array<T, Shape, Alloc>& im, index_t x0, index_t y0,
+    index_t x1, index_t y1, crop_origin origin = crop_origin::crop) {
   return crop(im.ref(), x0, y0, x1, y1, origin);
 }
-template <class T, class Shape>
-array_ref<T, Shape> crop(array<T, Shape>& im, index_t x0, index_t y0, index_t x1, index_t y1,
-    crop_origin origin = crop_origin::crop) {
+template <class T, class Shape, class Alloc>
+array_ref<T, Shape> crop(array<T, Shape, Alloc>& im, index_t x0, index_t y0, index_t x1,
+    index_t y1, crop_origin origin = crop_origin::crop) {
   return crop(im.ref(), x0, y0, x1, y1, origin);
 }
 
-- 
2.43.0


From b7f1f6d3958923570727bf2a8e5f3f363429238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 30/33] fix: for_each_value of a const array gives const
 references

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6d9e15c..d8f60f4 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2602,7 +2602,7 @@ public:
   }
   template <class Fn, class = internal::enable_if_callable<Fn, const_reference>>
   void for_each_value(Fn&& fn) const {
-    shape_traits_type::for_each_value(shape_, base_, fn);
+    shape_traits_type::for_each_value(shape_, base(), fn);
   }
 
   /** Pointer to the element at the min index of the shape. */
-- 
2.43.0


From ccfe2fed771cf92238a5a0500e6a03821b293e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 31/33] fix: index_iterator arithmetic accepts const iterators

---
 include/array/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index d8f60f4..0032e7a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -215,13 +215,13 @@ public:
     i_ -= r;
     return *this;
   }
-  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_iterator operator+(index_t r) {
+  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_iterator operator+(index_t r) const {
     return index_iterator(i_ + r);
   }
-  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_iterator operator-(index_t r) {
+  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_iterator operator-(index_t r) const {
     return index_iterator(i_ - r);
   }
-  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_t operator-(const index_iterator& r) {
+  NDARRAY_INLINE NDARRAY_HOST_DEVICE index_t operator-(const index_iterator& r) const {
     return i_ - r.i_;
   }
   NDARRAY_INLINE NDARRAY_HOST_DEVICE index_t operator[](index_t n) const { return i_ + n; }
-- 
2.43.0


From 5b50269e2e87040e1a86530e0f13a9bb7e7bd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 32/33] fix: reshape accepts arrays that were moved from

---
 include/array/array.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 0032e7a..abf38e5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2650,18 +2650,20 @@ public:
    * to the new array. */
   void reshape(Shape new_shape) {
     new_shape.resolve();
-    if (shape_ == new_shape) { return; }
+    if (base_ && shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
     array new_array(new_shape, alloc_);
 
-    // Move the common elements to the new array.
-    auto intersection =
-        internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
-    pointer intersection_base =
-        internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
-        shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
+    if (base_) {
+      // Move the common elements to the new array.
+      auto intersection =
+          internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
+      pointer intersection_base =
+          internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
+      copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
+          shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
+    }
 
     // Release the old allocation first, the allocator may be able to use it again.
     deallocate();
-- 
2.43.0


From c7de4f212733e63949c61c93b8cc075bf3160fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 33/33] fix: constants of intervals and dims have definitions
 before C++17

---
 include/array/array.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index abf38e5..9edb9d8 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -494,6 +494,20 @@ public:
   }
 };
 
+#if __cplusplus < 201703L
+// Before C++17, these constants need definitions if they are used by reference.
+template <index_t Min_, index_t Extent_>
+constexpr index_t interval<Min_, Extent_>::Min;
+template <index_t Min_, index_t Extent_>
+constexpr index_t interval<Min_, Extent_>::Extent;
+template <index_t Min_, index_t Extent_>
+constexpr index_t interval<Min_, Extent_>::Max;
+template <index_t Min_, index_t Extent_, index_t Stride_>
+constexpr index_t dim<Min_, Extent_, Stride_>::Stride;
+template <index_t Min_, index_t Extent_, index_t Stride_>
+constexpr index_t dim<Min_, Extent_, Stride_>::DefaultStride;
+#endif
+
 /** Alias of `dim` where the min is not specified at compile time. */
 template <index_t Extent, index_t Stride = dynamic>
 using fixed_dim = dim<dynamic, Extent, Stride>;
-- 
2.43.0

