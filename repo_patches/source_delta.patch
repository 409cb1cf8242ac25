From 3b5f88a0a2ff8561ec8da0ab92bc526d91b40878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:21 +0000
Subject: [PATCH 01/50] fix: keep appended value intact when it refers to an
 element of a full vector

---
 include/um2/stdlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..53ef894 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,9 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct before relocating, since an argument may refer to an element
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +377,9 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct before relocating, since an argument may refer to an element
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From 1cb827c3c6cc6d15f985326967b3361d1bb55e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:54 +0000
Subject: [PATCH 02/50] fix: allow empty strings to be assigned, compared and
 appended

---
 include/um2/stdlib/string.hpp      | 2 +-
 include/um2/stdlib/string_view.hpp | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..8a3f089 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -853,7 +853,7 @@ HOSTDEV inline auto
 String::append(char const * s, Int n) -> String &
 {
   ASSERT(s != nullptr);
-  ASSERT(n > 0);
+  ASSERT(n >= 0);
   Int const cap = capacity(); // not including null terminator
   Int sz = size();
   Int const remaining = cap - sz;
diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..c8836f1 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -228,7 +228,6 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
       _size(size)
 {
   ASSERT(s != nullptr);
-  ASSERT(size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
-- 
2.43.0


From ae8ff04e03253fcd7dbb0a7962b213b1ebe7749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:54 +0000
Subject: [PATCH 03/50] fix: size the conversion buffers for the largest
 floating point values

---
 include/um2/stdlib/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index 8a3f089..96511a7 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -673,7 +673,7 @@ inline String::String(int64_t t) noexcept
 template <>
 inline String::String(float t) noexcept
 {
-  char buf[32];
+  char buf[64];
   auto const d = static_cast<double>(t);
   int32_t const len = snprintf(nullptr, 0, "%f", d);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", d);
@@ -684,7 +684,7 @@ inline String::String(float t) noexcept
 template <>
 inline String::String(double t) noexcept
 {
-  char buf[32];
+  char buf[512];
   int32_t const len = snprintf(nullptr, 0, "%f", t);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", t);
   ASSERT(written == len);
-- 
2.43.0


From 900ed148bbe4caf9e628b6c75c7f5509993915a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:48 +0000
Subject: [PATCH 04/50] fix: accept a copy destination that ends where the
 source begins

---
 include/um2/stdlib/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/stdlib/algorithm/copy.hpp b/include/um2/stdlib/algorithm/copy.hpp
index c10ccd9..8248822 100644
--- a/include/um2/stdlib/algorithm/copy.hpp
+++ b/include/um2/stdlib/algorithm/copy.hpp
@@ -54,7 +54,7 @@ copy(InputIt first, InputIt last, OutputIt d_first) noexcept -> OutputIt
     // we can use memcpy.
     auto const n = static_cast<size_t>(last - first);
     ASSERT(!is_pointer_in_range(first, last, d_first));
-    ASSERT(!is_pointer_in_range(first, last, d_first + n));
+    ASSERT(!is_pointer_in_range(d_first, d_first + n, first));
     return static_cast<OutputIt>(memcpy(d_first, first, n * sizeof(InT))) + n;
   } else {
     return copyLoop(first, last, d_first);
-- 
2.43.0


From 05074cc0493af1390e000eb2d8d5f70417d8bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:26 +0000
Subject: [PATCH 05/50] fix: compute every column of a non-square matrix
 product

---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From 4152a0032e52b14794dbbef613d3eb1e77d38ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:26 +0000
Subject: [PATCH 06/50] fix: overwrite the output of matmul when built without
 BLAS

---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..38c92f1 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -475,6 +475,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
   ASSERT(c.rows() == a.rows());
   ASSERT(c.cols() == b.cols());
 
+  c.zero();
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
       for (Int k = 0; k < a.cols(); ++k) {
-- 
2.43.0


From 164f8835e0e0d49b644afcd054ccad535caf69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 07/50] fix: ignore slabs that contain a parallel ray's origin
 on their boundary when clipping to a box

An axis-parallel ray whose origin lies exactly on the plane of a box face
multiplied zero by infinity, and the resulting NaN discarded the entry
distance found so far. A box behind such a ray was reported as hit at
negative distances.
---
 include/um2/geometry/axis_aligned_box.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/um2/geometry/axis_aligned_box.hpp b/include/um2/geometry/axis_aligned_box.hpp
index fb21bc1..909a058 100644
--- a/include/um2/geometry/axis_aligned_box.hpp
+++ b/include/um2/geometry/axis_aligned_box.hpp
@@ -286,8 +286,8 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray) const noexcept -> Vec2<T>
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
@@ -303,8 +303,8 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray,
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
-- 
2.43.0


From 5929f4cb916f7cc26d16767a3969462c76afec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:47 +0000
Subject: [PATCH 08/50] fix: make the regular grid constructor from a box
 compile

It named the corner accessors without calling them.
---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..8f5d1d7 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.maxima() - box.minima())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From 5c7401994e2a40e5ae7988c72f7983f0bf8c9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:11 +0000
Subject: [PATCH 09/50] fix: find the cells of a regular grid for boxes and
 points far outside of it

The cell offset was converted to a 32-bit integer before being limited to
the grid, so a box reaching more than 2^31 cells away was reported as not
intersecting any cell.
---
 include/um2/mesh/regular_grid.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 8f5d1d7..46d4a26 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -368,9 +368,14 @@ RegularGrid<D, T>::getCellIndicesIntersecting(
   for (Int i = 0; i < D; ++i) {
     // Determine how many cells over the min and max are, then floor to get the
     // interger indices.
-    result[i] = static_cast<Int>(um2::floor((box.minima(i) - _minima[i]) / _spacing[i]));
-    result[i + D] =
-        static_cast<Int>(um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]));
+    // Clamp to one cell outside of the grid first, so that the conversion to integer
+    // cannot overflow.
+    T const lo = static_cast<T>(-1);
+    T const hi = static_cast<T>(_num_cells[i]);
+    result[i] = static_cast<Int>(
+        um2::clamp(um2::floor((box.minima(i) - _minima[i]) / _spacing[i]), lo, hi));
+    result[i + D] = static_cast<Int>(
+        um2::clamp(um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]), lo, hi));
     // If the result is invalid, set to -1 to indicate no intersection
     // If the min index is greater than the max index (_num_cell[i] - 1)
     // If the max index is less than the min index (0)
@@ -394,7 +399,12 @@ RegularGrid<D, T>::getCellIndexContaining(Point<D, T> const & point) const noexc
   Vec<D, Int> result;
   Int const zero = 0;
   for (Int i = 0; i < D; ++i) {
-    result[i] = static_cast<Int>(um2::floor((point[i] - _minima[i]) / _spacing[i]));
+    // Clamp to one cell outside of the grid first, so that the conversion to integer
+    // cannot overflow.
+    T const lo = static_cast<T>(-1);
+    T const hi = static_cast<T>(_num_cells[i]);
+    result[i] = static_cast<Int>(
+        um2::clamp(um2::floor((point[i] - _minima[i]) / _spacing[i]), lo, hi));
     // If the result is invalid, set to -1
     if (_num_cells[i] - 1 < result[i] || result[i] < 0) {
       result[i] = -1;
-- 
2.43.0


From df16ccf6da206c6477963d0075faa0da08dec7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:23 +0000
Subject: [PATCH 10/50] fix: report quadratic segment ray crossings nearest
 first

The crossings were stored in order of the segment parameter, although the
interface promises them sorted along the ray.
---
 include/um2/geometry/quadratic_segment.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..846911e 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -697,6 +697,12 @@ QuadraticSegment<D, T>::intersect(Ray2<T> const ray,
       }
     }
   }
+  // The roots are ordered along the segment, not along the ray.
+  if (hits == 2 && buffer[1] < buffer[0]) {
+    T const r = buffer[0];
+    buffer[0] = buffer[1];
+    buffer[1] = r;
+  }
   return hits;
 }
 
-- 
2.43.0


From 9778ebb793ab36640add0acb33c425bdc5936cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:04 +0000
Subject: [PATCH 11/50] fix: length of quadratic segments with nearly parallel
 coefficients

The argument of the logarithm could round to zero or less, giving NaN.
---
 include/um2/geometry/quadratic_segment.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 846911e..01db6bd 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -353,8 +353,13 @@ QuadraticSegment<D, T>::length() const noexcept -> T
   T const sabc = um2::sqrt(a + b + c);
   T const disc = quadraticDiscriminant(a, b, c);
   T const a2b = 2 * a + b;
-  T const num = disc * um2::log((2 * sa * sc + b) / (2 * sa * sabc + a2b)) +
-                sa * (2 * (a2b * sabc - b * sc));
+  // As A and B become parallel the arguments of the logarithm may round to zero or less.
+  // The discriminant vanishes faster than the logarithm diverges.
+  T const log_num = 2 * sa * sc + b;
+  T const log_den = 2 * sa * sabc + a2b;
+  T const log_term =
+      (0 < log_num && 0 < log_den) ? disc * um2::log(log_num / log_den) : castIfNot<T>(0);
+  T const num = log_term + sa * (2 * (a2b * sabc - b * sc));
   T const den = 8 * sa * sa * sa;
   T const result = num / den;
   ASSERT(0 <= result);
-- 
2.43.0


From eac7a655d2f60c65314b73b57e47d54738ca3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:04 +0000
Subject: [PATCH 12/50] fix: closest point on a straight quadratic segment with
 an off-centre middle node

The fraction of the chord was returned as if it were the segment parameter.
---
 include/um2/geometry/quadratic_segment.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 01db6bd..c9a2051 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -418,7 +418,18 @@ QuadraticSegment<D, T>::pointClosestTo(Point<D, T> const & p) const noexcept ->
 {
 
   if (isStraight(*this)) {
-    return LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
+    // Let t be the fraction of the chord at the closest point, and m that of _v[2].
+    // Q(r) is at the fraction (4m - 1)r + (2 - 4m)r² of the chord.
+    T const t = LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
+    if (t <= 0) {
+      return 0;
+    }
+    auto const v01 = _v[1] - _v[0];
+    T const m = v01.dot(_v[2] - _v[0]) / v01.squaredNorm();
+    T const lb = 4 * m - 1;
+    T const la = 2 - 4 * m;
+    T const disc = um2::max(lb * lb + 4 * la * t, castIfNot<T>(0));
+    return um2::min(2 * t / (lb + um2::sqrt(disc)), castIfNot<T>(1));
   }
 
   // The interpolation function of the quadratic segment is
-- 
2.43.0


From 3371aef191d6a039525ca7b1b560628d93c1ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:04 +0000
Subject: [PATCH 13/50] fix: do not abort in QuadraticSegment::isLeft for
 points on the chord

The rotation may leave such a point slightly below the axis.
---
 include/um2/geometry/quadratic_segment.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index c9a2051..eedd642 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -588,8 +588,9 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
     p_r[1] = -p_r[1];
   }
   ASSERT(q[2][1] >= 0);
-  // The point must be above the origin if it was in the bounding triangle.
-  ASSERT(p_r[1] >= 0);
+  // The point must be above the origin if it was in the bounding triangle, up to the
+  // rounding of the rotation.
+  p_r[1] = um2::max(p_r[1], castIfNot<T>(0));
 
   // Now, since we may have flipped the y-coordinates, we will always need to
   // account for this when we return the result.
-- 
2.43.0


From 777bed8660b923b0ec6969fbd9a563c889995cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:52 +0000
Subject: [PATCH 14/50] fix: flip all middle nodes of a quadratic quadrilateral

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
-- 
2.43.0


From ea68b7fd8214042fe5a535b8403716e11da14475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:52 +0000
Subject: [PATCH 15/50] fix: side of points on the chord of a quadratic segment

Two differently rounded tests against the chord could both fail, so that a
point between the segment and its chord was reported on the wrong side.
---
 include/um2/geometry/quadratic_segment.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index eedd642..1dc2b01 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -553,19 +553,25 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
     return areCCW(_v[0], _v[1], p);
   }
 
+  // A point on the side of the chord that the segment does not bulge towards is decided
+  // by the chord. Only the one test against the chord is used, so that the rounding of
+  // points on the chord is consistent.
+  bool const left_of_chord = areCCW(_v[0], _v[1], p);
+  bool const bulges_right = curvesLeft();
+  if (left_of_chord == bulges_right) {
+    return left_of_chord;
+  }
+
   // The quadratic segment has an equivalent quadratic Bezier curve.
   // The triangle formed by the control points of the quadratic Bezier curve
   // bound the curve. If p is not in this triangle we can ignore the curvature of the
   // segment and return simply based upon areCCW(v[0], v[1], p).
   Vec2<T> const bcp = getBezierControlPoint(*this);
-  Triangle2<T> tri(_v[0], _v[1], bcp);
-  // precondition for tri.contains(p) is that tri.isCCW()
-  if (!tri.isCCW()) {
-    tri.flip();
-  }
-  ASSERT(tri.isCCW());
-  if (!tri.contains(p)) {
-    return areCCW(_v[0], _v[1], p);
+  bool const in_triangle = bulges_right
+                               ? areCCW(_v[0], bcp, p) && areCCW(bcp, _v[1], p)
+                               : areCCW(_v[1], bcp, p) && areCCW(bcp, _v[0], p);
+  if (!in_triangle) {
+    return left_of_chord;
   }
 
   // The point is in the bounding triangle, so we must perform further analysis.
-- 
2.43.0


From 47e40d597e6173b81bf60ef96de40d684a51f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:20 +0000
Subject: [PATCH 16/50] fix: flip every middle node of a quadratic
 quadrilateral mesh face

Reversing a clockwise 8-node face swapped the middle nodes of two edges only,
so the other two edges of the flipped face got each other's middle node.
---
 include/um2/mesh/face_vertex_mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From ac9ba553455e8368476425af3ed7c8abe79b0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:20 +0000
Subject: [PATCH 17/50] fix: keep copying vertices after the non-planar warning

Building a face-vertex mesh from a soup with differing z coordinates stopped
copying at the first such vertex and left the remaining vertices at zero.
---
 src/mesh/face_vertex_mesh.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..bcab937 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -71,15 +71,16 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
   // Ensure each of the vertices has approximately the same z
   _v.resize(num_vertices);
   Float const z = soup.getVertex(0)[2];
+  bool planar = true;
   for (Int i = 0; i < num_vertices; ++i) {
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
-    if (um2::abs(p[2] - z) > epsDistance<Float>()) {
-      LOG_WARN(
-          "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
-      break;
-    }
+    planar = planar && um2::abs(p[2] - z) <= epsDistance<Float>();
+  }
+  if (!planar) {
+    LOG_WARN(
+        "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
   }
 
   // -- Face/Vertex connectivity --
-- 
2.43.0


From 4e77a1be6bc49027479f60ae854dfa849f14e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:20 +0000
Subject: [PATCH 18/50] fix: report a face given twice as overlapping

A directed edge used by two faces was only reported when its total count
exceeded two, so a duplicated face aborted on an empty boundary or passed.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index bcab937..20e8249 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -374,7 +374,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From 95f35d17f2c0b94d10e78ab15e3057d0848f145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:07 +0000
Subject: [PATCH 19/50] fix: morton sort meshes that do not start at the origin

Points were scaled by the extents of the mesh but not shifted by its lower
corner, so any mesh away from the origin left the unit square and aborted.
---
 src/mesh/face_vertex_mesh.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 20e8249..079f855 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -129,11 +129,14 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   for (Int i = 0; i < num_faces; ++i) {
     centroids[i] = getFace(i).centroid();
   }
-  // We need to scale the centroids to the unit cube before we can apply
+  // We need to shift and scale the centroids to the unit cube before we can apply
   // the morton encoding. Therefore we need to find the bounding box of
   // all faces.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  for (auto & centroid : centroids) {
+    centroid -= aabb.minima();
+  }
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
@@ -151,10 +154,14 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   // Invalidate vertex-face connectivity
   _has_vf = false;
 
-  // We need to scale the vertices to the unit cube before we can apply
+  // We need to shift and scale the vertices to the unit cube before we can apply
   // the morton encoding.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  Vector<Point2F> shifted(_v);
+  for (auto & vertex : shifted) {
+    vertex -= aabb.minima();
+  }
 
   // Get the permutation vector which sorts the vertices according to the morton
   // encoding. We also need the inverse permutation to ensure that the face-vertex
@@ -162,7 +169,7 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  mortonSortPermutation(shifted.cbegin(), shifted.cend(), perm.begin(), inv_scale);
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From ce02b930b7854ebf9193560304f23f53cadfb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:47 +0000
Subject: [PATCH 20/50] fix: order faces along a ray that starts inside the
 mesh

The sort key is the mean of a face's two smallest crossing distances, but it
ignored the second one when the first listed crossing was the nearest.
The face holding the ray's start could then be listed after its neighbour.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 079f855..08ab37f 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -572,7 +572,7 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
       if (r < r0) {
         r1 = r0;
         r0 = r;
-      } else if (r < r1) {
+      } else if (r < r1 || i == offset + 1) {
         r1 = r;
       }
     }
-- 
2.43.0


From 0d804773f6a04b093f1c51f06bb74d6e7d1246b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:38 +0000
Subject: [PATCH 21/50] fix: keep middle nodes inside the unit square when
 morton sorting

The bounding box of a curved face can miss its own middle nodes by a rounding
error, which left them outside of the range accepted by the morton encoding.
---
 src/mesh/face_vertex_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 08ab37f..ff1cc1a 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -161,6 +161,9 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Vector<Point2F> shifted(_v);
   for (auto & vertex : shifted) {
     vertex -= aabb.minima();
+    // Middle nodes may lie outside of the box by a rounding error.
+    vertex.max(Point2F::zero());
+    vertex.min(aabb.extents());
   }
 
   // Get the permutation vector which sorts the vertices according to the morton
-- 
2.43.0


From 3865fee9f71c159c3cba43f50005e31b0ce9780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 22/50] fix: getElset leaves stale data for element sets
 without data

The caller's data vector kept its previous content when the requested
set carries no data.
---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From cd1ff1d7f0addce447ec1d24d8a41afa221d7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 23/50] fix: sortElsets writes out of bounds when there are no
 element sets

---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..0dddb35 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -202,6 +202,9 @@ PolytopeSoup::sortElsets()
   // Create a vector that stores the name and index of each elset.
   using NameIndexPair = um2::Pair<String, Int>;
   Int const num_elsets = _elset_names.size();
+  if (num_elsets == 0) {
+    return;
+  }
   Vector<NameIndexPair> elset_name_index_pairs(num_elsets);
   for (Int i = 0; i < num_elsets; ++i) {
     elset_name_index_pairs[i] = NameIndexPair(_elset_names[i], i);
-- 
2.43.0


From 114a5a05522f811c1cc9515b5ac7b9f1a518ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 24/50] fix: appending a soup to itself reads outside its
 vectors

---
 src/mesh/polytope_soup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 0dddb35..891fcdf 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -256,6 +256,12 @@ auto
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 {
+  // Appending to itself would read from the vectors being resized
+  if (this == &other) {
+    PolytopeSoup const copy(other);
+    return *this += copy;
+  }
+
   // Vertices
   auto const this_num_verts = numVertices();
   auto const other_num_verts = other.numVertices();
-- 
2.43.0


From 75a6d2ccec343cf8f9135006b5acb06882562ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 25/50] fix: appending a soup without elements reads a missing
 offset

---
 src/mesh/polytope_soup.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 891fcdf..edbde69 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -277,10 +277,13 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
             _element_types.begin() + this_num_elems);
 
   // Element offsets
-  Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  // If other has no elements, then it may not have any offsets either
+  if (other_num_elems > 0) {
+    Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From be7e962066f7468ebee2f8becf9ae493d4c7f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 26/50] fix: XDMF files of quadratic edges cannot be read back

The writer emits the topology type Edge_3, which the reader rejected.
---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index edbde69..58e4977 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1652,6 +1652,8 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       elem_type = VTKElemType::Triangle;
     } else if (topology_type == "Quadrilateral") {
       elem_type = VTKElemType::Quad;
+    } else if (topology_type == "Edge_3") {
+      elem_type = VTKElemType::QuadraticEdge;
     } else if (topology_type == "Triangle_6") {
       elem_type = VTKElemType::QuadraticTriangle;
     } else if (topology_type == "Quadrilateral_8") {
-- 
2.43.0


From 2873d53ea4a6bda309fa32ecc416da973bcea8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:58 +0000
Subject: [PATCH 27/50] fix: Abaqus sections end at the first comment inside
 them

Lines starting with ** are comments. One inside a node, element or element
set section silently dropped the rest of the section.
---
 src/mesh/polytope_soup.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 58e4977..b42281c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -633,7 +633,11 @@ abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
 {
   // line starts with "*NODE"
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    // Skip comments
+    if (line[0] == '*') {
+      continue;
+    }
     StringView line_view(line);
     // Format: node_id, x, y, z
     // Skip ID
@@ -710,7 +714,11 @@ abaqusParseElements(PolytopeSoup & soup, std::ifstream & file, char * const line
   Int const verts_per_elem = verticesPerElem(this_type);
   Vector<Int> conn(verticesPerElem(this_type));
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    // Skip comments
+    if (line[0] == '*') {
+      continue;
+    }
     StringView line_view(line);
     // For each element, read the element ID and the node IDs
     // Format: id, n1, n2, n3, n4, n5 ...
@@ -746,7 +754,11 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
   String const elset_name(info_line_view.substr(13, info_line_view.size() - 13));
   Vector<Int> elset_ids;
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (file.getline(line, smax_line_length) && (line[0] != '*' || line[1] == '*')) {
+    // Skip comments
+    if (line[0] == '*') {
+      continue;
+    }
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-- 
2.43.0


From 8fbeff86001b7acd287167907e531069369e501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:36 +0000
Subject: [PATCH 28/50] fix: a refused rectangular pin mesh leaves an empty
 mesh behind

---
 src/mpact/model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..4a4fa96 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -718,8 +718,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
 
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
@@ -730,6 +728,9 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     return -1;
   }
 
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
+
   // Make the vertices
   auto & vertices = mesh.vertices();
   vertices.resize((nx_faces + 1) * (ny_faces + 1));
-- 
2.43.0


From 549dbea94aa6c267d50dbcfb989ee9dd059b1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:36 +0000
Subject: [PATCH 29/50] fix: a refused cylindrical pin cell alters the model

The mesh was added before the materials were checked, and a cell was
added without a mesh when the mesh itself had been refused.
---
 src/mpact/model.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 4a4fa96..80ccdc9 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -658,10 +658,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -685,6 +681,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id < 0) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
-- 
2.43.0


From 786c4d59716756e0477a5337c9a4bafea2926b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:26 +0000
Subject: [PATCH 30/50] fix: writing a model with an unused material fails

The total volume was computed as the sum of an empty list.
---
 src/mpact/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 80ccdc9..40b8785 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2150,6 +2150,9 @@ writeMaterialVolumes(String const & filename, Model const & model)
   for (Int imat = 0; imat < nmats; ++imat) {
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
+    if (volumes[imat].empty()) {
+      continue; // The material is not used
+    }
     std::sort(volumes[imat].begin(), volumes[imat].end());
     total_volumes[imat] = um2::sum(volumes[imat].cbegin(), volumes[imat].cend());
   }
-- 
2.43.0


From fa93f796f2f143e2edeef477f412e52496952bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:36 +0000
Subject: [PATCH 31/50] fix: reading a model records the assembly id for each
 new lattice

Models with lattice numbers differing from their assembly's number were
restored with the wrong lattices or could not be read.
---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 40b8785..7fee412 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2603,7 +2603,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From d1e71a7de9c54377c3f064a3968071aeb5d1a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:36 +0000
Subject: [PATCH 32/50] fix: saved models round the axial positions to six
 decimals

---
 src/mpact/model.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 7fee412..b43c26d 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -38,9 +38,11 @@
 #endif
 
 #include <algorithm>
+#include <cstdio>
 #include <cstring>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <numeric>
 #include <string>
 
@@ -1529,6 +1531,16 @@ Model::operator PolytopeSoup() const noexcept
 namespace
 {
 
+// String(Float) keeps 6 decimals only, which alters the value on read
+auto
+toExactString(Float const x) -> String
+{
+  char buf[64];
+  snprintf(buf, sizeof(buf), "%.*g", std::numeric_limits<Float>::max_digits10,
+           static_cast<double>(x));
+  return String(buf);
+}
+
 void
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 writeXDMFFile(String const & filepath, Model const & model,
@@ -1843,7 +1855,8 @@ writeXDMFFile(String const & filepath, Model const & model,
         pugi::xml_node xlat_info = xlat_grid.append_child("Information");
         xlat_info.append_attribute("Name") = "Z";
         String const lat_z_str =
-            String(low_z) + ", " + String(lat_z) + ", " + String(high_z);
+            toExactString(low_z) + ", " + toExactString(lat_z) + ", " +
+            toExactString(high_z);
         xlat_info.append_child(pugi::node_pcdata).set_value(lat_z_str.data());
 
         // Get the lattice
-- 
2.43.0


From 5ddefd47f018e9d2ca9994757b139547fd853933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:49 +0000
Subject: [PATCH 33/50] fix: clearing a fissile nuclide leaves it marked
 fissile

---
 src/physics/nuclide.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index f6fcc11..1738706 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -22,6 +22,7 @@ namespace um2
 void
 Nuclide::clear() noexcept
 {
+  _is_fissile = false;
   _zaid = 0;
   _mass = 0;
   _temperatures.clear();
-- 
2.43.0


From 6e46e6c7ee7070fdc4150ad4c450ca091e044b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:49 +0000
Subject: [PATCH 34/50] fix: interpolated cross sections with fission are not
 always marked fissile

---
 src/physics/nuclide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index 1738706..43fa40c 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -105,7 +105,7 @@ Nuclide::interpXS(Float const temperature) const noexcept -> XSec
   XSec xs(xs0.numGroups());
   ASSERT(xs1.numGroups() == ng);
   xs.isMacro() = xs0.isMacro();
-  xs.isFissile() = xs0.isFissile();
+  xs.isFissile() = xs0.isFissile() || xs1.isFissile();
 
   // Interpolate the cross sections
   // TODO(kcvaughn): This should be handled with arithmetic operators on the XSec
-- 
2.43.0


From 4ce2ba1d045a95be29a2fdc0eef717f015c7987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:49 +0000
Subject: [PATCH 35/50] fix: validating a cross section of the wrong size reads
 past its end

---
 src/physics/cross_section.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/physics/cross_section.cpp b/src/physics/cross_section.cpp
index c39436b..1c29363 100644
--- a/src/physics/cross_section.cpp
+++ b/src/physics/cross_section.cpp
@@ -20,30 +20,37 @@ XSec::validate() const noexcept
 {
   if (_num_groups <= 0) {
     LOG_ERROR("Cross section has a non-positive number of groups");
+    return;
   }
 
   if (_a.size() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect number of absorption values");
+    return;
   }
 
   if (_f.size() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect number of fission values");
+    return;
   }
 
   if (_nuf.size() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect number of nu*fission values");
+    return;
   }
 
   if (_tr.size() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect number of transport values");
+    return;
   }
 
   if (_s.size() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect number of scattering values");
+    return;
   }
 
   if (_ss.rows() != _num_groups || _ss.cols() != _num_groups) {
     LOG_ERROR("Cross section has an incorrect scattering matrix size");
+    return;
   }
 
   if (isMacro()) {
-- 
2.43.0


From 37050029f67ea86a3d05386caaa7db4015f0b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:49 +0000
Subject: [PATCH 36/50] fix: a refused nuclide is still added to the material

---
 src/physics/material.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index bf8c24a..b363576 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -368,14 +368,17 @@ Material::addNuclide(Int zaid, Float num_density) noexcept
 {
   if (zaid <= 0) {
     LOG_ERROR("Invalid ZAID");
+    return;
   }
   if (num_density <= 0) {
     LOG_ERROR("Invalid number density");
+    return;
   }
   // Check if the nuclide is already in the list
   for (auto const & z : _zaid) {
     if (z == zaid) {
       LOG_ERROR("Nuclide already exists in material");
+      return;
     }
   }
   _zaid.emplace_back(zaid);
-- 
2.43.0


From 57ce052d13103279992657e47396ec31ea99a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:49 +0000
Subject: [PATCH 37/50] fix: atom fractions with an unknown mass give wrong
 densities

---
 src/physics/material.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index b363576..8176b69 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -450,6 +450,7 @@ Material::addNuclidesAtomPercent(Vector<String> const & symbols,
     }
     if (!found) {
       LOG_ERROR("Atomic mass not found for ZAID: ", zaid);
+      return;
     }
   }
   for (Int i = 0; i < symbols.size(); ++i) {
-- 
2.43.0


From c1f3e132748f45496174f273cd6de2bfc7d394ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:49 +0000
Subject: [PATCH 38/50] fix: library values after a line with trailing spaces
 are misread

---
 src/physics/cross_section_library.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..b5ea31b 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -118,17 +118,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(token.data(), &end);
@@ -158,17 +151,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(token.data(), &end);
-- 
2.43.0


From 2980aeea7d1bbf1462d5300ff41ba0fdc32ccdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:12 +0000
Subject: [PATCH 39/50] fix: crash at shutdown after extending a group and then
 fragmenting

Removing all physical groups at once after single groups were removed frees
them twice when the model is destroyed. Extending a group removes it and adds
it again, so a later fragment, intersection or cut hit this. Remove the groups
by name of their dimension and tag instead.
---
 src/gmsh/model.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..06b7e98 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -451,7 +451,9 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   size_t const ntool = tool_dimtags.size();
 
   LOG_INFO("Fragmenting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  if (!pre_dimtags.empty()) {
+    gmsh::model::removePhysicalGroups(pre_dimtags);
+  }
 
   gmsh::model::occ::fragment(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map,
                              tag, remove_object, remove_tool);
@@ -540,7 +542,9 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   size_t const nobject = object_dimtags.size();
   size_t const ntool = tool_dimtags.size();
   LOG_INFO("Intersecting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  if (!pre_dimtags.empty()) {
+    gmsh::model::removePhysicalGroups(pre_dimtags);
+  }
   gmsh::model::occ::intersect(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map,
                               tag, remove_object, remove_tool);
   gmsh::model::occ::synchronize();
@@ -622,7 +626,9 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   size_t const nobject = object_dimtags.size();
   size_t const ntool = tool_dimtags.size();
   LOG_INFO("Cutting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  if (!pre_dimtags.empty()) {
+    gmsh::model::removePhysicalGroups(pre_dimtags);
+  }
   gmsh::model::occ::cut(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map, tag,
                         remove_object, remove_tool);
   gmsh::model::occ::synchronize();
-- 
2.43.0


From 14cc074a215bf0933ef21c032134ca697aa17e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:36 +0000
Subject: [PATCH 40/50] fix: colouring materials of a model without groups read
 past its end

When nothing with a group survives an intersection, there is no last group to
take the dimension from.
---
 src/gmsh/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 06b7e98..a24b8c2 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -130,6 +130,9 @@ colorMaterialPhysicalGroupEntities(std::vector<Material> const & materials)
   std::vector<int> ptags(num_materials, -1);
   gmsh::vectorpair dimtags;
   gmsh::model::getPhysicalGroups(dimtags);
+  if (dimtags.empty()) {
+    return;
+  }
   // We only care about the highest dimension physical groups.
   int const dim_max = dimtags.back().first;
   for (auto const & dimtag : dimtags) {
-- 
2.43.0


From 93c4df819219daf3e24bb2198256b992a7d07b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:27 +0000
Subject: [PATCH 41/50] fix: entities kept by a boolean operation lost their
 groups

When asked not to remove the object or tool of a fragment, intersection or cut,
the kept entities stayed in the model without the groups they had.
---
 src/gmsh/model.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index a24b8c2..f8b198b 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -280,7 +280,8 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
                      gmsh::vectorpair const & tool_dimtags, size_t const num_groups,
                      std::vector<std::vector<int>> const & pre_physical_group_ent_tags,
                      std::vector<gmsh::vectorpair> const & out_dimtags_map,
-                     std::vector<std::vector<int>> & post_physical_group_ent_tags)
+                     std::vector<std::vector<int>> & post_physical_group_ent_tags,
+                     bool const remove_object, bool const remove_tool)
 {
   // For each physical group,
   //   For each entity in the group,
@@ -311,12 +312,14 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
     size_t idx = 0;
     for (int const etag : tags) {
       bool found = false;
+      bool removed = false;
       while (object_idx < nobject && object_tags[object_idx] < etag) {
         ++object_idx;
       }
       if (object_idx < nobject && object_tags[object_idx] == etag) {
         idx = object_idx;
         found = true;
+        removed = remove_object;
       }
       if (!found) {
         while (tool_idx < ntool && tool_tags[tool_idx] < etag) {
@@ -325,6 +328,7 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
         if (tool_idx < ntool && tool_tags[tool_idx] == etag) {
           idx = tool_idx + nobject;
           found = true;
+          removed = remove_tool;
         }
       }
       if (found) {
@@ -338,9 +342,10 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
             new_tags.insert(child_it, child.second);
           }
         }
-      } else {
-        // The entity is not in the object or tool, so add the entity to the
-        // new physical group.
+      }
+      if (!removed) {
+        // The entity is not in the object or tool, or it was kept, so add the
+        // entity to the new physical group.
         auto const child_it = std::lower_bound(new_tags.begin(), new_tags.end(), etag);
         if (child_it == new_tags.end() || *child_it != etag) {
           new_tags.insert(child_it, etag);
@@ -469,7 +474,7 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Process the material hierarchy
@@ -559,7 +564,7 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Process the material hierarchy
@@ -643,7 +648,7 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Create the new physical groups
-- 
2.43.0


From aabc9a85a334babfc6573eadd5bdd0d85991d441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:01 +0000
Subject: [PATCH 42/50] fix: a rejected fragment, intersection or cut destroyed
 all groups

After reporting bad arguments without stopping the program, the operation went
on to remove the groups and to call the kernel with the bad arguments.
---
 src/gmsh/model.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index f8b198b..d976559 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -442,6 +442,9 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Fragment the object and tool
@@ -534,6 +537,9 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Intersect the object and tool
@@ -618,6 +624,9 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Cut the object and tool
-- 
2.43.0


From cc31765905e6399b136d322ed65370f598bef1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:22 +0000
Subject: [PATCH 43/50] fix: side files with groups of points could be written
 but not opened

The reader stopped on groups of dimension zero, which the writer produces.
---
 src/gmsh/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 35e31ef..fb39170 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -212,10 +212,10 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
     size_t const name_start = line.find('"') + 1;
     size_t const name_end = line.find('"', name_start);
     std::string const name = line.substr(name_start, name_end - name_start);
-    // dim is 1, 2, or 3 and is 2 characters after the end of the name.
+    // dim is 0, 1, 2, or 3 and is 2 characters after the end of the name.
     size_t const dim_start = name_end + 2;
     int const dim = std::stoi(line.substr(dim_start, 1));
-    ASSERT(dim > 0);
+    ASSERT(dim >= 0);
     ASSERT(dim < 4);
 
     size_t const num_tags_start = dim_start + 2;
-- 
2.43.0


From f57cf4c2824496255fdd6e48a379ce055403116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:20 +0000
Subject: [PATCH 44/50] fix: allow an empty string in a log message

---
 src/common/logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..de68363 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -81,6 +81,10 @@ auto
 toBuffer(char * buffer_pos, char const * const & value) noexcept -> char *
 {
   char const * p = value;
+  // A view of a null-terminated string may not be empty
+  if (*p == '\0') {
+    return buffer_pos;
+  }
   StringView const sv(p);
   return appendStringViewToBuffer(buffer_pos, sv);
 }
-- 
2.43.0


From 1cde78f09a07f30288e7d369dabb0f4a26fd01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:20 +0000
Subject: [PATCH 45/50] fix: cut log messages that do not fit in the buffer

---
 src/common/logger.cpp | 58 +++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index de68363..8d64310 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -30,6 +30,10 @@ TimePoint start_time = Clock::now();
 char buffer[buffer_size] = {0};
 char const * const buffer_end = buffer + buffer_size;
 
+// Messages that do not fit are cut short here, to leave space for the color reset
+// sequence and the null terminator.
+static char * const message_end = buffer + buffer_size - 5;
+
 // NOLINTEND(cppcoreguidelines-avoid-non-const-global-variables)
 
 //==============================================================================
@@ -67,10 +71,17 @@ namespace
 auto
 appendStringViewToBuffer(char * buffer_pos, StringView const sv) noexcept -> char *
 {
-  auto * const new_pos = buffer_pos + sv.size();
-  ASSERT(new_pos < buffer_end);
-  um2::copy(sv.begin(), sv.end(), buffer_pos);
-  return new_pos;
+  auto const space = static_cast<uint64_t>(message_end - buffer_pos);
+  auto const len = sv.size() < space ? sv.size() : space;
+  um2::copy(sv.begin(), sv.begin() + len, buffer_pos);
+  return buffer_pos + len;
+}
+
+// The position after writing len characters, less those that did not fit
+auto
+advance(char * buffer_pos, int32_t const len) noexcept -> char *
+{
+  return len < message_end - buffer_pos ? buffer_pos + len : message_end;
 }
 
 } // namespace
@@ -94,9 +105,10 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const & value) noexcept -> char *
 {
-  *buffer_pos = value;
-  ++buffer_pos;
-  ASSERT(buffer_pos < buffer_end);
+  if (buffer_pos < message_end) {
+    *buffer_pos = value;
+    ++buffer_pos;
+  }
   return buffer_pos;
 }
 
@@ -109,8 +121,7 @@ toBuffer(char * buffer_pos, int32_t const & value) noexcept -> char *
   int32_t const written =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%d", value);
   ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -130,8 +141,7 @@ toBuffer(char * buffer_pos, uint32_t const & value) noexcept -> char *
   int32_t const written =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%u", value);
   ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -142,8 +152,7 @@ toBuffer(char * buffer_pos, int64_t const & value) noexcept -> char *
   int32_t const written =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%ld", value);
   ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -154,8 +163,7 @@ toBuffer(char * buffer_pos, uint64_t const & value) noexcept -> char *
   int32_t const written =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%lu", value);
   ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -166,8 +174,7 @@ toBuffer(char * buffer_pos, double const & value) noexcept -> char *
   int32_t const written =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%f", value);
   ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -183,22 +190,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
-  if (value) {
-    buffer_pos[0] = 't';
-    buffer_pos[1] = 'r';
-    buffer_pos[2] = 'u';
-    buffer_pos[3] = 'e';
-    buffer_pos += 4;
-  } else {
-    buffer_pos[0] = 'f';
-    buffer_pos[1] = 'a';
-    buffer_pos[2] = 'l';
-    buffer_pos[3] = 's';
-    buffer_pos[4] = 'e';
-    buffer_pos += 5;
-  }
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendStringViewToBuffer(buffer_pos, StringView(value ? "true" : "false"));
 }
 
 template <>
-- 
2.43.0


From e31149fb810cce5e5e8c9ae8f397f5cfa0406d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:56 +0000
Subject: [PATCH 46/50] fix: opposite edges of a quadrilateral that cross once
 were not detected

---
 include/um2/geometry/polygon.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/um2/geometry/polygon.hpp b/include/um2/geometry/polygon.hpp
index 3cac193..b254056 100644
--- a/include/um2/geometry/polygon.hpp
+++ b/include/um2/geometry/polygon.hpp
@@ -285,11 +285,12 @@ hasSelfIntersection(PlanarQuadraticPolygon<N, T> const & poly,
   }
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
+  // These edges do not share a vertex, so they should not intersect at all.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       return true;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       return true;
     }
   }
@@ -327,6 +328,7 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
 {
   Int e0 = -1;
   Int e1 = -1;
+  Int allowed = 1; // The number of intersections the edges may have
   // Edge i should intersect edge i + 1 exactly once.
   Int constexpr m = polygonNumEdges<2, N>();
   for (Int i = 0; i < m - 1; ++i) {
@@ -345,13 +347,15 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       e0 = 0;
       e1 = 2;
+      allowed = 0;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       e0 = 1;
       e1 = 3;
+      allowed = 0;
     }
   }
 
@@ -377,7 +381,7 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
   edge0[2] += disp;
 
   // Check that the intersection is fixed.
-  if (edge0.intersect(edge1, buffer) > 1) {
+  if (edge0.intersect(edge1, buffer) > allowed) {
     return false;
   }
 
-- 
2.43.0


From d8c065465225fbe7ce5d0431c4e93cf2239364eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:55 +0000
Subject: [PATCH 47/50] fix: intersecting nearly coincident quadratic segments
 aborted

---
 include/um2/geometry/quadratic_segment.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 1dc2b01..c5cb20d 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -820,9 +820,9 @@ intersect(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
       }
     }
   }
-  ASSERT(num_intersections <= 2);
   ASSERT(num_intersections >= 0);
-  return num_intersections;
+  // Segments that nearly coincide can have more intersections. Report two of them.
+  return num_intersections < 2 ? num_intersections : 2;
 }
 
 template <class T>
-- 
2.43.0


From 86aecee6c86f90512fe8ca5e0c7eab931f094b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:31 +0000
Subject: [PATCH 48/50] fix: report XDMF element sets of unsupported width
 instead of dropping them

Sets stored as one- or two-byte integers passed the precision check and were
then skipped without any message, so the mesh was read without them.
---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index b42281c..93d86d6 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1993,6 +1993,9 @@ readXDMFElsets(pugi::xml_node const & xgrid, H5::H5File const & h5file,
       } else {
         logger::error("Unsupported attribute data type size");
       }
+    } else {
+      logger::error("Unsupported data type size");
+      return;
     }
   }
 }
-- 
2.43.0


From 46c33254ea6e342afc261290ba560a05627c855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:50 +0000
Subject: [PATCH 49/50] fix: read cross section libraries with lines longer
 than 1023 characters

Rows of the scattering matrix of libraries with about 60 groups or more are
longer than the line buffer. Reading stopped at the first such row.
---
 src/physics/cross_section_library.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index b5ea31b..839beb3 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -37,7 +37,8 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
 
-  uint64_t const max_line_length = 1024;
+  // Large enough for a full row of the scattering matrix of a many-group library
+  uint64_t const max_line_length = 65536;
   char line[max_line_length];
 
   // %VER
-- 
2.43.0


From a41c9eb6cc32b4d0b5b6283a4b35d9d2cea314ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:14 +0000
Subject: [PATCH 50/50] fix: refuse materials beyond the number that material
 ids can tell apart

---
 src/mpact/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index b43c26d..170dc66 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -127,6 +127,10 @@ Model::addMaterial(Material const & material, bool const validate) -> Int
   if (validate) {
     material.validateXSec();
   }
+  if (_materials.size() > std::numeric_limits<MatID>::max()) {
+    logger::error("The model has the greatest number of materials already");
+    return -1;
+  }
   _materials.emplace_back(material);
   return _materials.size() - 1;
 }
-- 
2.43.0

