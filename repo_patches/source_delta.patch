From c0512cba5998bbf94eb69a0bf71cc8f0c1d55bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 01/72] fix: calendar: adding many days no longer wraps at 256
 (Date::add_days compared a truncated u8)

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From 14f0a9e353215250c1769da3e53f98ccc3b90577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 02/72] fix: calendar: Date::into_naive_datetime keeps the
 minutes and seconds of the date

---
 calendar/src/date.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d09fc9..881b6b1 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -135,24 +135,14 @@ impl Date {
     /// Because `Date` does not have a year, we need to pass it as a parameter.        
     #[cfg(feature = "chrono")]
     pub fn into_naive_datetime(self, year: i32) -> Result<NaiveDateTime, String> {
-        let hour = self.hour.floor();
-        let remainder = self.hour - hour;
-        let min = remainder * 60.0;
-        let sec = (60.0 - min) * 60.0;
-
-        let mut min = min.round() as u32;
-        let mut sec = sec.round() as u32;
-
-        if min == 60 {
-            min = 59;
-            sec = 59;
-        }
-
-        sec %= 60;
+        // Nearest whole second, without spilling into the next day
+        let seconds = (self.hour * 3600.0).round().min(86399.0) as u32;
+        let hour = seconds / 3600;
+        let min = seconds / 60 % 60;
+        let sec = seconds % 60;
 
         let r = NaiveDate::from_ymd_opt(year, self.month as u32, self.day as u32)
             .ok_or("Could not build chronos::Date")?;
-        let hour = hour.round() as u32;
         let r = r
             .and_hms_opt(hour, min, sec)
             .ok_or("Could not add HMS to chrosnos::Date")?;
-- 
2.43.0


From e69905bfc1a5b511cdda9566537313278c8b691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 03/72] fix: calendar: a Period that goes through new year
 stops when one step jumps over its end

---
 calendar/src/period.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..2c994ec 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -138,6 +138,10 @@ impl Iterator for Period {
         if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
             return None;
         }
+        // Jumped over the new year and also over the end (or over a second new year)
+        if crossed_ny && (vs_end_before || !vs_end_after) {
+            return None;
+        }
         self.current = new;
         // Some(old)
         Some(self.current)
-- 
2.43.0


From bd948398daa3d13ddad1846e74aaf2249f40cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 04/72] fix: matrix: NDiagGenericMatrix::new fills the matrix
 with the value it is given

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From 78560fe664bd78382b4a95912de998ed771dd6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 05/72] fix: matrix: N-diagonal matrices that are narrower than
 their band, or not square, multiply correctly

---
 matrix/src/n_diag_generic_matrix.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index d815326..6329aca 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -92,8 +92,12 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         let s = one_sided_n!(N);
         let n_zeroes_before = Self::zeroes_before(row);
         if row < s {
-            // top padding
-            s + 1 + row
+            // top padding... which cannot be wider than the matrix
+            if s + 1 + row < ncols {
+                s + 1 + row
+            } else {
+                ncols
+            }
         } else if n_zeroes_before + N <= ncols {
             // somewhere passed the top padding.
             N
@@ -210,17 +214,16 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
                 self.ncols
             ));
         }
-        if vec.len() != into.len() {
+        if into.len() != self.nrows {
             return Err(format!(
-                "Size mismatch. Column vector has {} elements, destination vector has {} elements",
-                vec.len(),
+                "Size mismatch. Matrix has {} rows, destination vector has {} elements",
+                self.nrows,
                 into.len()
             ));
         }
 
         let mut acc = 0;
-        // for row in 0..vec.len() {
-        for (row, item) in into.iter_mut().enumerate().take(vec.len()) {
+        for (row, item) in into.iter_mut().enumerate() {
             let non_zeroes = Self::n_in_row(row, self.ncols);
             *item = T::zero();
             if non_zeroes > 0 {
-- 
2.43.0


From 2cea1b76be7fd72a3924dd8720ffc6c4e274b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 06/72] fix: matrix: add_into and sub_into reject a destination
 of the wrong size

---
 matrix/src/generic_matrix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index 3a6c928..c5c7504 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -182,6 +182,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being added are of different sizes".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when adding is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
@@ -204,6 +207,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being substracted are not the same size".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when substracting is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
-- 
2.43.0


From 5278379fb350bd16243f56b5a8aa71ddaf447104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 07/72] fix: matrix: products do not depend on the previous
 contents of the destination (NaN survived)

---
 matrix/src/generic_matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index c5c7504..0953d04 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -252,7 +252,7 @@ impl<T: Numberish> GenericMatrix<T> {
         }
 
         // Clear
-        *into *= T::zero();
+        into.data.iter_mut().for_each(|x| *x = T::zero());
 
         // Multiply.
         let self_rows: Vec<&[T]> = self.data.chunks_exact(self.ncols).collect();
@@ -312,7 +312,7 @@ impl<T: Numberish> GenericMatrix<T> {
         }
 
         // Clear
-        *into *= T::zero();
+        into.data.iter_mut().for_each(|x| *x = T::zero());
 
         // Multiply.
         let i = self.data.chunks_exact(self.ncols);
-- 
2.43.0


From 5c419dae456a4f795d2116ff97dcb53d6bc22dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 08/72] fix: matrix: gauss_seidel does not report convergence
 when the solution became NaN

---
 matrix/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/src/matrix.rs b/matrix/src/matrix.rs
index 058633b..55cff8c 100644
--- a/matrix/src/matrix.rs
+++ b/matrix/src/matrix.rs
@@ -184,7 +184,7 @@ impl Matrix {
             max_err = -Float::MAX;
             for i in 0..n {
                 let err = (x.data[i] - new_x.data[i]).abs();
-                if err > max_err {
+                if err > max_err || err.is_nan() {
                     max_err = err;
                 }
             }
-- 
2.43.0


From c86a688bd6fc62487c83f101490cb4a79c343837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 09/72] fix: geometry: composing two Transforms composes their
 inverses in the right order

---
 geometry/src/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..f76b444 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,8 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        // The inverse of A*B is inv(B)*inv(A)
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From f2b4adc4b24a8e1e4a5ae7ff18b592862514cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 10/72] fix: geometry: a Cylinder3D goes from its first to its
 second point (axis was wrong unless in the XZ plane)

---
 geometry/src/cylinder3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/cylinder3d.rs b/geometry/src/cylinder3d.rs
index 4d18a31..141efb6 100644
--- a/geometry/src/cylinder3d.rs
+++ b/geometry/src/cylinder3d.rs
@@ -72,8 +72,9 @@ impl Cylinder3D {
         let rot_y_degrees = (x * x + y * y).sqrt().atan2(z).to_degrees();
         let rot_z_degrees = y.atan2(x).to_degrees();
 
-        transform *= Transform::rotate_y(rot_y_degrees);
+        // (tilt first, and then turn around the Z axis)
         transform *= Transform::rotate_z(rot_z_degrees);
+        transform *= Transform::rotate_y(rot_y_degrees);
 
         Self::new_transformed(
             radius,
-- 
2.43.0


From e865f186edc6c35bf8992a981d2dea0582e40cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 11/72] fix: geometry: Triangle3D intersections outside of the
 triangle (u + v > 1) are not hits

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..b25fdac 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -57,7 +57,7 @@ pub fn intersect_triangle(
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if v < 0.0 || u + v > 1.0 {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From 08f2ed6650056ac6f72f8013a39c62a397216729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 12/72] fix: geometry: ApproxFloat negation, substraction and
 scaling keep the true value between their bounds

---
 geometry/src/round_error.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geometry/src/round_error.rs b/geometry/src/round_error.rs
index 8bfa067..2953601 100644
--- a/geometry/src/round_error.rs
+++ b/geometry/src/round_error.rs
@@ -169,8 +169,8 @@ impl std::ops::Neg for ApproxFloat {
 
     fn neg(self) -> Self::Output {
         Self {
-            low: -self.low,
-            high: -self.high,
+            low: -self.high,
+            high: -self.low,
         }
     }
 }
@@ -199,8 +199,8 @@ impl std::ops::Sub for ApproxFloat {
 
     fn sub(self, other: Self) -> Self {
         Self {
-            low: next_float_down(self.low - other.low),
-            high: next_float_up(self.high - other.high),
+            low: next_float_down(self.low - other.high),
+            high: next_float_up(self.high - other.low),
         }
     }
 }
@@ -264,8 +264,8 @@ impl std::ops::Mul<Float> for ApproxFloat {
         // self * Self::from(other)
 
         // assume it is possitive
-        let mut min = next_float_down(self.low * other);
-        let mut max = next_float_up(self.high * other);
+        let mut min = self.low * other;
+        let mut max = self.high * other;
         // Swap if I was wrong.
         if min > max {
             std::mem::swap(&mut min, &mut max);
@@ -327,8 +327,9 @@ impl std::ops::AddAssign<Float> for ApproxFloat {
 
 impl std::ops::SubAssign for ApproxFloat {
     fn sub_assign(&mut self, other: Self) {
-        self.low = next_float_down(self.low - other.low);
-        self.high = next_float_up(self.high - other.high);
+        let low = next_float_down(self.low - other.high);
+        self.high = next_float_up(self.high - other.low);
+        self.low = low;
     }
 }
 
-- 
2.43.0


From 8d1c25beece607d275c86fdee8cf536252521665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:51 +0000
Subject: [PATCH 13/72] fix: geometry: Polygon3D::get_closed_loop walks holes
 whose number of vertices is not a power of two in order

---
 geometry/src/polygon3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..675c0e2 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,9 +345,9 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + n_inner_loop_vertices - j) % n_inner_loop_vertices
                         } else {
-                            (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + j) % n_inner_loop_vertices
                         };
 
                         let inner_vertex = self.inner[min_inner_loop_id][vertex_to_add];
-- 
2.43.0


From d9a6bb6a4e16ba3e6931f48e8fadf0cf4dbf6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 14/72] fix: geometry: propagated errors of a Transform do not
 include its translation

---
 geometry/src/transform.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index f76b444..ce2cd21 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -100,6 +100,17 @@ fn mul4x4_abs(matrix: &[Float; 16], x: Float, y: Float, z: Float) -> Point3D {
     Point3D::new(err_x, err_y, err_z)
 }
 
+/// Like [`mul4x4_abs`], but for quantities that do not translate (e.g., the
+/// errors that a point or a vector already had)
+fn mul3x3_abs(matrix: &[Float; 16], x: Float, y: Float, z: Float) -> Point3D {
+    let row = |i: usize| {
+        (matrix[elem!(i, 0)] * x).abs()
+            + (matrix[elem!(i, 1)] * y).abs()
+            + (matrix[elem!(i, 2)] * z).abs()
+    };
+    Point3D::new(row(0), row(1), row(2))
+}
+
 /// Multiplies two 4x4 matrices, represented as `[Float; 16]`
 pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
     let mut ret = [0.; 16];
@@ -339,7 +350,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul3x3_abs(&self.elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -355,7 +366,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul3x3_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -407,7 +418,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul3x3_abs(&self.elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -423,7 +434,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul3x3_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
-- 
2.43.0


From 21a3bde1fbd353d688c3796b22922752c8f8b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:48 +0000
Subject: [PATCH 15/72] fix: geometry: Loop3D::test_point casts a ray that
 always leaves the loop

---
 geometry/src/loop3d.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..b10acfb 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -717,7 +717,15 @@ impl Loop3D {
         }
 
         // Ray cast
-        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
+        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
+        let d_length = d.length();
+        if d_length < Float::EPSILON {
+            // It is the middle of the first edge.
+            return Ok(true);
+        }
+        // The ray needs to get out of the loop, no matter how close the
+        // point is to the middle of the first edge.
+        let d = d * (self.perimeter / d_length).max(1000.);
         let ray = Segment3D::new(point, point + d);
 
         let mut n_cross = 0;
-- 
2.43.0


From 165b89777f61046a5c26c06f30ea9e4e506d5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:48 +0000
Subject: [PATCH 16/72] fix: geometry: triangulating a polygon with holes does
 not clip ears that are outside or that contain other vertices

---
 geometry/src/triangulation3d.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 5652d9e..c3ea753 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -33,7 +33,7 @@ use crate::Float;
 
 */
 
-use crate::{Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};
+use crate::{Loop3D, Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};
 
 #[derive(Clone, Copy, Eq, PartialEq, Debug)]
 #[repr(u8)]
@@ -201,6 +201,25 @@ impl Default for Triangulation3D {
     }
 }
 
+/// Checks whether the triangle formed by three consecutive vertices of a [`Loop3D`]
+/// is on its inside and contains none of its other vertices.
+///
+/// This is not implied by `v0-v2` being a diagonal: when there are holes, the
+/// [`Loop3D`] goes twice through some vertices and the diagonal can be
+/// departing from the other one of them.
+fn is_ear(the_loop: &Loop3D, v0: Point3D, v1: Point3D, v2: Point3D) -> bool {
+    let normal = the_loop.normal();
+    let side = |a: Point3D, b: Point3D, p: Point3D| (b - a).cross(p - b) * normal;
+
+    side(v0, v1, v2) > 0.
+        && !the_loop.vertices().iter().any(|p| {
+            !(p.compare(v0) || p.compare(v1) || p.compare(v2))
+                && side(v0, v1, *p) > 0.
+                && side(v1, v2, *p) > 0.
+                && side(v2, v0, *p) > 0.
+        })
+}
+
 impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
     type Error = String;
 
@@ -237,7 +256,7 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
-            if (n == 3) || (!is_line && is_diagonal) {
+            if (n == 3) || (!is_line && is_diagonal && is_ear(&the_loop, v0, v1, v2)) {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
-- 
2.43.0


From dd8c037a868eb374213f6e56f9c7cd375fc818ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 17/72] fix: geometry: triangulating does not clip ears whose
 diagonal goes through another vertex

---
 geometry/src/triangulation3d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index c3ea753..f61bb33 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -202,7 +202,8 @@ impl Default for Triangulation3D {
 }
 
 /// Checks whether the triangle formed by three consecutive vertices of a [`Loop3D`]
-/// is on its inside and contains none of its other vertices.
+/// is on its inside and contains none of its other vertices (nor does its diagonal
+/// touch them).
 ///
 /// This is not implied by `v0-v2` being a diagonal: when there are holes, the
 /// [`Loop3D`] goes twice through some vertices and the diagonal can be
@@ -216,7 +217,7 @@ fn is_ear(the_loop: &Loop3D, v0: Point3D, v1: Point3D, v2: Point3D) -> bool {
             !(p.compare(v0) || p.compare(v1) || p.compare(v2))
                 && side(v0, v1, *p) > 0.
                 && side(v1, v2, *p) > 0.
-                && side(v2, v0, *p) > 0.
+                && side(v2, v0, *p) > -1e-5
         })
 }
 
-- 
2.43.0


From c7f5ea6556644e3e6e0806200abe0b087f774171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:54 +0000
Subject: [PATCH 18/72] fix: geometry: Loop3D::test_point is right when its ray
 goes through a vertex

---
 geometry/src/loop3d.rs | 48 +++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index b10acfb..77f6cb6 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -716,17 +716,14 @@ impl Loop3D {
             return Ok(false);
         }
 
-        // Ray cast
-        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
-        let d_length = d.length();
-        if d_length < Float::EPSILON {
-            // It is the middle of the first edge.
-            return Ok(true);
-        }
-        // The ray needs to get out of the loop, no matter how close the
-        // point is to the middle of the first edge.
-        let d = d * (self.perimeter / d_length).max(1000.);
-        let ray = Segment3D::new(point, point + d);
+        // Ray cast, in a direction that is unlikely to be that of any of the edges.
+        let first_edge = self.vertices[1] - self.vertices[0];
+        let d = first_edge * 0.754877 + self.normal.cross(first_edge) * 0.569840;
+
+        // On which side of the ray is each vertex? Each vertex is classified only
+        // once, so rays that go through a vertex cross either none or both of the
+        // edges that meet there if they do not go in or out through it
+        let is_left = |v: Point3D| (v - point).cross(d) * self.normal > 0.;
 
         let mut n_cross = 0;
         let n = self.vertices.len();
@@ -740,28 +737,13 @@ impl Loop3D {
                 return Ok(true);
             }
 
-            // Check if the ray and the segment touch. We only consider
-            // touching at the start (e.g., t_a between [0 and 1) ) in
-            // order not to count vertices twice.
-            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
-                // If the ray intersects
-                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
-                    if t_a < Float::EPSILON {
-                        // if the intersection is at the start of the segment
-                        let side_normal = d.cross(segment_ab.as_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    } else if t_a < 1. {
-                        // intersection is within the segment (not including the end)
-                        n_cross += 1;
-                    } else {
-                        // if the intersection is at the end of the segment
-                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    }
+            // Check if the edge goes from one side of the ray to the other, ahead
+            // of the point
+            let left_a = is_left(vertex_a);
+            if left_a != is_left(vertex_b) {
+                let turn = (vertex_a - point).cross(vertex_b - point) * self.normal;
+                if (turn > 0.) == left_a {
+                    n_cross += 1;
                 }
             }
         }
-- 
2.43.0


From be49992fabd886bb562f5328717abfdbc0846ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:15 +0000
Subject: [PATCH 19/72] fix: model: the scanner reports unclosed objects (it
 never returned), and ignores braces within strings and comments

---
 model/src/scanner.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..de6200c 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -167,6 +167,22 @@ impl<'a> SimpleScanner<'a> {
         Ok((self.start_index, self.current_index))
     }
 
+    /// Consumes a whole string, including the quotes
+    fn string(&mut self) {
+        let quote = self.advance();
+        while let Some(c) = self.advance() {
+            if c == '\n' {
+                self.line += 1;
+            }
+            if c == '\\' {
+                // whatever is escaped does not close the string
+                self.advance();
+            } else if Some(c) == quote {
+                break;
+            }
+        }
+    }
+
     /// Consumes an object and returns the start and end of that object.
     fn object(&mut self) -> Result<(usize, usize), String> {
         let mut levels = 0;
@@ -175,6 +191,13 @@ impl<'a> SimpleScanner<'a> {
         let (mut open, mut close) = ('{', '}');
 
         while levels > 0 || !started {
+            if self.current_index >= self.source.len() {
+                let errmsg = Self::make_error_msg(
+                    "Unexpected End of File: object was not closed",
+                    self.line,
+                );
+                return Err(errmsg);
+            }
             let next = self.peek();
             if !started && (next == ',') {
                 let errmsg = Self::make_error_msg("Malformed enum object. These should have parentheses (e.g., not 'ShelterClass::Urban' but 'ShelterClass::Urban()' )", self.line);
@@ -185,6 +208,15 @@ impl<'a> SimpleScanner<'a> {
                 open = '(';
                 close = ')';
             }
+            // What is inside of comments and strings does not open nor close objects
+            if next == '/' && (self.peek_next() == '/' || self.peek_next() == '*') {
+                self.skip_white_space()?;
+                continue;
+            }
+            if next == '"' || next == '\'' {
+                self.string();
+                continue;
+            }
 
             if next == open {
                 levels += 1;
@@ -200,7 +232,6 @@ impl<'a> SimpleScanner<'a> {
 
             if self.current_index == self.source.len() {
                 self.finished = true;
-                break;
             }
         }
 
-- 
2.43.0


From 02f3904742548b0df028a65e27285ddcb104b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 20/72] fix: model: the scanner reports objects of an unknown
 type (they were silently ignored)

---
 model/src/scanner.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index de6200c..4dffc38 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -247,6 +247,21 @@ impl<'a> SimpleScanner<'a> {
     /// Parses a whole [`Model`] from a text file
     pub(crate) fn parse_model(&mut self) -> Result<(Model, SimulationStateHeader), String> {
         let mut data = HashMap::<String, Vec<(&str, usize)>>::new();
+        let read_order = vec![
+            "Space",
+            "Substance",
+            "Material",
+            "Construction",
+            "Surface",
+            "Fenestration",
+            "Building",
+            "HVAC",
+            "Luminaire",
+            "Object",
+            "Output",
+            "SiteDetails",
+            "SolarOptions",
+        ];
 
         loop {
             self.skip_white_space()?;
@@ -278,6 +293,11 @@ impl<'a> SimpleScanner<'a> {
             let key = std::str::from_utf8(ident)
                 .expect("Could not scan")
                 .to_string();
+            if !read_order.contains(&key.as_str()) {
+                let errmsg =
+                    Self::make_error_msg(format!("unknown identifier '{}'", key), self.line);
+                return Err(errmsg);
+            }
             if let Some(v) = data.get_mut(&key) {
                 v.push((obj_str, self.line));
             } else {
@@ -286,21 +306,6 @@ impl<'a> SimpleScanner<'a> {
         }
         // Now, build the model
         let mut model = Model::default();
-        let read_order = vec![
-            "Space",
-            "Substance",
-            "Material",
-            "Construction",
-            "Surface",
-            "Fenestration",
-            "Building",
-            "HVAC",
-            "Luminaire",
-            "Object",
-            "Output",
-            "SiteDetails",
-            "SolarOptions",
-        ];
 
         for ident in read_order {
             if !data.contains_key(ident) {
-- 
2.43.0


From efa1a9ec084c8dd269a058bac61f52828f3a12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 21/72] fix: model: SolarOptions are written with the rest of
 the model in text format

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..3b3cf81 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From 5b5fb07d42995adf0106a605ce83c58ac5aeda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 22/72] fix: geometry: reading a malformed list of vertices is
 an error, not a panic

---
 geometry/src/loop3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 77f6cb6..bc4e49d 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -152,7 +152,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get X... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three for each vertex",
+                        ))
+                    }
                 };
                 let y = it.next();
                 let y = match y {
@@ -161,7 +165,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Y... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three for each vertex",
+                        ))
+                    }
                 };
                 let z = it.next();
                 let z = match z {
@@ -170,7 +178,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Z... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three for each vertex",
+                        ))
+                    }
                 };
                 // We push "as is"
                 ret.push_collinear(Point3D { x, y, z }, false)
-- 
2.43.0


From 5f45515e1e562bde22eb7ab2e4327a35e6445e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:33 +0000
Subject: [PATCH 23/72] fix: weather: the wind direction of EPW files is kept
 (every direction was turned into 360 or more)

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From 1f3a051e78dd2e296c6ec2536f1bfc1b4ce4a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:33 +0000
Subject: [PATCH 24/72] fix: weather: dates after the last record are
 interpolated with the first one, not extrapolated a whole year

---
 weather/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..1d7c8d0 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,11 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let date_n = if i == 0 {
+                        date.day_of_year() + 365.
+                    } else {
+                        date.day_of_year()
+                    };
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From e3b058acbe2191abae7595bad18f6fac4cecc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:33 +0000
Subject: [PATCH 25/72] fix: weather: malformed EPW files are errors, not
 panics

---
 weather/src/epw/scanner.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 0fcaac3..c2c3bbb 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -118,7 +118,7 @@ impl<'a> EPWScanner<'a> {
 
         // Ignore the \r thing that I hate
         let mut end = self.current;
-        if self.src[end - 1] == b'\r' {
+        if end > self.start && self.src[end - 1] == b'\r' {
             end -= 1;
         }
         let (ini, fin) = (self.start, end);
@@ -153,14 +153,8 @@ impl<'a> EPWScanner<'a> {
     /// Scans an element and transforms it into a number
     fn scan_number(slice: Option<&[u8]>) -> Result<Float, String> {
         if let Ok(v) = EPWScanner::scan_string(slice) {
-            let the_v = match v.parse::<Float>() {
-                Ok(v) => v,
-                Err(msg) => {
-                    panic!("{}", msg);
-                }
-            };
-
-            Ok(the_v)
+            v.parse::<Float>()
+                .map_err(|e| format!("Could not read number '{}' in EPW file: {}", v, e))
         } else {
             Err("Could not scan number... scan_string() return error".to_string())
         }
@@ -225,12 +219,12 @@ impl<'a> EPWScanner<'a> {
     fn parse_data_periods(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
         let n = EPWScanner::scan_number(self.scan_element())? as usize;
         if n != 1 {
-            panic!("Only one data period per EPW file is allowed!");
+            return Err("Only one data period per EPW file is allowed!".to_string());
         }
 
         let n_records_per_hour = EPWScanner::scan_number(self.scan_element())? as usize;
         if n_records_per_hour != 1 {
-            panic!("Only one record per hour is allowed in EPW file!");
+            return Err("Only one record per hour is allowed in EPW file!".to_string());
         }
 
         let _data_period_name = EPWScanner::scan_string(self.scan_element())?;
-- 
2.43.0


From 1e80299fedec2aa6a6c0625936f754986827340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 26/72] fix: weather: the estimated direct radiation of a sky
 with no radiation is 0, not NaN

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..7c23c78 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -356,7 +356,7 @@ impl Solar {
             next_hour_data,
             prev_hour_data,
         );
-        if direct_normal_radiation.is_nan() && direct_normal_radiation.is_infinite() {
+        if direct_normal_radiation.is_nan() || direct_normal_radiation.is_infinite() {
             direct_normal_radiation = 0.0;
         }
 
-- 
2.43.0


From 2286cc7c891f074b805d4ca5127558b7b2b23d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 27/72] fix: weather: the Perez sky is not zero when looking
 exactly towards the sun

---
 weather/src/solar/perez.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..e03530c 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -337,7 +337,8 @@ impl PerezSky {
         let ret = move |dir: Vector3D| -> Float {
             debug_assert!((1. - dir.length()) < 1e-5);
 
-            let cosgamma = sun_position * dir;
+            // rounding errors can take this out of [-1,1], for which acos() is NaN
+            let cosgamma = (sun_position * dir).clamp(-1., 1.);
             let gamma = cosgamma.acos();
 
             const MIN_DZ: Float = 0.01;
-- 
2.43.0


From 5e452be48015e450592533991698ae6b0e95c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 28/72] fix: weather: the sun is on the right side of the sky
 when the solar time is in the previous year

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 7c23c78..e3b0390 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -177,7 +177,7 @@ impl Solar {
         let n = self.unwrap_solar_time(n);
 
         // Remove the day (keep the hour). Multiply by 24 hours
-        let solar_hour = 24. * (n % 1.);
+        let solar_hour = 24. * n.rem_euclid(1.);
 
         // Multiply for 24 hours, and by 15degrees/hour
         ((solar_hour - 12.) * 15.).to_radians()
-- 
2.43.0


From 7fdc3066af32532473e2a51a66a9ca92d532a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:32 +0000
Subject: [PATCH 29/72] fix: weather: Perez's direct radiation table is indexed
 by its 7 variability rows and 5 humidity columns, not the opposite

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index e3b0390..21dc16a 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -968,7 +968,7 @@ fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_k
         0.518640, 0.339970, 0.520230, 0.743440, 0.592190, 0.603060, 0.316930, 0.794390,
     ];
 
-    let i = prec_water * 5 + delta_kt;
+    let i = delta_kt * 5 + prec_water;
 
     match (kt_p, zenith) {
         (0, 0) => C00[i],
-- 
2.43.0


From 27c09dfe3118ed74fff2a1822d8d6fe1df06fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:32 +0000
Subject: [PATCH 30/72] fix: weather: the clear-sky transmittance of the DISC
 model is 0.866 - 0.122 m ..., not 0.886

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 21dc16a..408d202 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -518,7 +518,7 @@ impl Solar {
 
         let delta_kn = a + b * (c * air_mass).exp();
 
-        let knc = 0.886 - 0.122 * air_mass + 0.0121 * (air_mass).powi(2)
+        let knc = 0.866 - 0.122 * air_mass + 0.0121 * (air_mass).powi(2)
             - 0.000653 * (air_mass).powi(3)
             + 0.000014 * air_mass.powi(4);
 
-- 
2.43.0


From 469125f326cae2c5081a9401e6cdf4ee6e34655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 31/72] fix: heat: the wind direction, which is in radians, is
 not converted to radians again

---
 heat/src/heat_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..e21736f 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -416,7 +416,7 @@ impl SimulationModel for ThermalModel {
             // advance in time
             date.add_seconds(self.dt);
             let current_weather = weather.get_weather_data(date);
-            let wind_direction = current_weather.wind_direction.to_radians();
+            let wind_direction = current_weather.wind_direction;
             let wind_speed = current_weather.wind_speed;
 
             let t_out = current_weather.dry_bulb_temperature;
-- 
2.43.0


From 1ed7cd4559547800ffb2bb39e8752ecab9185fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 32/72] fix: heat: negative solar irradiance on the back of a
 surface is ignored, as it is on the front

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..ffdac6c 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1267,7 +1267,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From b6d4e47c5e9bf0ed94e7d04260c8a423eaba702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 33/72] fix: heat: the back of a surface facing an ambient
 temperature convects according to its back temperature

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index ffdac6c..3eac4ad 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -684,7 +684,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From 5dce35b59962e6f7af14844578a1737c63711f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 34/72] fix: heat: the front of a surface that faces a space
 convects like a floor when it faces up, not like a ceiling

---
 heat/src/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 3eac4ad..f8f68ed 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -606,7 +606,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt, // as seen from the front
                 };
 
                 let front_hs = match self.front_hs {
@@ -623,7 +623,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt, // as seen from the front
                 };
 
                 let front_hs = match self.front_hs {
-- 
2.43.0


From 5af1c99d65e6fe64f0513d9d526121c52226e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 35/72] fix: heat: solar radiation on the back of a surface is
 absorbed by the back of its layers

---
 heat/src/surface.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f8f68ed..97dd25e 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -431,7 +431,11 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
 
         // Calculate solar absoption
         let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
-        let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
+        // The back system is seen from the back, so each layer needs to be flipped
+        let back_glazing: Vec<Glazing> = Glazing::get_back_glazing_system(construction, model)?
+            .iter()
+            .map(|g| Glazing::new(g.tau(), g.rho_back(), g.rho_front()))
+            .collect();
         // These two are the absorbtion of each glazing layer. We need the absorption of each node
         let front_alphas_prev = Glazing::alphas(&front_glazing);
 
-- 
2.43.0


From b965555d60bac112fc7be9093976752d931da810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 36/72] fix: heat: horizontal cavities that are hot above do
 not convect as if they were hot below

---
 heat/src/gas.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..1707c0b 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -198,8 +198,6 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     const THIRTY_RAD: Float = 30. * crate::PI / 180.;
     const EPSILON_RAD: Float = 0.5 * crate::PI / 180.;
 
-    let gamma = gamma % crate::PI;
-
     if (0.0..2. * THIRTY_RAD - EPSILON_RAD).contains(&gamma) {
         // Between 0 and 60 degrees
         nu_0_60(ra, gamma, a_gi)
@@ -212,7 +210,7 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     } else if gamma < 3. * THIRTY_RAD + EPSILON_RAD {
         // 90 degrees
         nu_90(ra, a_gi)
-    } else if gamma < 6. * THIRTY_RAD {
+    } else if gamma <= 6. * THIRTY_RAD + EPSILON_RAD {
         // between 90 and 180 degrees
         nu_90_180(ra, a_gi, gamma)
     } else {
-- 
2.43.0


From 941e4daa1d699bf96aff6949700743e0c6c6958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 37/72] fix: heat: the heat gains of a space that is
 disconnected from everything else warm it up

---
 heat/src/heat_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index e21736f..b135fe7 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -713,8 +713,8 @@ impl ThermalModel {
                     a[i] / b[i] + (t_current[i] - a[i] / b[i]) * (-b[i] * future_time / c[i]).exp(),
                 );
             } else {
-                // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // A space that is disconnected from everything... only its loads change its temperature
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From a0c98f339bbfeb7031463cd8f7f3c0399ab82a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 38/72] fix: heat: layers that transmit or absorb everything
 are not rejected because of rounding errors

---
 heat/src/glazing.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 020764e..1360c85 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -83,8 +83,18 @@ impl Glazing {
                     let tau = s.solar_transmittance().unwrap_or(&0.0);
                     let alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
                     let alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
-                    let rho_front = 1. - tau - alpha_front;
-                    let rho_back = 1. - tau - alpha_back;
+                    // What is neither transmitted nor absorbed is reflected (and
+                    // rounding errors are not a negative reflectance)
+                    let rho = |alpha: &Float| -> Float {
+                        let rho = 1. - tau - alpha;
+                        if rho.abs() < 1e-9 {
+                            0.0
+                        } else {
+                            rho
+                        }
+                    };
+                    let rho_front = rho(alpha_front);
+                    let rho_back = rho(alpha_back);
                     ret.push(Glazing::new(*tau, rho_front, rho_back));
 
                     // if not translucent, then we are done.
-- 
2.43.0


From 82564e6e866b5a811f5fbafc8a512f479ebd1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:54 +0000
Subject: [PATCH 39/72] fix: heat: the temperature of nodes without mass
 converges even if they exchange more heat by radiation than by convection

---
 heat/src/surface.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 97dd25e..7f421a9 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -77,6 +77,17 @@ fn scale(a: &mut [Float], v: Float) {
     a.iter_mut().for_each(|x| *x *= v);
 }
 
+/// Adds the (linearised) radiative heat transfer to the convective one, so that
+/// both can be represented by a single heat transfer coefficient. The returned value
+/// is that coefficient; and the `air_temperature` of the `env` becomes the equivalent temperature.
+fn add_radiation(env: &mut ConvectionParams, hs: Float, rad_hs: Float) -> Float {
+    let total = hs + rad_hs;
+    if total > 0.0 {
+        env.air_temperature = (hs * env.air_temperature + rad_hs * env.rad_temperature) / total;
+    }
+    total
+}
+
 impl ChunkMemory {
     /// Allocates memory for running a simulation of a chunk.
     ///
@@ -1056,9 +1067,15 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
 
         loop {
             // Update convection coefficients
-            let (front_env, back_env, front_hs, back_hs) =
+            let (mut front_env, mut back_env, mut front_hs, mut back_hs) =
                 self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);
 
+            // Solve IR radiation together with convection. Otherwise (i.e., if
+            // radiation was calculated based on the temperatures of the previous
+            // iteration) the iterations diverge when radiation dominates.
+            front_hs = add_radiation(&mut front_env, front_hs, front_rad_hs);
+            back_hs = add_radiation(&mut back_env, back_hs, back_rad_hs);
+
             // Calculate q based on heat transfer (convection, IR radiation)
             self.discretization.get_k_q(
                 ini,
@@ -1066,10 +1083,10 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                 global_temperatures,
                 &front_env,
                 front_hs,
-                front_rad_hs,
+                0.0,
                 &back_env,
                 back_hs,
-                back_rad_hs,
+                0.0,
                 memory,
             )?;
 
-- 
2.43.0


From 5802d7fa30caed3a2a4378606b0082553e7e1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 40/72] fix: rendering: rays hit triangles of a few square
 millimetres (e.g., those of a small sphere)

---
 rendering/src/triangle/fallback.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rendering/src/triangle/fallback.rs b/rendering/src/triangle/fallback.rs
index 9a90b8d..3a5b715 100644
--- a/rendering/src/triangle/fallback.rs
+++ b/rendering/src/triangle/fallback.rs
@@ -24,7 +24,10 @@ pub fn baricentric_coordinates(ray: Ray3D, t: &Triangle) -> Option<(Point3D, Flo
     let h = ray.direction.cross(edge2);
     let a = edge1 * h;
 
-    if a < TINY && a > -TINY {
+    // `a` is proportional to the area of the triangle, so this limit
+    // needs to be much smaller than the smallest of them
+    const PARALLEL: Float = 1e-12;
+    if a < PARALLEL && a > -PARALLEL {
         return None; // ray is parallel
     }
     let f = 1. / a;
-- 
2.43.0


From d7ae9a4ea502a7f2cd52d72dae0161f3c9054fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 41/72] fix: rendering: the probability of sampling a
 triangular light depends on the direction of the ray, not on its origin

---
 rendering/src/primitive_samplers.rs | 5 ++---
 rendering/src/triangle/mod.rs       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 5046158..40687e4 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -56,14 +56,13 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (info.p - ray.origin).length_squared();
-    let cos_theta = ray.origin * info.normal;
-    // debug_assert!(cos_theta > 0.);
+    let cos_theta = (ray.direction * info.normal).abs();
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle.area();
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /* END OF TRIANGLE */
diff --git a/rendering/src/triangle/mod.rs b/rendering/src/triangle/mod.rs
index f8d834b..1e4a5a6 100644
--- a/rendering/src/triangle/mod.rs
+++ b/rendering/src/triangle/mod.rs
@@ -90,14 +90,13 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (point - ray.origin).length_squared();
-    let cos_theta = ray.origin * normal;
-    // debug_assert!(cos_theta > 0.);
+    let cos_theta = (ray.direction * normal).abs();
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle_area(t);
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /// Gets the BBox of a Triangle
-- 
2.43.0


From e3404319bd50e511b91e10398b7c3c069d09f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 42/72] fix: rendering: a ray that is reflected by a dielectric
 stays in the medium it was in

---
 rendering/src/material/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rendering/src/material/mod.rs b/rendering/src/material/mod.rs
index 759b9cd..b858a87 100644
--- a/rendering/src/material/mod.rs
+++ b/rendering/src/material/mod.rs
@@ -160,14 +160,15 @@ impl Material {
             Self::Mirror(m) => m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags),
             Self::Dielectric(m) => {
                 let ret = m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags);
-                // if front or back?
-                // dbg!("Fxix the refraction index transition");
-                match interaction.geometry_shading.side {
-                    // Going in
-                    SurfaceSide::Front => *eta = m.refraction_index,
-                    // Going out... TODO?: create a stack of refraction indexes
-                    SurfaceSide::Back => *eta = 1.0,
-                    _ => unreachable!(),
+                // The refraction index changes only if the ray crosses the surface
+                if matches!(&ret, Some(sample) if sample.is_transmission()) {
+                    match interaction.geometry_shading.side {
+                        // Going in
+                        SurfaceSide::Front => *eta = m.refraction_index,
+                        // Going out... TODO?: create a stack of refraction indexes
+                        SurfaceSide::Back => *eta = 1.0,
+                        _ => unreachable!(),
+                    }
                 }
                 ret
             }
-- 
2.43.0


From 3ca4091797da616ed702842d886edfb2c5295c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 43/72] fix: rendering: rough plastics and metals scatter light
 all around the mirror direction, with Ward's distribution and value

---
 rendering/src/material/ward.rs | 69 ++++++++++++++++------------------
 rendering/src/ray_tracer.rs    |  2 +-
 2 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/rendering/src/material/ward.rs b/rendering/src/material/ward.rs
index 0619f9b..66a2113 100644
--- a/rendering/src/material/ward.rs
+++ b/rendering/src/material/ward.rs
@@ -27,7 +27,7 @@ use rand::*;
 use super::bsdf_sample::BSDFSample;
 use super::local_coordinates_utils::same_heisphere;
 use super::mat_trait::{MatFlag, TransFlag};
-use super::RandGen;
+use super::{mirror_direction, RandGen};
 
 const LOW_ROUGHNESS: Float = 1e-3;
 
@@ -72,47 +72,38 @@ pub fn sample_ward_anisotropic(
                 // (alpha.powi(2) * -xi2.ln()).sqrt()
             };
 
+            // Mirror the direction of the ray around h
             let h = Vector3D::new(cosp * d, sinp * d, 1.0);
-            d = (h * wo) * 2. / (1. + d.powi(2));
-            let mut v = -wo;
-            v.z += d;
-            v.normalize();
-            debug_assert!((1. - v.length()).abs() < 1e-5, "len of v = {}", v.length());
-
-            let l_n = wo.z;
-            let v_n = v.z;
-            if v_n < 0.0 || l_n < 0.0 {
-                // Here we want to evaluate the BSDF before we update the ray... otherwise the returned value would be incorrect
+            let wi = (wo - h * ((h * wo) * 2. / (1. + d.powi(2)))).get_normalized();
+
+            if same_heisphere(-wo, wi) {
                 let (spec, _diffuse) =
-                    evaluate_ward_anisotropic(specularity, alpha, beta, wo, v, transport_mode);
+                    evaluate_ward_anisotropic(specularity, alpha, beta, -wo, wi, transport_mode);
                 assert!(
                     !spec.is_nan(),
                     "incorrect (i.e., NaN) bsdf when calculating Ward aniso."
                 );
 
-                // eq. 14 and 15
-                let pdf = 0.5 * (1. + v_n / l_n) * spec; // * specularity / specularity;
-                let mut spectrum = Spectrum::gray(spec);
-                spectrum /= l_n.abs();
-                if pdf < 1e-8 && spec < 1e-8 {
-                    continue;
+                let pdf = ward_specular_pdf(spec, -wo, wi);
+                if pdf > 1e-8 {
+                    let ret = BSDFSample {
+                        pdf,
+                        spectrum: Spectrum::gray(spec),
+                        flags: MatFlag::GlossyReflection,
+                        wi,
+                        ..Default::default()
+                    };
+
+                    return Some(ret);
                 }
+            }
 
-                let ret = BSDFSample {
-                    pdf,
-                    spectrum,
-                    flags: MatFlag::GlossyReflection,
-                    wi: -v,
-                    ..Default::default()
-                };
-
-                return Some(ret);
-            } else if attempts > 50 {
+            if attempts > 50 {
                 let ret = BSDFSample {
                     pdf: 1.0, // irrelevant, because spectrum is Zero
                     spectrum: Spectrum::BLACK,
                     flags: MatFlag::GlossyReflection,
-                    wi: v,
+                    wi: mirror_direction(wo),
                     ..Default::default()
                 };
                 return Some(ret);
@@ -126,6 +117,13 @@ pub fn sample_ward_anisotropic(
     }
 }
 
+/// The probability of sampling the direction `wi` when sampling the specular component, which has
+/// a value of `spec` (i.e., it includes the probability of choosing the specular component.)
+fn ward_specular_pdf(spec: Float, wo: Vector3D, wi: Vector3D) -> Float {
+    // eq. 14 and 15
+    0.5 * (wo.z.abs() + wi.z.abs()) * spec // * specularity / specularity;
+}
+
 pub fn ward_pdf(
     specularity: Float,
     alpha: Float,
@@ -144,11 +142,8 @@ pub fn ward_pdf(
         "incorrect (i.e., NaN) bsdf when calculating Ward aniso."
     );
 
-    // eq. 14 and 15
-    // we would nee d to multiply this by Specularity to account for the probability
-    // of this being specular
-    let spec_pdf = 0.5 * (1. + wo.z / wi.z) * spec; // * specularity/specularity;
-    let diffuse_pdf = (1. - specularity) * wo.z.abs() / PI;
+    let spec_pdf = ward_specular_pdf(spec, wo, wi);
+    let diffuse_pdf = (1. - specularity) * wi.z.abs() / PI;
     spec_pdf + diffuse_pdf
 }
 
@@ -173,9 +168,9 @@ pub fn evaluate_ward_anisotropic(
         alpha = alpha.max(LOW_ROUGHNESS);
         beta = beta.max(LOW_ROUGHNESS);
 
-        let h = (wo + wi).get_normalized();
+        // Eq. 17 (where h is not normalized)
+        let h = wo + wi;
         let h_n = h.z;
-        // Eq. 17
         let c1 = specularity * (h * h) / (PI * alpha * beta * h_n.powi(4));
         let c2 = -((h.x / alpha).powi(2) + (h.y / beta).powi(2)) / (h_n.powi(2));
         c1 * c2.exp()
@@ -184,7 +179,7 @@ pub fn evaluate_ward_anisotropic(
     };
 
     let diff = (1. - specularity) / PI;
-    (spec / wo.z.abs(), diff)
+    (spec, diff)
 }
 
 #[cfg(test)]
diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 266a9b5..afc81fa 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -260,7 +260,7 @@ impl RayTracer {
                     let bsdf = material.eval_bsdf(normal, e1, e2, wo, wi, eta);
                     let fx = light_colour * cos_theta * bsdf;
 
-                    let bsdf_pdf = material.pdf(normal, e1, e2, wi, wo, eta);
+                    let bsdf_pdf = material.pdf(normal, e1, e2, wo, wi, eta);
 
                     let weight = power_heuristic(n, light_pdf * p_light, 1, bsdf_pdf);
 
-- 
2.43.0


From 11945deb095c1a52aff58922a8372596466dc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 44/72] fix: rendering: the zenith angle of a sun that is
 almost overhead is limited to 3 degrees, not to 87

---
 rendering/src/scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/scene.rs b/rendering/src/scene.rs
index 4290fe0..54fbf2b 100644
--- a/rendering/src/scene.rs
+++ b/rendering/src/scene.rs
@@ -167,7 +167,7 @@ impl Scene {
                     it did not allow me to create a constant of that value... so I
                     did this just in case
                 */
-                (3. * crate::PI / 180.).acos()
+                3. * crate::PI / 180.
             } else {
                 cos_zenit.acos()
             };
-- 
2.43.0


From b79bdff8196ade427c9fa5f381e7bb9540f91db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 45/72] fix: rendering: Pinhole::pixel_from_ray is the inverse
 of gen_ray also in films that are not square, and rays that go backwards have
 no pixel

---
 rendering/src/camera/pinhole.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rendering/src/camera/pinhole.rs b/rendering/src/camera/pinhole.rs
index 6bc38f8..80c9bcf 100644
--- a/rendering/src/camera/pinhole.rs
+++ b/rendering/src/camera/pinhole.rs
@@ -63,8 +63,8 @@ impl Camera for Pinhole {
         let direction = ray.direction;
         let normal = self.view.view_direction;
         let cos = normal * direction;
-        if cos.abs() < 1e-12 {
-            // The ray does not intersect at all.... its weight is Zero
+        if cos < 1e-12 {
+            // The ray does not intersect at all, or goes backwards.... its weight is Zero
             return ((0, 0), 0.);
         }
 
@@ -87,21 +87,22 @@ impl Camera for Pinhole {
         }
         let z = intersection_pt * self.view.view_up;
 
-        // If it is out of the FOV, return None.
-        if z.abs() > 1. || x.abs() > 1. {
-            return ((0, 0), 0.);
-        }
-
         let (width, height) = self.film.resolution;
         let xlim = 2.;
         let aspect_ratio = height as Float / width as Float;
         let ylim = aspect_ratio * xlim;
+
+        // If it is out of the FOV, return None.
+        if z.abs() > ylim / 2. || x.abs() > xlim / 2. {
+            return ((0, 0), 0.);
+        }
+
         let dx = xlim / width as Float;
         let dy = ylim / height as Float;
 
         // Else, calculate:
-        let x = (x + 1.) / dx;
-        let y = (1. - z) / dy;
+        let x = (x + xlim / 2.) / dx;
+        let y = (ylim / 2. - z) / dy;
 
         // return
         ((x.floor() as usize, y.floor() as usize), 1.)
-- 
2.43.0


From 79080d099d30641f7799f85497e6980f85ddb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 46/72] fix: rendering: image files with missing pixels are
 errors, rather than images that panic when used

---
 rendering/src/image.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 50fdf10..221bbad 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -272,13 +272,23 @@ impl ImageBuffer {
         let height = height.ok_or("no height")?;
 
         // Read body
-        let pixels = content
+        let pixels: Vec<Spectrum> = content
             .chunks_exact(4)
             .map(|x| {
                 let (r, g, b, e) = (x[0], x[1], x[2], x[3]);
                 rgbe_to_colour(r, g, b, e)
             })
             .collect();
+        if pixels.len() != width * height {
+            return Err(format!(
+                "When reading file '{}' : Expecting {} pixels (i.e., {}x{})... found {}",
+                filename,
+                width * height,
+                width,
+                height,
+                pixels.len()
+            ));
+        }
 
         // return
         Ok(Self {
-- 
2.43.0


From 5adc4238fc9582d667865ed8fd80089d894fac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:07 +0000
Subject: [PATCH 47/72] fix: rendering: matrix files with missing rows are
 errors, rather than matrices with zeroes

---
 rendering/src/colour_matrix.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rendering/src/colour_matrix.rs b/rendering/src/colour_matrix.rs
index 03f34f7..ac59fc4 100644
--- a/rendering/src/colour_matrix.rs
+++ b/rendering/src/colour_matrix.rs
@@ -211,6 +211,14 @@ pub fn read_colour_matrix(filename: &Path) -> Result<ColourMatrix, String> {
     let ncols = ncols.ok_or("Number of columns was not found")?;
     let mut matrix = ColourMatrix::new(Spectrum::BLACK, nrows, ncols);
 
+    let rows_found = content.lines().skip(header_lines).count();
+    if rows_found != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, rows_found
+        ));
+    }
+
     // Read content.
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
@@ -370,6 +378,14 @@ pub fn read_matrix(filename: &Path) -> Result<Matrix, String> {
     let ncols = ncols.ok_or("Number of columns was not found")?;
     let mut matrix = Matrix::new(0.0, nrows, ncols);
 
+    let rows_found = content.lines().skip(header_lines).count();
+    if rows_found != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, rows_found
+        ));
+    }
+
     // Read content.
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
-- 
2.43.0


From 59ad33faa0782efb40606ab67688fdc9c42f65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:17 +0000
Subject: [PATCH 48/72] fix: weather: at night the sky is black, rather than a
 panic

---
 weather/src/solar/perez.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index e03530c..c32a608 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -284,7 +284,10 @@ impl PerezSky {
     ) -> Box<dyn Fn(Vector3D) -> Float + Sync> {
         // Convert local into solar time
         let day = Time::Standard(date.day_of_year());
-        let sun_position = solar.sun_position(day).unwrap();
+        let sun_position = match solar.sun_position(day) {
+            Some(v) => v,
+            None => return Box::new(|_| 0.0), // It is nighttime
+        };
 
         // Convert day into solar time
         let day = solar.unwrap_solar_time(day);
-- 
2.43.0


From 1bc9877eface5ede20235d3deff5ce90ef3daa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 49/72] fix: geometry: rays that hit exactly the top of a
 sphere do not panic

---
 geometry/src/sphere3d.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geometry/src/sphere3d.rs b/geometry/src/sphere3d.rs
index 3f751c9..2503605 100644
--- a/geometry/src/sphere3d.rs
+++ b/geometry/src/sphere3d.rs
@@ -276,15 +276,13 @@ impl Sphere3D {
         let hit_x = phit.x;
         let hit_y = phit.y;
         let hit_z = phit.z;
-        // let zrad = (phit.x*phit.x + phit.y*phit.y).sqrt();
-        // let inv_zrad = 1./zrad;
+        let inv_zrad = 1. / (hit_x * hit_x + hit_y * hit_y).sqrt();
 
         let cos_theta = (hit_z / self.radius).clamp(-1., 1.);
         let theta = cos_theta.acos();
         let sin_theta = theta.sin();
-        let one_over_r_sin_theta = 1. / self.radius / sin_theta;
-        let cos_phi = hit_x * one_over_r_sin_theta;
-        let sin_phi = hit_y * one_over_r_sin_theta;
+        let cos_phi = hit_x * inv_zrad;
+        let sin_phi = hit_y * inv_zrad;
 
         // Calculate (u,v)
         let u = phi / self.phi_max;
-- 
2.43.0


From 728205885244e85751d5939331ef133875f1fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:27 +0000
Subject: [PATCH 50/72] fix: rendering: values that are almost the maximum of a
 colourmap do not panic

---
 rendering/src/colourmap/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rendering/src/colourmap/mod.rs b/rendering/src/colourmap/mod.rs
index 9404654..f94bbeb 100644
--- a/rendering/src/colourmap/mod.rs
+++ b/rendering/src/colourmap/mod.rs
@@ -93,7 +93,8 @@ fn map_linear_colour(
             return [r, g, b];
         }
     }
-    unreachable!()
+    // Rounding errors might place a value that is almost `max` out of the last bin
+    *map.last().expect("Given an empty colour map")
 }
 
 #[cfg(test)]
-- 
2.43.0


From e16c7b3ce9a960c33fb48434e9d54f518b6ea6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:16 +0000
Subject: [PATCH 51/72] fix: rendering: faces of more than four vertices in OBJ
 files are not dropped

---
 rendering/src/from_obj.rs | 37 +++----------------------------------
 1 file changed, 3 insertions(+), 34 deletions(-)

diff --git a/rendering/src/from_obj.rs b/rendering/src/from_obj.rs
index da630bd..0632623 100644
--- a/rendering/src/from_obj.rs
+++ b/rendering/src/from_obj.rs
@@ -67,10 +67,6 @@ impl<I> FromRawVertex<I> for ObjTriangle {
                     n = Some(pos_text_normal.iter().map(|v| v.2).collect());
                 }
             }
-            // assert!(p.len() == 4 || p.len() == 3, "Only faces of 3 and 4 vertices are allowed when reading OBJ files for now... sorry");
-            if p.len() > 4 {
-                continue;
-            }
             let p: Vec<Point3D> = p
                 .iter()
                 .map(|index| {
@@ -117,38 +113,11 @@ impl<I> FromRawVertex<I> for ObjTriangle {
                     .collect()
             });
 
-            // Add the bottom half
-            let (x, y, z) = (0, 1, 2);
-            let vertices = [p[x], p[y], p[z]];
-            // let normals = match &n {
-            //     Some(no)=>Some([no[x], no[y], no[z]]),
-            //     None => None
-            // };
-            let normals = n.as_ref().map(|no| [no[x], no[y], no[z]]);
-
-            // let textures = match &t {
-            //     Some(no)=>Some([no[x], no[y], no[z]]),
-            //     None => None
-            // };
-            let textures = t.as_ref().map(|no| [no[x], no[y], no[z]]);
-            ret.push(ObjTriangle {
-                vertices,
-                normals,
-                textures,
-            });
-            if p.len() == 4 {
-                // add second half
-                let (x, y, z) = (0, 2, 3);
+            // Split the face into triangles that share its first vertex
+            for i in 2..p.len() {
+                let (x, y, z) = (0, i - 1, i);
                 let vertices = [p[x], p[y], p[z]];
-                // let normals = match &n {
-                //     Some(no)=>Some([no[x], no[y], no[z]]),
-                //     None => None
-                // };
                 let normals = n.as_ref().map(|no| [no[x], no[y], no[z]]);
-                // let textures = match &t {
-                //     Some(no)=>Some([no[x], no[y], no[z]]),
-                //     None => None
-                // };
                 let textures = t.as_ref().map(|no| [no[x], no[y], no[z]]);
                 ret.push(ObjTriangle {
                     vertices,
-- 
2.43.0


From 74ea48a33087647c7087647d734fb46d0f075c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:16 +0000
Subject: [PATCH 52/72] fix: rendering: the back of the surfaces of a model
 reflects according to its back absorptance

---
 rendering/src/from_simple_model.rs | 35 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rendering/src/from_simple_model.rs b/rendering/src/from_simple_model.rs
index a261d0f..61beccd 100644
--- a/rendering/src/from_simple_model.rs
+++ b/rendering/src/from_simple_model.rs
@@ -81,7 +81,7 @@ impl SimpleModelReader {
 
             let front_substance = model.get_material_substance(front_mat_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, true)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -93,7 +93,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(last_mat_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, false)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -129,7 +129,7 @@ impl SimpleModelReader {
             let front_material_name = &construction.materials[0];
             let front_substance = model.get_material_substance(front_material_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, true)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -140,7 +140,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(back_material_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, false)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -168,13 +168,14 @@ impl SimpleModelReader {
         scene: &mut Scene,
         substance: &Substance,
         wavelength: &Wavelengths,
+        is_front: bool,
     ) -> Option<usize> {
         let substance_name = substance.name().to_string();
         match self.get_modifier_index(&substance_name) {
             Some(i) => Some(i),
             None => {
                 // Material is not there... add, then.
-                let front_mat = Self::substance_to_material(substance, wavelength)?;
+                let front_mat = Self::substance_to_material(substance, wavelength, is_front)?;
                 Some(scene.push_material(front_mat))
             }
         }
@@ -190,17 +191,27 @@ impl SimpleModelReader {
     }
 
     /// Transformsa a Model Substance into a Material
-    fn substance_to_material(substance: &Substance, wavelength: &Wavelengths) -> Option<Material> {
+    fn substance_to_material(
+        substance: &Substance,
+        wavelength: &Wavelengths,
+        is_front: bool,
+    ) -> Option<Material> {
         match substance {
             Substance::Normal(s) => {
                 let alpha = match *wavelength {
-                    Wavelengths::Solar => match s.front_solar_absorbtance() {
-                        Ok(v) => *v,
-                        Err(_) => {
-                            // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
-                            0.7
+                    Wavelengths::Solar => {
+                        let alpha = match s.back_solar_absorbtance() {
+                            Ok(v) if !is_front => Ok(v),
+                            _ => s.front_solar_absorbtance(),
+                        };
+                        match alpha {
+                            Ok(v) => *v,
+                            Err(_) => {
+                                // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
+                                0.7
+                            }
                         }
-                    },
+                    }
                     Wavelengths::Visible => match s.front_visible_reflectance() {
                         Ok(v) => *v,
                         Err(_) => {
-- 
2.43.0


From 1211cd620a32dea92376bc342823c1d2f6e5f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 53/72] fix: light: infrared view factors are those of every
 direction (not only the normal), and objects in the way count as air

---
 light/src/solar_surface.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index 2a400e7..2ba37e2 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -307,6 +307,7 @@ impl SolarSurface {
 
         let mut ground = 0.0;
         let mut sky = 0.0;
+        let mut obstructions = 0.0;
 
         let n_samples = 10000;
         let mut node_aux = [0; 32];
@@ -317,14 +318,23 @@ impl SolarSurface {
 
             for _ in 0..n_samples {
                 let u = rng.gen();
-                let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
-
-                if scene.cast_ray(*ray, &mut node_aux).is_none() {
+                // View factors are weighted by the cosine of the angle of incidence
+                let local_dir =
+                    rendering::samplers::sample_cosine_weighted_horizontal_hemisphere(u);
+                let dir = e1 * local_dir.x + e2 * local_dir.y + normal * local_dir.z;
+                let sample_ray = Ray3D {
+                    direction: dir,
+                    origin: ray.origin,
+                };
+
+                if scene.cast_ray(sample_ray, &mut node_aux).is_none() {
                     if dir.z > 0.0 {
                         sky += 1.0;
                     } else {
                         ground += 1.;
                     }
+                } else {
+                    obstructions += 1.;
                 }
             }
         }
@@ -332,9 +342,11 @@ impl SolarSurface {
         let n = n_samples as Float * rays.len() as Float;
         ground /= n;
         sky /= n;
+        obstructions /= n;
 
+        // Other objects are assumed to be at air temperature
         let beta = sky.sqrt();
-        let air = sky * (1. - beta);
+        let air = sky * (1. - beta) + obstructions;
         sky *= beta;
 
         Ok(IRViewFactorSet { sky, ground, air })
-- 
2.43.0


From 42e76868938e5508bf5d63b2a73f9779d0351939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:40 +0000
Subject: [PATCH 54/72] fix: model: scripts that ask for an object of an empty
 model get an error instead of an overflow

---
 derive/src/object_enum.rs   | 2 +-
 derive/src/object_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/object_enum.rs b/derive/src/object_enum.rs
index 966e0d4..c4039a7 100644
--- a/derive/src/object_enum.rs
+++ b/derive/src/object_enum.rs
@@ -366,7 +366,7 @@ impl EnumObject {
                             return Err(format!(#negative_index_err, index).into())
                         }
                         if index >= len as i64 {
-                            return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                            return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                         }
                         match &new_mod.#location[index as usize]{
                             #index_match_statement
diff --git a/derive/src/object_struct.rs b/derive/src/object_struct.rs
index a1b3617..3630a34 100644
--- a/derive/src/object_struct.rs
+++ b/derive/src/object_struct.rs
@@ -630,7 +630,7 @@ impl StructObject {
                     return Err(format!(#negative_index_err, index).into())
                 }
                 if index >= len as i64 {
-                    return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                    return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                 }
                 Ok(std::sync::Arc::clone(&new_mod.#location[index as usize]))
             });
-- 
2.43.0


From 8e6726366872f8f997771f533804845d3ece7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 55/72] fix: simulation reports have one column per reported
 value, and are written completely

---
 src/run_simulation.rs | 54 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..c2a98c1 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,33 +195,25 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out.write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out.write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -247,8 +239,7 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out.write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -257,12 +248,10 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out.write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
-        let _u = out
-            .write(b"\n")
+        out.write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
@@ -293,31 +282,23 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out.write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out.write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -347,8 +328,7 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out.write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -357,13 +337,11 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out.write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
         std::mem::drop(state_lock); // drop mutex
-        let _u = out
-            .write(b"\n")
+        out.write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
-- 
2.43.0


From 5fc61c3eb5455c53924084e381eaf46cf46dd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:11 +0000
Subject: [PATCH 56/72] fix: light: the sky of models that have only
 fenestrations is that of their optical data

---
 light/src/solar_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index 90d8727..0f4f385 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -402,6 +402,8 @@ impl SimulationModel for SolarModel {
 
         if model.surfaces.is_empty() {
             print_warning(MODULE_NAME, "Model has no surfaces");
+        }
+        if model.surfaces.is_empty() && model.fenestrations.is_empty() {
             return Ok(Self {
                 optical_info,
                 solar,
@@ -410,7 +412,11 @@ impl SimulationModel for SolarModel {
         }
 
         // derive MF
-        let (.., ncols) = optical_info.back_surfaces_dc.size();
+        let (.., ncols) = if model.surfaces.is_empty() {
+            optical_info.back_fenestrations_dc.size()
+        } else {
+            optical_info.back_surfaces_dc.size()
+        };
         if ncols == 0 {
             return Err(
                 "optical data is corrupt: daylight coefficient matrix has zero columns."
-- 
2.43.0


From 73d77867a4c84e9d3f0097eac6b28fc18eeba612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:23 +0000
Subject: [PATCH 57/72] fix: heat: the roughness index goes from 1 to 6, as
 documented, instead of from 0 to 5

---
 heat/src/convection.rs |  2 +-
 heat/src/surface.rs    | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/heat/src/convection.rs b/heat/src/convection.rs
index dd98051..c29c678 100644
--- a/heat/src/convection.rs
+++ b/heat/src/convection.rs
@@ -157,7 +157,7 @@ impl ConvectionParams {
     ) -> Float {
         const COEFFICIENTS: [Float; 6] = [2.17, 1.67, 1.52, 1.13, 1.11, 1.];
 
-        let rf = COEFFICIENTS[self.roughness_index];
+        let rf = COEFFICIENTS[self.roughness_index - 1];
 
         let wf = if windward { 1.0 } else { 0.5 };
 
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 7f421a9..5ffb15a 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -603,7 +603,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: 0.0,
                     rad_temperature: t_back,
                     surface_temperature: self.parent.back_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: self.cos_tilt,
                 };
 
@@ -620,7 +620,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: 0.0,
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: -self.cos_tilt, // as seen from the front
                 };
 
@@ -637,7 +637,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: 0.0,
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: -self.cos_tilt, // as seen from the front
                 };
 
@@ -655,7 +655,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: wind_speed * self.wind_speed_modifier,
                     rad_temperature: (ir_front / crate::SIGMA).powf(0.25) - 273.15,
                     surface_temperature: self.parent.front_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: self.cos_tilt,
                 };
                 front_env.cos_surface_tilt = -self.cos_tilt;
@@ -684,7 +684,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: 0.0,
                     rad_temperature: t_back, //self.parent.back_temperature(state),//(ir_back/crate::SIGMA).powf(0.25) - 273.15,
                     surface_temperature: self.parent.back_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: self.cos_tilt,
                 };
                 let back_hs = match self.back_hs {
@@ -700,7 +700,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: 0.0,
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.back_temperature(state),
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: self.cos_tilt,
                 };
 
@@ -719,7 +719,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_speed: wind_speed * self.wind_speed_modifier,
                     rad_temperature: (ir_back / crate::SIGMA).powf(0.25) - 273.15,
                     surface_temperature,
-                    roughness_index: 1,
+                    roughness_index: 2,
                     cos_surface_tilt: self.cos_tilt,
                 };
                 let back_hs = match self.back_hs {
-- 
2.43.0


From c2783aeb9c20f539d6832e117220169cd9918a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:00 +0000
Subject: [PATCH 58/72] fix: geometry: triangulating gives up when there are no
 more ears, and not after 220 iterations

---
 geometry/src/triangulation3d.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index f61bb33..9d3fee9 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -233,9 +233,8 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
         let mut anchor = 0;
         let mut count = 0;
         loop {
-            count += 1;
-
-            if count > 220 {
+            // After going all the way around without finding an ear, there is none
+            if count > the_loop.len() {
                 return Err("Excessive number of iteration when triangulating polygon".into());
             }
 
@@ -277,8 +276,10 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
                 //remove v1
                 the_loop.remove((anchor + 1) % n);
+                count = 0;
             } else {
                 anchor += 1;
+                count += 1;
             }
         }
     }
-- 
2.43.0


From 74e108e7c0c38cc20040082e4d99569268c040ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:00 +0000
Subject: [PATCH 59/72] fix: geometry: the closed loop of a polygon reaches its
 holes without crossing their edges or its own

---
 geometry/src/polygon3d.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 675c0e2..2b527b9 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -310,7 +310,7 @@ impl Polygon3D {
                         // the same but the calculation is faster.
                         let distance = ext_vertex.squared_distance(inner_vertex);
 
-                        if distance < min_distance {
+                        if distance < min_distance && self.is_bridge(&ret_loop, j, inner_vertex) {
                             min_distance = distance;
                             min_ext_vertex_id = j;
                             //min_int_vertex_id = l;
@@ -372,6 +372,42 @@ impl Polygon3D {
         ret_loop
     } // end of get_closed_polygon
 
+    /// Checks whether an inner loop can be reached—through its `inner_vertex`—from
+    /// the `i`th vertex of a [`Loop3D`] that encloses it, without going through any of
+    /// the edges of that [`Loop3D`] or of the inner loops.
+    fn is_bridge(&self, the_loop: &Loop3D, i: usize, inner_vertex: Point3D) -> bool {
+        let normal = self.outer.normal();
+        let side = |a: Point3D, b: Point3D, p: Point3D| (b - a).cross(p - a) * normal;
+
+        let n = the_loop.len();
+        let (prev, this, next) = (
+            the_loop[(i + n - 1) % n],
+            the_loop[i],
+            the_loop[(i + 1) % n],
+        );
+
+        // It needs to depart towards the inside of the loop, which might go
+        // through this same point more than once
+        let after_prev = side(prev, this, inner_vertex) > 0.;
+        let before_next = side(this, next, inner_vertex) > 0.;
+        let departs_inwards = if side(prev, this, next) > 0. {
+            after_prev && before_next
+        } else {
+            after_prev || before_next
+        };
+
+        let bridge = Segment3D::new(this, inner_vertex);
+        let crosses = |a: &Loop3D| {
+            let n = a.len();
+            (0..n).any(|k| {
+                let edge = Segment3D::new(a[k], a[(k + 1) % n]);
+                bridge.intersect(&edge, &mut Point3D::new(0., 0., 0.))
+            })
+        };
+
+        departs_inwards && !crosses(the_loop) && !self.inner.iter().any(crosses)
+    }
+
     /// Checks whether the [`Polygon3D`] contains a certain [`Segment3D`]
     /// in any of its loops
     pub fn contains_segment(&self, s: &Segment3D) -> bool {
-- 
2.43.0


From 4d3d347b24e0878c3bfce4a7301f27ac241c4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 60/72] fix: utils: the progress goes to the standard error, so
 that it does not end up among the results (or waits forever for them)

---
 utils/src/progress_bar.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/src/progress_bar.rs b/utils/src/progress_bar.rs
index 2f97585..8deb87f 100644
--- a/utils/src/progress_bar.rs
+++ b/utils/src/progress_bar.rs
@@ -62,15 +62,16 @@ impl ProgressBar {
             0
         };
         let empty = " ".repeat(n_empty);
-        print!(
+        // the standard output might be used for results
+        eprint!(
             "\r    {} [{}{}] {:.2}%",
             self.title, filled, empty, progress
         );
-        std::io::stdout().flush().unwrap();
+        std::io::stderr().flush().unwrap();
     }
 
     pub fn done(&self) {
         #[cfg(not(feature = "wasm"))]
-        println!("\nDone after {} seconds", self.start.elapsed().as_secs());
+        eprintln!("\nDone after {} seconds", self.start.elapsed().as_secs());
     }
 }
-- 
2.43.0


From 689634cc21bdb7320ca838e19fa2300d597235af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 61/72] fix: bin: spict takes coordinates that are negative,
 and its -h is only the field of view

---
 bin/spict.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bin/spict.rs b/bin/spict.rs
index ecb074e..d40fdbc 100644
--- a/bin/spict.rs
+++ b/bin/spict.rs
@@ -18,7 +18,7 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 SOFTWARE.
 */
 
-use clap::Parser;
+use clap::{ArgAction, Parser};
 use rendering::{RayTracer, Scene, Wavelengths};
 
 use geometry::{Point3D, Vector3D};
@@ -78,7 +78,7 @@ impl std::str::FromStr for Triplet {
 /// A program for Rendering an image from a .rad (i.e., Radiance) or .spl (i.e., Simple)
 /// formats
 #[derive(Parser, Debug)]
-#[clap(author, version, about, long_about = None)]
+#[clap(author, version, about, long_about = None, disable_help_flag = true)]
 struct Inputs {
     #[clap(short, long)]
     /// The file to load the model from
@@ -115,20 +115,25 @@ struct Inputs {
 
     /* VIEW */
     /// The view point (e.g., '-p 0. 1. 2')
-    #[clap(short = 'p', long)]
+    #[clap(short = 'p', long, allow_hyphen_values = true)]
     pub view_point: Triplet,
 
     /// The view direction (Does not need to be normalized. e.g., '-d -3. 1. 2')
-    #[clap(short = 'd', long)]
+    #[clap(short = 'd', long, allow_hyphen_values = true)]
     pub view_direction: Triplet,
 
     /// The view up (e.g., '-u 0. 1. 0')
-    #[clap(short='u', long, default_value_t=Triplet(0., 0., 1.))]
+    #[clap(short='u', long, allow_hyphen_values = true, default_value_t=Triplet(0., 0., 1.))]
     pub view_up: Triplet,
 
     /// The horizontal field of view, in degrees
     #[clap(short = 'h', long = "view_horizontal", default_value_t = 60.)]
     pub field_of_view: Float,
+
+    // '-h' is the horizontal field of view
+    #[clap(long, action = ArgAction::Help)]
+    /// Print help
+    help: Option<bool>,
 }
 
 fn main() -> Result<(), String> {
-- 
2.43.0


From 8b092b82bc9a2977674f11448bcb37c125670770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 62/72] fix: rendering: directions towards spheres and sources
 are sampled with the probability that is then considered

---
 rendering/src/primitive.rs | 21 ++++++++++++++-------
 rendering/src/samplers.rs  | 25 +++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/rendering/src/primitive.rs b/rendering/src/primitive.rs
index 49e54c8..3aba3bd 100644
--- a/rendering/src/primitive.rs
+++ b/rendering/src/primitive.rs
@@ -26,7 +26,7 @@ use geometry::{
 use rand::*;
 
 use crate::primitive_samplers::*;
-use crate::samplers::uniform_sample_tilted_disc;
+use crate::samplers::uniform_sample_cone;
 use geometry::intersection::IntersectionInfo;
 
 #[derive(Clone, Debug)]
@@ -109,16 +109,23 @@ impl Primitive {
     }
 
     pub fn sample_direction(&self, rng: &mut RandGen, point: Point3D) -> Vector3D {
-        let u: (Float, Float) = rng.gen();
+        // The distribution is the one considered by `solid_angle_pdf`
         let surface_point = match self {
-            Self::Sphere(s) => sample_sphere_surface(s, rng),
+            Self::Sphere(s) => {
+                let centre = s.centre() - point;
+                let sin_2 = s.radius * s.radius / centre.length_squared();
+                if sin_2 < 1. {
+                    let aux = sin_2 / (1. + (1. - sin_2).sqrt()); // 1 - cos
+                    return uniform_sample_cone(rng.gen(), centre.get_normalized(), aux);
+                }
+                // We are inside the sphere
+                sample_sphere_surface(s, rng)
+            }
             Self::Triangle(s) => sample_triangle_surface(s, rng),
             Self::Cylinder(_s) => unimplemented!(),
             Self::Source(s) => {
-                let radius = (s.angle / 2.0).tan();
-                let normal = s.direction.get_normalized();
-                let centre = point + normal;
-                uniform_sample_tilted_disc(u, radius, centre, normal)
+                let sin = (s.angle / 4.0).sin();
+                return uniform_sample_cone(rng.gen(), s.direction, 2. * sin * sin);
             }
         };
         let direction = surface_point - point;
diff --git a/rendering/src/samplers.rs b/rendering/src/samplers.rs
index 20e082c..38148f9 100644
--- a/rendering/src/samplers.rs
+++ b/rendering/src/samplers.rs
@@ -130,6 +130,31 @@ pub fn uniform_sample_sphere(u: (Float, Float)) -> Point3D {
     Point3D::new(x, y, z)
 }
 
+/// Samples a direction within a certain cone. All of the directions within it are
+/// as likely. The `width` of the cone is one minus the cosine of half its angle
+pub fn uniform_sample_cone(u: (Float, Float), direction: Vector3D, width: Float) -> Vector3D {
+    // Avoid the very edge, where it is not clear whether there is anything
+    const TINY: Float = 1e-5;
+    let (rand1, rand2) = u;
+    let aux = rand1 * width * (1. - TINY);
+    let r = (aux * (2. - aux)).sqrt();
+    let (theta_sin, theta_cos) = (2. * crate::PI * rand2).sin_cos();
+
+    // Form the basis
+    let e2 = direction.get_perpendicular().unwrap();
+    let e1 = e2.cross(direction);
+    let (x, y, z) = local_to_world(
+        e1,
+        e2,
+        direction,
+        Point3D::new(0., 0., 0.),
+        r * theta_cos,
+        r * theta_sin,
+        1. - aux,
+    );
+    Vector3D::new(x, y, z).get_normalized()
+}
+
 pub fn uniform_sample_tilted_disc(
     u: (Float, Float),
     radius: Float,
-- 
2.43.0


From bb75a69dd8a5815de6c06575b6c3f11239207178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 63/72] fix: rendering: the light that comes directly from
 large sources is neither lost nor counted twice

---
 rendering/src/ray_tracer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index afc81fa..3f496a4 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -23,6 +23,7 @@ use crate::colour::Spectrum;
 use crate::image::ImageBuffer;
 use crate::interaction::Interaction;
 use crate::material::Material;
+use crate::primitive::Primitive;
 use crate::rand::*;
 
 use crate::scene::{Object, Scene};
@@ -94,7 +95,10 @@ impl RayTracer {
                             let w = if depth == 0 || specular_bounce {
                                 1.0
                             } else {
-                                power_heuristic(1, ray_prob, 1, light_pdf)
+                                // the other part was added when sampling the light
+                                let n_lights = scene.lights.len() + scene.distant_lights.len();
+                                let n = if depth == 1 { self.n_shadow_samples } else { 1 };
+                                power_heuristic(1, ray_prob, n, light_pdf / n_lights as Float)
                             };
                             spectrum += beta * w * light_colour;
                         }
@@ -145,6 +149,7 @@ impl RayTracer {
                     refraction_coefficient,
                     rng,
                     n_shadow_samples,
+                    depth < self.max_depth,
                     aux,
                 );
                 spectrum += beta * local;
@@ -212,7 +217,8 @@ impl RayTracer {
     }
 
     /// Calculates the luminance produced by the direct sources in the
-    /// scene
+    /// scene. If the path continues, the distant lights that it might reach
+    /// add the rest of their light
     #[allow(clippy::too_many_arguments)]
 
     fn get_local_illumination<const N: usize>(
@@ -223,6 +229,7 @@ impl RayTracer {
         eta: Float,
         rng: &mut RandGen,
         n_shadow_samples: usize,
+        continues: bool,
         node_aux: &mut [usize; N],
     ) -> Spectrum {
         let (mut intersection_pt, normal, e1, e2) = interaction.get_triad();
@@ -262,7 +269,13 @@ impl RayTracer {
 
                     let bsdf_pdf = material.pdf(normal, e1, e2, wo, wi, eta);
 
-                    let weight = power_heuristic(n, light_pdf * p_light, 1, bsdf_pdf);
+                    let weight = match light.primitive {
+                        Primitive::Source(_) if continues => {
+                            power_heuristic(n, light_pdf * p_light, 1, bsdf_pdf)
+                        }
+                        // Other lights add nothing when a path reaches them
+                        _ => 1.0,
+                    };
 
                     local_illum += weight * fx / (light_pdf * p_light);
                 }
-- 
2.43.0


From da529fe763bc03d9300b14714bccc575095e4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 64/72] fix: geometry: holes whose edges cross those of the
 polygon or of other holes are not cut

---
 geometry/src/polygon3d.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 2b527b9..8437efa 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -239,6 +239,23 @@ impl Polygon3D {
             }
         }
 
+        // Corners are not enough: check that the edges do not cross those of
+        // the polygon, or those of other holes.
+        const INSIDE: core::ops::Range<Float> = 1e-6..(1. - 1e-6);
+        let hole_edges = hole.segments();
+        for border in std::iter::once(&self.outer).chain(self.inner.iter()) {
+            for a in border.segments() {
+                for b in &hole_edges {
+                    if let Some((t_a, t_b)) = a.get_intersection_pt(b) {
+                        if INSIDE.contains(&t_a) && INSIDE.contains(&t_b) {
+                            let msg = "The hole you are trying to cut crosses the border of your Polygon3D, or that of another hole in it".to_string();
+                            return Err(msg);
+                        }
+                    }
+                }
+            }
+        }
+
         // All good now! Add it.
         let hole_area = hole.area()?;
 
-- 
2.43.0


From 89953477c8d7f9c3ebb33fc2de56ee0a97903e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 65/72] fix: model: electric heaters tell their maximum heating
 power, as other systems do

---
 model/src/hvac/electric_heater.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model/src/hvac/electric_heater.rs b/model/src/hvac/electric_heater.rs
index e7f3e0a..6fb66ec 100644
--- a/model/src/hvac/electric_heater.rs
+++ b/model/src/hvac/electric_heater.rs
@@ -94,6 +94,13 @@ impl super::SmallHVAC for ElectricHeater {
         Err("Electric Heaters do not cool".into())
     }
 
+    fn max_heating_power(&self) -> Result<Float, String> {
+        match self.max_heating_power() {
+            Ok(v) => Ok(*v),
+            Err(e) => Err(e),
+        }
+    }
+
     fn target_space(&self) -> Result<&String, String> {
         self.target_space()
     }
-- 
2.43.0


From ee7fffa581b97e7697cbd9ba68183bc114a1806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 66/72] fix: rendering: the automatic limit of logarithmic
 false colours is the maximum of dim images too

---
 rendering/src/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 221bbad..8f2fbed 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -319,14 +319,14 @@ impl ImageBuffer {
         let log_max = match max {
             Some(v) => v.log10(),
             None => {
-                let mut m = MIN_MIN;
+                let mut m = MIN_MIN.log10();
                 log_luminance.iter().for_each(|v| {
                     if *v > m {
                         m = *v
                     }
                 });
-                if m <= MIN_MIN {
-                    m = 2. * MIN_MIN;
+                if m <= MIN_MIN.log10() {
+                    m = (2. * MIN_MIN).log10();
                 }
                 m
             }
-- 
2.43.0


From 9a006e000c4fa789cf32b4e8471ed28a8ee67aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 67/72] fix: geometry: derivatives of a hit on a disk with
 respect to its parameters

---
 geometry/src/disk3d.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/src/disk3d.rs b/geometry/src/disk3d.rs
index c7df982..3d87c2f 100644
--- a/geometry/src/disk3d.rs
+++ b/geometry/src/disk3d.rs
@@ -185,10 +185,10 @@ impl Disk3D {
         let zxn = self.phi_zero.cross(self.normal);
         let rhit_sin_phi = -r * zxn;
         let rhit_cos_phi = r * self.phi_zero;
-        let dpdu = self.phi_zero * (-rhit_sin_phi)
-            + zxn * (rhit_cos_phi / rhit * (self.inner_radius - self.radius));
-        let dpdv = self.phi_zero * (-rhit_cos_phi)
-            + zxn * (rhit_sin_phi / rhit * (self.radius - self.inner_radius));
+        // (`-zxn` is the axis that is perpendicular to `phi_zero`)
+        let dpdu = (self.phi_zero * (-rhit_sin_phi) - zxn * rhit_cos_phi) * self.phi_max;
+        let dpdv = (self.phi_zero * rhit_cos_phi - zxn * rhit_sin_phi)
+            * ((self.inner_radius - self.radius) / rhit);
 
         let normal = self.normal; //dpdv.cross(dpdu).get_normalized();
         let (normal, side) = SurfaceSide::get_side(normal, ray.direction);
-- 
2.43.0


From a08e16853d7a95e28472b4a700250940665b5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 68/72] fix: geometry: the second parameter of a hit on a
 triangle (textures feature)

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index b25fdac..c0a2d15 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -538,7 +538,7 @@ impl Triangle3D {
             #[cfg(feature = "textures")]
             u: _u,
             #[cfg(feature = "textures")]
-            v: _u,
+            v: _v,
             #[cfg(feature = "textures")]
             dndu: Vector3D::new(0., 0., 0.),
             #[cfg(feature = "textures")]
-- 
2.43.0


From 8675838ca47ca9bfb36d1dbd3890ca4285dd0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 69/72] fix: geometry: short vectors are not all parallel

---
 geometry/src/vector3d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/src/vector3d.rs b/geometry/src/vector3d.rs
index 39496f7..c29d920 100644
--- a/geometry/src/vector3d.rs
+++ b/geometry/src/vector3d.rs
@@ -250,7 +250,9 @@ impl Vector3D {
         let ab_squared = self.length_squared() * v.length_squared();
         let dot: Float = *self * v;
         let r = ((dot * dot) - ab_squared).abs();
-        r < 1e-5
+        // relative for short vectors (all of them would be parallel,
+        // otherwise), and above the rounding errors of the long ones.
+        r < (1e-5 * ab_squared.min(1.)).max(8. * Float::EPSILON * ab_squared)
     } // end of is_parallel
 
     /// Checks if two vectors are parallel and follow the same direction.
-- 
2.43.0


From 1f2c805de2e96618dea1222e8ef4dacd7740b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 70/72] fix: geometry: a triangulation is not damaged when a
 split cannot be built

---
 geometry/src/triangulation3d.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 9d3fee9..4ed14d0 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -532,8 +532,14 @@ impl Triangulation3D {
         }
 
         // get the other situation
-        let flipped1 = TriPiece::new(vertex_a, opposite, vertex_c, 0)?;
-        let flipped2 = TriPiece::new(opposite, vertex_b, vertex_c, 0)?;
+        let (flipped1, flipped2) = match (
+            TriPiece::new(vertex_a, opposite, vertex_c, 0),
+            TriPiece::new(opposite, vertex_b, vertex_c, 0),
+        ) {
+            (Ok(a), Ok(b)) => (a, b),
+            // one of them would be just a line.
+            _ => return Ok(None),
+        };
 
         let f1_aspect = flipped1.aspect_ratio;
         let f2_aspect = flipped2.aspect_ratio;
@@ -726,6 +732,14 @@ impl Triangulation3D {
         // Neighbour... this is not necessarily there
         let nei_i = self.triangles[triangle_index].neighbour(edge_to_split);
 
+        // Check that the new triangles can be built, before changing anything
+        for index in std::iter::once(triangle_index).chain(nei_i) {
+            let triangle = &self.triangles[index].triangle;
+            let vertex_c = self.get_opposite_vertex(triangle, segment_to_split)?;
+            Triangle3D::new(segment_to_split.start(), p, vertex_c)?;
+            Triangle3D::new(p, segment_to_split.end(), vertex_c)?;
+        }
+
         // get points
         let mut process_hemisphere = |index: usize| -> Result<(usize, usize), String> {
             let ab_index = self.triangles[index]
@@ -854,6 +868,11 @@ impl Triangulation3D {
         let vertex_b = self.triangles[i].triangle.b();
         let vertex_c = self.triangles[i].triangle.c();
 
+        // Check that the new triangles can be built, before changing anything
+        Triangle3D::new(vertex_c, vertex_a, point)?;
+        Triangle3D::new(vertex_a, vertex_b, point)?;
+        Triangle3D::new(vertex_b, vertex_c, point)?;
+
         // Get neighbours and constraints
         let edge = self.triangles[i]
             .triangle
-- 
2.43.0


From 11de2fd9a14428d05f402629222133c6d350560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 71/72] fix: rendering: no ambient or shadow samples give a
 dark image, not NaN

---
 rendering/src/ray_tracer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 3f496a4..bbe94a3 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -202,11 +202,12 @@ impl RayTracer {
         // let original_ray = ray;
         let mut spectrum = Spectrum::BLACK;
         // If max_depth is Zero, then there is no point in
-        // using multiple ambient samples
+        // using multiple ambient samples. (At least one ray is always
+        // needed, or nothing would be seen)
         let n_ambient_samples = if self.max_depth == 0 {
             1
         } else {
-            self.n_ambient_samples
+            self.n_ambient_samples.max(1)
         };
 
         for _ in 0..n_ambient_samples {
@@ -237,6 +238,9 @@ impl RayTracer {
         let mut local_illum = Spectrum::BLACK;
 
         let n = n_shadow_samples;
+        if n == 0 {
+            return local_illum;
+        }
 
         let n_shadow_samples = n as Float;
         if let Some((light, p_light)) = scene.sample_light_uniform(rng) {
-- 
2.43.0


From a30a1d943968cf10c0aae55063190ffde4766754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 72/72] fix: simple: weather data that is empty or that ends at
 midnight

---
 src/run_simulation.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index c2a98c1..67d4a17 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -123,8 +123,15 @@ fn pre_process(
         }
     };
 
-    let start = weather.data[0].date;
-    let mut end = weather.data[weather.data.len() - 1].date;
+    let (start, mut end) = match (weather.data.first(), weather.data.last()) {
+        (Some(first), Some(last)) => (first.date, last.date),
+        _ => return Err("The weather file contains no data".to_string()),
+    };
+    if end.hour < 0.1 {
+        // Back to the previous day
+        end.add_days(364);
+        end.hour += 24.;
+    }
     end.hour -= 0.1;
 
     let sim_period = Period::new(start, end, dt);
-- 
2.43.0

