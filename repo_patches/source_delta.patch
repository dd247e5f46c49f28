From 2666ee3b3b707c14ea3301504c95e694039437fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 01/10] fix: let libm take precedence when both libm and
 micromath are enabled without std

---
 crates/minikalman/src/matrix/data_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/minikalman/src/matrix/data_type.rs b/crates/minikalman/src/matrix/data_type.rs
index db57526..3298e56 100644
--- a/crates/minikalman/src/matrix/data_type.rs
+++ b/crates/minikalman/src/matrix/data_type.rs
@@ -57,7 +57,7 @@ impl MatrixDataType for f32 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -73,7 +73,7 @@ impl MatrixDataType for f32 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrtf(self)
         }
@@ -92,7 +92,7 @@ impl MatrixDataType for f64 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -108,7 +108,7 @@ impl MatrixDataType for f64 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrt(self)
         }
-- 
2.43.0


From a0f8b6cbcd70c9afd219783dcd4d78958dcd13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 02/10] fix: use core::slice in nalgebra support so that it
 builds without std

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..a26beb2 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -66,7 +66,7 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     unsafe fn as_slice_unchecked(&self) -> &[T] {
-        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
+        core::slice::from_raw_parts(self.ptr(), ROWS * COLS)
     }
 }
 
-- 
2.43.0


From 593100791c09154fe4327dc757f4a98fb79992b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 03/10] fix: copy the requested row in get_row_copy for rows
 other than the first

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..4f9b09d 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = (row + 1) * self.cols() - 1;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From cb46f95ac2b26d18387918b89b02a59c0be397f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 04/10] fix: do not underflow when copying an empty matrix

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 4f9b09d..a330cef 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -151,7 +151,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let adata = self.as_slice();
         let bdata = target.as_mut_slice();
 
-        for index in (0..=(count - 1)).rev() {
+        for index in (0..count).rev() {
             bdata[idx!(index)] = adata[idx![index]];
         }
     }
-- 
2.43.0


From f799231c9c1df57b57202195fa7e3de6f01451fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 05/10] fix: set only the cells of the matrix in set_all, not
 the rest of a larger buffer

---
 crates/minikalman/src/matrix/traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index a330cef..1fb8da2 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -992,7 +992,11 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
-        self.as_mut_slice().fill(value);
+        let count = self.len();
+        self.as_mut_slice()
+            .iter_mut()
+            .take(count)
+            .for_each(|cell| *cell = value);
     }
 
     /// Sets all elements of the matrix to the provided value.
-- 
2.43.0


From 89fe88342aeb3b466b914ec1441480d6f2aa815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 06/10] fix: leave the estimate unchanged when the innovation
 covariance is not positive-definite

---
 crates/minikalman/src/observations/extended.rs | 6 +++++-
 crates/minikalman/src/observations/regular.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/minikalman/src/observations/extended.rs b/crates/minikalman/src/observations/extended.rs
index 805e56e..611c450 100644
--- a/crates/minikalman/src/observations/extended.rs
+++ b/crates/minikalman/src/observations/extended.rs
@@ -408,7 +408,11 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        if !S.cholesky_decompose_lower() {
+            // S is not positive-definite and has no usable inverse;
+            // leave the state and its covariance as they are.
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
diff --git a/crates/minikalman/src/observations/regular.rs b/crates/minikalman/src/observations/regular.rs
index 1f20d82..5edb23c 100644
--- a/crates/minikalman/src/observations/regular.rs
+++ b/crates/minikalman/src/observations/regular.rs
@@ -396,7 +396,11 @@ where
         //* K = P*Hᵀ * S^-1
 
         // K = P*Hᵀ * S^-1
-        S.cholesky_decompose_lower();
+        if !S.cholesky_decompose_lower() {
+            // S is not positive-definite and has no usable inverse;
+            // leave the state and its covariance as they are.
+            return;
+        }
         S.invert_l_cholesky(S_inv); // S_inv = S^-1
                                     // NOTE that to allow aliasing of Sinv and temp_PHt, a copy must be performed here
         P.mult_transb(H, temp_PHt); // temp = P*H'
-- 
2.43.0


From f5de7f1014e4a25c23ee9bda49705057cddea861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 07/10] fix: do not compute the unused scaled diagonal in the
 Cholesky decomposition, which can overflow in fixed point

---
 crates/minikalman/src/matrix/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1fb8da2..b37f36d 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -1149,7 +1149,6 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                     j_el += 1;
                 }
 
-                t[idx!(j * n + i)] = sum * div_el_ii;
                 if i == j {
                     // is it positive-definite?
                     if sum <= T::zero() {
@@ -1159,6 +1158,8 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                     let el_ii = sum.square_root();
                     t[idx!(i * n + i)] = el_ii;
                     div_el_ii = el_ii.recip();
+                } else {
+                    t[idx!(j * n + i)] = sum * div_el_ii;
                 }
             }
         }
-- 
2.43.0


From f72bd6a1081e13d0afb1ca0c718a0237e94ad003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 08/10] fix: copying a row or column of a matrix without cells
 no longer underflows

---
 crates/minikalman/src/matrix/traits.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index b37f36d..2d855ae 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -74,6 +74,11 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
+        // a matrix without rows has nothing to copy
+        if self.rows() == 0 {
+            return;
+        }
+
         // start from the back, so target index is equal to the index of the last row.
         let mut target_index: isize = (self.rows() - 1) as _;
 
@@ -104,6 +109,11 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
     where
         T: Copy,
     {
+        // a matrix without columns has nothing to copy
+        if self.cols() == 0 {
+            return;
+        }
+
         let mut target_index: usize = (self.cols() - 1) as _;
         let mut source_index: usize = (row + 1) * self.cols() - 1;
 
-- 
2.43.0


From 58fc96684caf26bc8a27c2fdee6e04ffdf66989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 09/10] fix: matrix-vector products accept matrices without
 columns

---
 crates/minikalman/src/matrix/traits.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 2d855ae..a8b6adc 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -380,6 +380,14 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let xdata = x.as_slice();
         let cdata = c.as_mut_slice();
 
+        // without columns there is nothing to sum up
+        if acols == 0 {
+            for index_c in 0..arows {
+                cdata[idx!(index_c)] = T::zero();
+            }
+            return;
+        }
+
         let mut index_a: usize = 0;
         let b0 = xdata[0];
 
@@ -432,6 +440,11 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let xdata = x.as_slice();
         let cdata = c.as_mut_slice();
 
+        // without columns there is nothing to add
+        if acols == 0 {
+            return;
+        }
+
         let mut index_a: usize = 0;
         let b0 = xdata[0];
 
-- 
2.43.0


From 6093e199ce080ac4909f77b96153a0454ae640c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:51 +0000
Subject: [PATCH 10/10] fix: a pivot that is not a number does not make a
 matrix positive-definite

---
 crates/minikalman/src/matrix/traits.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index a8b6adc..75d3028 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -1,5 +1,6 @@
 use crate::matrix::MatrixDataType;
 use crate::prelude::{RowMajorSequentialData, RowMajorSequentialDataMut};
+use core::cmp::Ordering;
 use core::ops::{Index, IndexMut};
 use num_traits::{One, Zero};
 
@@ -1173,8 +1174,8 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                 }
 
                 if i == j {
-                    // is it positive-definite?
-                    if sum <= T::zero() {
+                    // is it positive-definite? (A pivot that is not a number is not positive.)
+                    if sum.partial_cmp(&T::zero()) != Some(Ordering::Greater) {
                         return false;
                     }
 
-- 
2.43.0

