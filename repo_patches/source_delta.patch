From 7c14a3e24b645f4a6c93412c80eaac3755340a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 01/11] fix: report the actual stride of strided matrix layouts

---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 9d6cbe18ce90b93287b9017de9ca3da73d377a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 02/11] fix: return zero-based positions from convert_1d_2d of
 vector layouts

---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..210ac49 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 93ce8c904ade4e53b39764f461098c12b3c3137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 03/11] fix: ColumnVector::from_dimension requires one column,
 not one row

---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 210ac49..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From d853151607d0d662b00c722e68405cfe02daf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 04/11] fix: allow empty dimensions in from_pointer of strided
 matrices

---
 src/matrix/constructors.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..0ecb449 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
-- 
2.43.0


From d447cff0e5c92d11ede865bf9370b76f67a8ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 05/11] fix: reject block requests whose corner overflows and
 allow empty blocks

---
 src/matrix/matrix_slices.rs | 38 +++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..1af8ec4 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -21,14 +21,21 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
+                let mat_dim = self.layout().dim();
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
+                    (top_left.0 <= mat_dim.0 && dim.0 <= mat_dim.0 - top_left.0)
+                        && (top_left.1 <= mat_dim.1 && dim.1 <= mat_dim.1 - top_left.1),
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
+                    mat_dim
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                // An empty block has no first element to point to.
+                let start_index = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    self.layout().convert_2d_raw(top_left.0, top_left.1)
+                };
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                         self.get_pointer().add(start_index),
@@ -50,14 +57,21 @@ macro_rules! block_matrix {
                 top_left: (IndexType, IndexType),
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
+                let mat_dim = self.layout().dim();
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
-                    self.layout().dim()
+                    (top_left.0 <= mat_dim.0 && dim.0 <= mat_dim.0 - top_left.0)
+                        && (top_left.1 <= mat_dim.1 && dim.1 <= mat_dim.1 - top_left.1),
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
+                    mat_dim
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                // An empty block has no first element to point to.
+                let start_index = if dim.0 == 0 || dim.1 == 0 {
+                    0
+                } else {
+                    self.layout().convert_2d_raw(top_left.0, top_left.1)
+                };
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
-- 
2.43.0


From 2c2086b7913fbb043202fedfdb631bf791d26fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 06/11] fix: check the split position in split_in_four_mut

---
 src/matrix/matrix_slices.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 1af8ec4..e24c2f1 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -110,6 +110,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    split_at.0 <= dim.0 && split_at.1 <= dim.1,
+                    "Split position {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
@@ -122,10 +128,19 @@ macro_rules! subdivide_matrix {
                 let origin2 = (split_at.0, 0);
                 let origin3 = split_at;
 
-                let start0 = self.layout().convert_2d_raw(origin0.0, origin0.1) as isize;
-                let start1 = self.layout().convert_2d_raw(origin1.0, origin1.1) as isize;
-                let start2 = self.layout().convert_2d_raw(origin2.0, origin2.1) as isize;
-                let start3 = self.layout().convert_2d_raw(origin3.0, origin3.1) as isize;
+                // An empty part has no first element to point to.
+                let start = |origin: (usize, usize), dim: (usize, usize)| {
+                    if dim.0 == 0 || dim.1 == 0 {
+                        0
+                    } else {
+                        self.layout().convert_2d_raw(origin.0, origin.1) as isize
+                    }
+                };
+
+                let start0 = start(origin0, dim0);
+                let start1 = start(origin1, dim1);
+                let start2 = start(origin2, dim2);
+                let start3 = start(origin3, dim3);
 
                 let blocks = unsafe {
                     (
-- 
2.43.0


From 51b315d2366959e3fa2e3acdeccafd497f9bf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 07/11] fix: require all elements of a base matrix to lie
 inside its container

---
 src/base_matrix.rs                            | 15 ++++++++++++---
 src/layouts/arbitrary_stride_column_major.rs  | 11 +++++++++++
 src/layouts/arbitrary_stride_column_vector.rs |  8 ++++++++
 src/layouts/arbitrary_stride_row_major.rs     | 11 +++++++++++
 src/layouts/arbitrary_stride_row_vector.rs    |  8 ++++++++
 5 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..25b92ce 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -36,11 +36,20 @@ impl<
     > BaseMatrix<Item, Data, L, RS, CS>
 {
     pub fn new(data: Data, layout: L) -> Self {
+        let dim = layout.dim();
         assert!(
-            layout.number_of_elements() <= data.number_of_elements(),
-            "Number of elements in data: {}. But layout number of elements is {})",
+            dim.0.checked_mul(dim.1).is_some(),
+            "Number of elements overflows for layout with dim {:?}",
+            dim,
+        );
+        // The last element has the largest raw position.
+        let nelems = layout.number_of_elements();
+        assert!(
+            nelems == 0 || layout.convert_1d_raw(nelems - 1) < data.number_of_elements(),
+            "Number of elements in data: {}. But layout with dim {:?} and {} elements needs more",
             data.number_of_elements(),
-            layout.number_of_elements(),
+            dim,
+            nelems,
         );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..9cf3317 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,17 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        if dim.0 > 0 && dim.1 > 0 {
+            let row_offset = (dim.0 - 1).checked_mul(stride.0);
+            let col_offset = (dim.1 - 1).checked_mul(stride.1);
+            let last = row_offset.and_then(|row| col_offset.and_then(|col| row.checked_add(col)));
+            assert!(
+                last.is_some(),
+                "Raw positions overflow for dim {:?} and stride {:?}",
+                dim,
+                stride
+            );
+        }
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..a6d21d0 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,14 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        if dim > 0 {
+            assert!(
+                (dim - 1).checked_mul(stride).is_some(),
+                "Raw positions overflow for dim {} and stride {}",
+                dim,
+                stride
+            );
+        }
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..49d88be 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,17 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        if dim.0 > 0 && dim.1 > 0 {
+            let row_offset = (dim.0 - 1).checked_mul(stride.0);
+            let col_offset = (dim.1 - 1).checked_mul(stride.1);
+            let last = row_offset.and_then(|row| col_offset.and_then(|col| row.checked_add(col)));
+            assert!(
+                last.is_some(),
+                "Raw positions overflow for dim {:?} and stride {:?}",
+                dim,
+                stride
+            );
+        }
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..51f298a 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,14 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        if dim > 0 {
+            assert!(
+                (dim - 1).checked_mul(stride).is_some(),
+                "Raw positions overflow for dim {} and stride {}",
+                dim,
+                stride
+            );
+        }
         Self { dim, stride }
     }
 }
-- 
2.43.0


From f09fd2445a9c34506cfcfa7451f6383c0760658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 08/11] fix: length of a base row vector is its number of
 columns

---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 25b92ce..6978e78 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -158,7 +158,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.number_of_elements()
             }
         }
     };
-- 
2.43.0


From 7a829d6a9ef0cda4a05f81472a14276858d9a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 09/11] fix: refuse base matrices whose layout contradicts
 their fixed size

---
 src/base_matrix.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index 6978e78..1064c5c 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -42,6 +42,13 @@ impl<
             "Number of elements overflows for layout with dim {:?}",
             dim,
         );
+        assert!(
+            (RS::N == 0 || RS::N == dim.0) && (CS::N == 0 || CS::N == dim.1),
+            "Layout with dim {:?} contradicts the fixed dimension ({}, {})",
+            dim,
+            RS::N,
+            CS::N,
+        );
         // The last element has the largest raw position.
         let nelems = layout.number_of_elements();
         assert!(
-- 
2.43.0


From 6da27a8d050154052a32a4ff5de27fa401187b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 10/11] fix: correct rounding in UpperTriangular::convert_1d_2d
 for large indices

---
 src/layouts/upper_triangular.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..4f7dfc8 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -25,6 +25,14 @@ impl LayoutType for UpperTriangular {
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
         let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));
         let p = f64::floor(p) as IndexType;
+        // Correct the rounding error of the floating point estimate.
+        let p = if (p * (p + 1)) / 2 > index {
+            p - 1
+        } else if ((p + 1) * (p + 2)) / 2 <= index {
+            p + 1
+        } else {
+            p
+        };
         (
             self.dim - 1 - p,
             self.dim - 1 - p + index - (p * (p + 1)) / 2,
-- 
2.43.0


From 6dfd708c1a420f1e96abd2ad5e87f8dc072ab117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 11/11] fix: evaluate the dimension argument of mat! only once

---
 src/macros.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 86568dc..203222f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -6,24 +6,26 @@ macro_rules! mat {
     ($ScalarType:ty, $dim:expr) => {
         mat![$ScalarType, $dim, RowMajor]
     };
-    ($ScalarType:ty, $dim:expr, RowMajor) => {
+    ($ScalarType:ty, $dim:expr, RowMajor) => {{
+        let dim = &$dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::RowMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
-    ($ScalarType:ty, $dim:expr, ColumnMajor) => {
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
+    ($ScalarType:ty, $dim:expr, ColumnMajor) => {{
+        let dim = &$dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::ColumnMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
 }
 
 #[macro_export]
-- 
2.43.0

