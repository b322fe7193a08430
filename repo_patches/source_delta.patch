From 73ac83977430c43be9904a0dad7b941af324a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 1/5] fix: reject out-of-bounds columns when accessing DMatrix
 entries

Indexing a DMatrix (or reading it through entry()) with a column beyond
the last one silently addressed an element of a following row.
---
 src/linalg/dmatrix.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..7698fc0 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -520,6 +520,19 @@ pub struct DMatrix<T> {
     num_cols: usize,
 }
 
+impl<T> DMatrix<T> {
+    /// Returns the position of an entry in the row-major storage.
+    ///
+    /// Panics, if the row or the column is out of bounds.
+    fn offset(&self, row: usize, col: usize) -> usize {
+        assert!(
+            row < self.num_rows && col < self.num_cols,
+            "Matrix index out of bounds"
+        );
+        row * self.num_cols + col
+    }
+}
+
 impl<T> MatrixExpr for DMatrix<T>
 where
     T: Clone,
@@ -527,7 +540,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.offset(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -550,7 +563,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self.data[self.offset(row, col)].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -653,7 +666,7 @@ impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
-        &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        &self.data[self.offset(row_and_col[0], row_and_col[1])]
     }
 }
 
@@ -668,7 +681,8 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
-        &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        let offset = self.offset(row_and_col[0], row_and_col[1]);
+        &mut self.data[offset]
     }
 }
 
-- 
2.43.0


From 57069dc4229d7d0459f1d3b2b581618154d36290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 2/5] fix: reject dimension mismatches in += and -= of dynamic
 vectors and matrices

The binary operators + and - assert that the dimensions agree, but the
in-place operators silently ignored excess entries of the right hand side
or panicked after having modified a part of the left hand side.
---
 src/linalg/dmatrix.rs | 4 ++++
 src/linalg/dvector.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index 7698fc0..e4dc50c 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -727,6 +727,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -770,6 +772,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From 5975b6ec38d20b654fc3d6c6253dbb0cbe0660ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 3/5] fix: reject length mismatches in the inner product of
 dynamic vectors

Excess entries of the longer vector were silently dropped.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From 98c262eb3dcfe7d9c22379db61209da5243b538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 4/5] fix: ignore leading zero coefficients when comparing
 polynomials

Polynomials were compared by their coefficient arrays, so p - p was not
equal to Polynomial::zero() and Polynomial violated the laws of a Ring.
---
 src/algebra/polynomial.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..7d31130 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,22 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+impl<T: Ring> PartialEq for Polynomial<T> {
+    /// Leading zero coefficients do not affect the comparison.
+    fn eq(&self, other: &Self) -> bool {
+        let common = self.a.len().min(other.a.len());
+        let mut excess = self.a[common..].iter().chain(&other.a[common..]);
+        self.a[..common] == other.a[..common] && excess.all(|x| *x == T::zero())
+    }
+}
+
+impl<T: Ring + Eq> Eq for Polynomial<T> {}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0


From 9af2b8f891c6db53b387542f426955200b86eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 5/5] fix: do not overflow when subtracting polynomials with
 minimal coefficients

Subtraction negated the right hand side first, which overflows for
coefficients like i8::MIN even if the difference is representable.
---
 src/algebra/polynomial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 7d31130..025424a 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -173,8 +173,9 @@ fn test_add_assign_for_ref_polynomials_of_ints() {
 impl<T: Ring> std::ops::Sub for Polynomial<T> {
     type Output = Self;
 
-    fn sub(self, rhs: Self) -> Self {
-        self + -rhs
+    fn sub(mut self, rhs: Self) -> Self {
+        self -= &rhs;
+        self
     }
 }
 
@@ -188,7 +189,7 @@ fn test_sub_for_polynomials_of_int() {
 
 impl<T: Ring> std::ops::SubAssign for Polynomial<T> {
     fn sub_assign(&mut self, rhs: Self) {
-        *self += -rhs
+        *self -= &rhs;
     }
 }
 
-- 
2.43.0

