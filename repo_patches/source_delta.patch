From 618768cf939f04c382aee9da7c64998bb9b1ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 01/12] fix: csr_has_sorted_indices no longer underflows on
 leading empty rows

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From 2169c6dddbb33511304798b147e228a3e3f53635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 02/12] fix: csr_has_canonical_format no longer overflows an
 index type filled by the stored count

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 7e0a8a740c29249865e1b5aff8c212f53614f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 03/12] fix: pass rowidx and colptr to CSC::new in the right
 order in CSC operators

---
 src/csc/std_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From 5c683237398b3c4e4230248901b9b3cb9b7a1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 04/12] fix: CSR::to_coo leaves out storage beyond the stored
 count

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..d4111cc 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -364,13 +364,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     pub fn to_coo(&self) -> Coo<I, T> {
         // let values = vec![T::zero(); self.values.len()];
         // copy(values, self.values);
-        let values = self.values.clone();
+        let nnz = self.nnz();
+        let values = self.values[..nnz].to_vec();
 
         // let colidx = vec![I::zero(); self.colidx.len()];
         // copy(colidx, self.colidx);
-        let colidx = self.colidx.clone();
+        let colidx = self.colidx[..nnz].to_vec();
 
-        let mut rowidx = vec![I::zero(); self.colidx.len()];
+        let mut rowidx = vec![I::zero(); nnz];
 
         expandptr(self.rows, &self.rowptr, &mut rowidx);
 
-- 
2.43.0


From a819aff0bec12577e5d33dbc21cd28e098f81d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 05/12] fix: CSR and CSC addition and subtraction operators
 reject mismatching shapes

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From 887f1dea467efaf29ae1666a1b73045bdc2792bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 06/12] fix: csr_count_diagonals counts diagonals below the
 main one

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..d5760eb 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_usize().unwrap() as isize - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From e9d88360dae8e85b541fdc0d69d904e8b46d8a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 07/12] fix: strong components of a graph without nodes

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..ac4e9e8 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,10 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
+
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 14d2013cf2547dd21569468960b9c6e604ea9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 08/12] fix: from_dense accepts an array without rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..a39232d 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index d4111cc..d5f3a59 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = if rows > 0 { a[0].len() } else { 0 };
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From 86001380a74049649fe2a3b9b51dc423332f38ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 09/12] fix: cs_graph_components returns no components for a
 graph without entries

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index ac4e9e8..7be4cdd 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -361,6 +361,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp); // no node stores an entry
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From 499398399c9d89fb8567d03ad83c3afd4dc1eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 10/12] fix: strong components no longer loop a repeated edge
 onto the DFS stack head

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 7be4cdd..b1bcdf2 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -188,7 +188,7 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From 42fc7dd4474957e7dfa7f5c72ab4679d1af61888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 11/12] fix: count newly reached nodes of a component in usize

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index b1bcdf2..dedd365 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -385,7 +385,7 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         let mut n_pos_new = n_pos;
 
         for _ii in 0..n_nod {
-            let mut n_new = 0;
+            let mut n_new: usize = 0;
             for ir in n_pos0..n_pos {
                 let pos_ir = pos[ir].to_usize().unwrap();
                 let start = a_p[pos_ir].to_usize().unwrap();
-- 
2.43.0


From f5ca4cf6ba3422be90600c0c5fde50fb42ba9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 12/12] fix: complex table cells showed the sign of a negative
 imaginary part twice

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0

