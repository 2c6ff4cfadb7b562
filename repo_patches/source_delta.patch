From c0c019bafb5452993669c27a5380a02c4c2a3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 01/16] fix: build the Anderson extrapolation system over
 iterates, not features

C must be the K x K Gram matrix of the iterate differences. It was computed
over the features instead, so the extrapolation coefficients were wrong and
any problem with fewer (working-set) coefficients than K panicked with an
out-of-bounds index.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 8c9e6604e584de1060b3c4109b2176e3b378c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 02/16] fix: return zero, not NaN, from block soft-thresholding
 of a zero vector

With a zero threshold and a zero vector the scale was 1 - 0/0.
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..24457f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From bb750b9575b1b26be72a62656957d7c24a6a8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 03/16] fix: return zero, not NaN, from the L0.5 prox of zero
 with a zero threshold

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 24457f9..1e460ef 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From bd0d0d785c750489c6368e9d5141dbe69ce5b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 04/16] fix: use the gradient norm, not its square, in the
 block L1+L2 score of a zero row

The squared norm under-estimates small violations, so the solver stopped
with rows that should be non-zero still at zero.
---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 9a994e8aea01f82c3aa6d9395fcbe67ce4851d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 05/16] fix: include the gradient in the block MCP score of a
 non-zero row

---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..9c4f4d0 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + w_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From 8df151fa43ae9eb4b6b451dd232c4182becf5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 06/16] fix: reject gamma below 1 for the block MCP estimator,
 as for MCP

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From a7f551e0b85cef0fef38f73a179ecd479f57b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:25 +0000
Subject: [PATCH 07/16] fix: pivot in the linear system solver

A null pivot in a non-singular matrix was skipped, leaving entries below the
diagonal: the solver then returned a wrong solution as Ok, or reported the
system as singular.
---
 src/utils/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e460ef..cf7f9f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -127,6 +127,18 @@ pub mod helpers {
 
         // Echelon form
         for i in 0..size - 1 {
+            // Partial pivoting: a null pivot does not mean that the matrix is singular
+            let mut pivot = i;
+            for j in i + 1..size {
+                if system[[j, i]].abs() > system[[pivot, i]].abs() {
+                    pivot = j;
+                }
+            }
+            if pivot != i {
+                for k in 0..size + 1 {
+                    system.swap([i, k], [pivot, k]);
+                }
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From d5df069552e4ab80e9296e016e0c224f0cb26bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 08/16] fix: raise ValueError for invalid hyperparameters
 instead of panicking in Python

---
 python/src/block_mcp.rs              | 11 +++++++++--
 python/src/elastic_net.rs            | 11 +++++++++--
 python/src/lasso.rs                  | 11 +++++++++--
 python/src/mcp.rs                    | 11 +++++++++--
 python/src/mtl_lasso.rs              | 11 +++++++++--
 python/src/multi_task_elastic_net.rs | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/src/block_mcp.rs b/python/src/block_mcp.rs
index 511868e..fb1acc4 100644
--- a/python/src/block_mcp.rs
+++ b/python/src/block_mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl BlockMCPWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl BlockMCPWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/elastic_net.rs b/python/src/elastic_net.rs
index be404f9..f21e0e7 100644
--- a/python/src/elastic_net.rs
+++ b/python/src/elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl ElasticNetWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl ElasticNetWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/lasso.rs b/python/src/lasso.rs
index c022cbe..41b44d1 100644
--- a/python/src/lasso.rs
+++ b/python/src/lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl LassoWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl LassoWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mcp.rs b/python/src/mcp.rs
index 23a1bc6..960cfbc 100644
--- a/python/src/mcp.rs
+++ b/python/src/mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MCPWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MCPWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mtl_lasso.rs b/python/src/mtl_lasso.rs
index 3aa75bf..1d4ce82 100644
--- a/python/src/mtl_lasso.rs
+++ b/python/src/mtl_lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl MultiTaskLassoWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl MultiTaskLassoWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/multi_task_elastic_net.rs b/python/src/multi_task_elastic_net.rs
index ef91cac..76824a5 100644
--- a/python/src/multi_task_elastic_net.rs
+++ b/python/src/multi_task_elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MultiTaskElasticNetWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MultiTaskElasticNetWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
-- 
2.43.0


From 36acff270da7a857bae6451c953d069b5d97b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 09/16] fix: check gamma and l1_ratio, not alpha, in the Python
 constructors

---
 python/sparseglm/estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..8c4d317 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From e1502b8295b4b5fcd02f169bceaa1ff88ea73c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 10/16] fix: let predict run on a fitted estimator

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8c4d317..9091cb3 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From b7c5cb70644856877af30b4559241adcf3649c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 11/16] fix: reject X and y of different lengths in the
 single-task Python estimators

---
 python/sparseglm/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9091cb3..0ffd330 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -4,7 +4,7 @@ import scipy.sparse as sp
 from . import _lib
 
 from sklearn.base import BaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 
 __all__ = [
@@ -113,6 +113,7 @@ class Lasso(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
@@ -292,6 +293,7 @@ class MCPRegressor(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
@@ -481,6 +483,7 @@ class ElasticNet(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
-- 
2.43.0


From 970113e4c1b5f6365e82057583e1567ea8b2f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:56 +0000
Subject: [PATCH 12/16] fix: convert single-precision designs, which the
 extension cannot take, to double

---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 0ffd330..7b9f729 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -190,7 +190,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -289,7 +289,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -379,7 +379,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -479,7 +479,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -569,7 +569,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From ccee0b488e84b9111569cc63bbcbd5138e56206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:07 +0000
Subject: [PATCH 13/16] fix: accept a one-dimensional w_true in
 make_correlated_data

---
 python/sparseglm/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..0b9bd6f 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -95,6 +95,8 @@ def make_correlated_data(
         w_true = np.zeros((n_features, n_tasks))
         support = rng.choice(n_features, nnz, replace=False)
         w_true[support, :] = rng.randn(nnz, n_tasks)
+    elif w_true.ndim == 1:
+        w_true = w_true.reshape(-1, 1)
 
     Y = X @ w_true
     if snr != np.inf:
-- 
2.43.0


From 6e90e00fd04de464c0f9789e306c7c6954ab9159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:17 +0000
Subject: [PATCH 14/16] fix: rank and stop on the fixed point violation with
 the L0.5 penalty

---
 src/penalties/separable/mod.rs | 45 ++++++++++++++++++++++++++++++++++
 src/solvers/anderson_cd/mod.rs |  3 ++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index d2b0c3c..b3efa26 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -31,6 +31,22 @@ pub trait Penalty<F: Float> {
         grad: ArrayView1<F>,
         ws: ArrayView1<usize>,
     ) -> (Array1<F>, F);
+
+    /// This method scores how far each feature is from optimality. It is used to
+    /// stop the solver and to build the working set.
+    ///
+    /// It defaults to the distance to the subdifferential. Penalties for which this
+    /// distance is uninformative can rely on another criterion, using the Lipschitz
+    /// constants of the datafit (indexed by feature).
+    fn optimality_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+        _lipschitz: ArrayView1<F>,
+    ) -> (Array1<F>, F) {
+        self.subdiff_distance(w, grad, ws)
+    }
 }
 
 /// The L1 penalty
@@ -276,6 +292,35 @@ impl<F: Float> Penalty<F> for L05<F> {
     ) -> (Array1<F>, F) {
         (Array1::<F>::zeros(ws.len()), F::zero())
     }
+
+    /// Computes the violation of the fixed point iterate schema
+    ///
+    /// violation[j] = |w[j] - prox(w[j] - grad[j] / L[j], 1 / L[j])|
+    ///
+    /// Features with a null Lipschitz constant are never updated.
+    fn optimality_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+        lipschitz: ArrayView1<F>,
+    ) -> (Array1<F>, F) {
+        let violation = Array1::from_vec(
+            grad.iter()
+                .zip(ws)
+                .map(|(&grad_idx, &j)| match lipschitz[j] == F::zero() {
+                    true => F::zero(),
+                    false => {
+                        let step_size = F::one() / lipschitz[j];
+                        (w[j] - self.prox(w[j] - grad_idx * step_size, step_size)).abs()
+                    }
+                })
+                .collect(),
+        );
+        let max_violation =
+            violation.fold(F::neg_infinity(), |max_val, &dist| F::max(max_val, dist));
+        (violation, max_violation)
+    }
 }
 
 // SCAD penalty
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 8c31418..975f4b7 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -51,7 +51,8 @@ where
     P: Penalty<F>,
 {
     let grad_ws = construct_grad(dataset, Xw, ws, datafit);
-    let (kkt_ws, kkt_ws_max) = penalty.subdiff_distance(w, grad_ws.view(), ws);
+    let (kkt_ws, kkt_ws_max) =
+        penalty.optimality_violation(w, grad_ws.view(), ws, datafit.step_size());
     (kkt_ws, kkt_ws_max)
 }
 
-- 
2.43.0


From 08f5648af4139193b74e1374588c5a46ea7782ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:17 +0000
Subject: [PATCH 15/16] fix: name the offending value in the Python
 hyperparameter error

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 7b9f729..c2e391d 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -35,7 +35,7 @@ class Estimator(BaseEstimator):
         def _check_types(var, type, var_name):
             if not isinstance(var, type) or var < 0:
                 raise ValueError("{}={} must be a positive {}."
-                                 .format(var_name, self.alpha, type))
+                                 .format(var_name, var, type))
         _check_types(self.K, int, "K")
         _check_types(self.p0, int, "p0")
         _check_types(self.tol, float, "tol")
-- 
2.43.0


From c11610b1f2684728b16fc0d8bceae0e1e46ed83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:02 +0000
Subject: [PATCH 16/16] fix: the logistic loss overflowed to infinity for large
 negative margins

---
 src/datafits/single_task/mod.rs | 8 +++-----
 src/utils/mod.rs                | 5 +++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/datafits/single_task/mod.rs b/src/datafits/single_task/mod.rs
index d319480..d83d27c 100644
--- a/src/datafits/single_task/mod.rs
+++ b/src/datafits/single_task/mod.rs
@@ -1,10 +1,8 @@
-use std::f64::consts::E;
-
 use ndarray::{s, Array1, ArrayBase, ArrayView1, Axis, Data, Ix2};
 
 use super::Float;
 use crate::datasets::{csc_array::CSCArray, AsSingleTargets, DatasetBase, DesignMatrix};
-use crate::utils::helpers::sigmoid;
+use crate::utils::helpers::{log_one_plus_exp, sigmoid};
 
 #[cfg(test)]
 mod tests;
@@ -218,7 +216,7 @@ impl<F: Float, D: Data<Elem = F>, T: AsSingleTargets<Elem = F>> Datafit<F, Array
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log_one_plus_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
@@ -284,7 +282,7 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log_one_plus_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index cf7f9f9..8672b2f 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -182,6 +182,11 @@ pub mod helpers {
     pub fn sigmoid<F: Float>(x: F) -> F {
         F::one() / (F::one() + F::exp(-x))
     }
+
+    /// This function computes log(1 + exp(x)) without overflowing for large values of x.
+    pub fn log_one_plus_exp<F: Float>(x: F) -> F {
+        F::max(x, F::zero()) + F::ln_1p(F::exp(-x.abs()))
+    }
 }
 
 /// This module contains helpers functions to efficiently write tests.
-- 
2.43.0

