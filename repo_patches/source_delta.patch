From c45e3f37d55b2d0e8d17348d614f31da4f731808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 01/10] fix: reject variance and frequency weights of the wrong
 length in build()

---
 src/model.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..2d6c667 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -202,6 +202,21 @@ where
                 "Offsets must have same dimension as observations".to_string(),
             ));
         }
+        // Likewise for both kinds of weights
+        if let Some(weights) = &self.var_weights
+            && n_data != weights.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Variance weights must have same dimension as observations".to_string(),
+            ));
+        }
+        if let Some(freqs) = &self.freq_weights
+            && n_data != freqs.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Frequency weights must have same dimension as observations".to_string(),
+            ));
+        }
 
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
-- 
2.43.0


From 5ada50d0a325a8a14ee94be0ca4c2374ac33bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 02/10] fix: reject NaN responses for exponential, gamma and
 inverse Gaussian

---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..6f10c37 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..4e91412 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..08629f5 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if !(self > 0.) {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
-- 
2.43.0


From 15b81271b789eec0e608caffc36e10dc8d7639c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 03/10] fix: do not mark a no-intercept model as having one in
 the drop-one refit

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..34a2083 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1021,7 +1021,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 9f0193968d20efeffd707c9825b6caecd299b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 04/10] fix: use unit scales instead of panicking when the
 effective sample size is at most one

---
 src/data.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..d52e329 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -319,10 +319,11 @@ where
             x_w.sum_axis(Axis(0)) / sum_weights
         };
 
-        let vars: Array1<F> = if n <= 1 {
+        // The sample variance is undefined without more than one effective observation, which can
+        // also occur for multiple rows if there are zero weights.
+        let vars: Array1<F> = if n <= 1 || !(n_eff > F::one()) {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From 983fd7c7c1881c0e13e05a78cc06b9090f419b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 05/10] fix: do not index the empty null parameters of a model
 with no parameters

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 34a2083..a3fd6e4 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -594,7 +594,9 @@ where
                     let null_like_total = self.data.sum_weights() * null_like_one;
                     let null_params: Array1<F> = {
                         let mut par = Array1::<F>::zeros(self.n_par);
-                        par[0] = intercept;
+                        if self.data.has_intercept {
+                            par[0] = intercept;
+                        }
                         par
                     };
                     (null_like_total, null_params)
-- 
2.43.0


From 367f5f85b112a283ca41b3f2e9f4e78a7921a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 06/10] fix: keep the ADMM augmentation out of the Fisher
 information

---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index a3fd6e4..44a5825 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -330,7 +330,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().fisher_mat(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..9a1f9ed 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Adds the curvature of the smooth part of the penalty to the Fisher information. Under ADMM
+    /// this must not include the augmentation terms that are used in the IRLS update equation.
+    fn fisher_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty has no curvature.
+    fn fisher_mat(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 penalty is smooth.
+    fn fisher_mat(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From 15b0a557f2ec3ac227f1b89f5fc868fd44b0b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:45 +0000
Subject: [PATCH 07/10] fix: keep the penalty out of the deviances compared by
 R squared

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 44a5825..554f52a 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -973,7 +973,9 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
+        // The deviances are unregularized, so the penalty in the model likelihood cannot be included.
+        let like = <Linear as Glm>::log_like(self.data, &self.result_std);
+        let lr = F::two() * (like - self.null_like());
         lr / (lr + self.deviance())
     }
 
-- 
2.43.0


From 9e71a3c1da4b247d0e8e09784651bdcd6af76836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 08/10] fix: reject binomial responses greater than N

---
 src/response/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..a00659b 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From 9988f984d68d25f009b2b9e3ca8d7317f5ee2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 09/10] fix: do not panic in p-values of saturated models

Student's t and the F distribution do not exist with zero residual degrees
of freedom, so pvalue_wald and pvalue_exact panicked on a saturated fit of a
family with free dispersion. Their p-values are now NaN.
---
 src/fit.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 554f52a..1ecfc58 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1106,7 +1106,11 @@ where
             DispersionType::FreeDispersion => {
                 use statrs::distribution::StudentsT;
                 let df = self.ndf().to_f64().unwrap();
-                let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
+                // There is no reference distribution without residual degrees of freedom, as in a
+                // saturated model.
+                let Ok(t_dist) = StudentsT::new(0.0, 1.0, df) else {
+                    return Ok(z.mapv(|_| F::nan()));
+                };
                 z.mapv(|zi| {
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
                     F::from(2.0 * t_dist.sf(abs_z)).unwrap()
@@ -1146,8 +1150,12 @@ where
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
                     let f_stat = delta_d / phi_full;
-                    let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
-                    f_dist.sf(f_stat.to_f64().unwrap())
+                    // There is no reference distribution without residual degrees of freedom, as
+                    // in a saturated model.
+                    match FisherSnedecor::new(1.0, ndf_f64) {
+                        Ok(f_dist) => f_dist.sf(f_stat.to_f64().unwrap()),
+                        Err(_) => f64::NAN,
+                    }
                 }
             };
             pvals[k] = F::from(p).unwrap();
-- 
2.43.0


From 4ec4771f191106c4b3338c6439cd51696de7d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:32 +0000
Subject: [PATCH 10/10] fix: deviance residuals of exactly fitted observations
 were NaN

An observation's deviance term is nonnegative, but for an observation that
the model fits exactly it can round to a slightly negative number, whose
square root made the deviance and studentized residuals NaN.
---
 src/fit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 1ecfc58..6ebd16d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -698,7 +698,7 @@ where
     pub fn resid_dev(&self) -> Array1<F> {
         let signs = self.resid_resp().mapv_into(F::signum);
         let ll_diff = self.deviance_terms();
-        let dev: Array1<F> = ll_diff.clone().mapv_into(num_traits::Float::sqrt);
+        let dev: Array1<F> = ll_diff.mapv(|d| num_traits::Float::sqrt(non_negative(d)));
         signs * dev
     }
 
@@ -822,7 +822,7 @@ where
     /// detection.
     pub fn resid_student(&self) -> RegressionResult<Array1<F>, F> {
         let signs = self.resid_resp().mapv(F::signum);
-        let dev_terms_loo: Array1<F> = self.deviance_terms_loo()?;
+        let dev_terms_loo: Array1<F> = self.deviance_terms_loo()?.mapv_into(non_negative);
         // NOTE: This match could also be handled internally in dispersion_loo()
         let dev_terms_scaled = match M::DISPERSED {
             // The dispersion is corrected for the contribution from each current point.
@@ -1217,6 +1217,11 @@ where
     }
 }
 
+/// Rounding can leave the deviance term of an exactly fitted observation slightly below zero.
+fn non_negative<F: Float>(d: F) -> F {
+    if d < F::zero() { F::zero() } else { d }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

