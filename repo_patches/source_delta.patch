From eef71a260974a81d38a90ef55f00031805e90e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 01/49] fix: relative density of two zero-sized measures is no
 longer short-cut to 0

The pointer comparison of the two fields is also true for two distinct
zero-sized measures (e.g. FactorialMeasure with respect to CountingMeasure).
---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From e3804a63c44d41770993dcdbe70c26bd1d4310d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 02/49] fix: log-partition of Exponential is -log(rate)

With the wrong sign the natural form disagreed with the density.
---
 .../src/distributions/continuous/exponential.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..3209725 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,7 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From 1352ebb0b708f983f9a5e69a80ace1590e33428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 03/49] fix: log-partition of Geometric accounts for support
 starting at 1

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..f33840e 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
+        let log_partition = natural_param[0] - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From f1b7912b917ca7b36a3ce0e0091d34be266016c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 04/49] fix: Binomial log-density includes the binomial
 coefficient

The density with respect to the counting measure is C(n,k) p^k (1-p)^(n-k);
also no NaN from 0*log(0) at p = 0 or p = 1.
---
 .../src/distributions/discrete/binomial.rs    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..0f3154e 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,20 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            // An outcome that does not occur contributes nothing, even when its
+            // probability is 0 (0 * log(0) would be NaN)
+            let successes = if *x == 0 {
+                T::zero()
+            } else {
+                k * self.prob.ln()
+            };
+            let failures = if *x == self.n {
+                T::zero()
+            } else {
+                (n - k) * (T::one() - self.prob).ln()
+            };
+
+            log_binomial_coefficient::<T>(self.n, *x) + successes + failures
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From 9675b5993ca0993b0dacc8412e5340b3ee703edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 05/49] fix: NegativeBinomial log-density counts successes
 before r failures

The coefficient was missing and the roles of p and 1-p were exchanged with
respect to the documentation, mean(), log_odds() and the natural form.
---
 .../src/distributions/discrete/negative_binomial.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..59578bf 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,13 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From 8847452d16f2294412909a9d4f882af3c3d835c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 06/49] fix: NegativeBinomial log-partition stays finite for p
 close to 1

---
 .../src/distributions/discrete/negative_binomial.rs        | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 59578bf..3da2ff8 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -121,12 +121,9 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.log_odds()];
 
-        // Log partition: A(η) = -r * log(1 - sigmoid(η))
-        // where sigmoid(η) = exp(η)/(1 + exp(η))
-        let exp_eta = natural_param[0].exp();
-        let sigmoid_eta = exp_eta / (T::one() + exp_eta);
+        // Log partition: A(η) = -r * log(1 - sigmoid(η)) = -r * log(1 - p)
         let r_t = T::from(self.r).unwrap();
-        let log_partition = -r_t * (T::one() - sigmoid_eta).ln();
+        let log_partition = -r_t * self.failure_prob().ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From 8564083adb3badbd7dcac0b0022a66034f348e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 07/49] fix: Poisson log-density uses the O(1) log-factorial

The running sum took time proportional to the count (never finishing for
large counts) and lost precision in f32.
---
 .../src/distributions/discrete/poisson.rs                   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/poisson.rs b/measures-distributions/src/distributions/discrete/poisson.rs
index 7eca503..d09534b 100644
--- a/measures-distributions/src/distributions/discrete/poisson.rs
+++ b/measures-distributions/src/distributions/discrete/poisson.rs
@@ -4,7 +4,7 @@
 //! distribution that expresses the probability of a given number of events occurring
 //! in a fixed interval of time or space.
 
-use measures_combinators::measures::derived::factorial::FactorialMeasure;
+use measures_combinators::measures::derived::factorial::{FactorialMeasure, log_factorial};
 use measures_core::float_constant;
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
@@ -91,8 +91,6 @@ impl<F: Float + FloatConst> measures_core::HasLogDensity<u64, F> for Poisson<F>
         // Poisson PMF: P(X = k) = (λ^k * e^(-λ)) / k!
         // log P(X = k) = k * log(λ) - λ - log(k!)
         let k_f = float_constant::<F>(*x as f64);
-        let log_factorial =
-            (1..=*x).fold(F::zero(), |acc, i| acc + float_constant::<F>(i as f64).ln());
-        k_f * self.rate.ln() - self.rate - log_factorial
+        k_f * self.rate.ln() - self.rate - log_factorial::<F>(*x)
     }
 }
-- 
2.43.0


From a2b80fcd1ab8034a6bb616201b4399dbe9b5945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 08/49] fix: Geometric(1) has log-density 0 at 1, not NaN

---
 .../src/distributions/discrete/geometric.rs            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index f33840e..2615a15 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -155,8 +155,14 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
         // Geometric PMF: P(X = k) = (1-p)^(k-1) * p for k = 1, 2, 3, ...
         // log P(X = k) = (k-1)*log(1-p) + log(p)
         if *x >= 1 {
-            let k = T::from(*x).unwrap();
-            (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
+            // (with no failures there is no failure term, even when 1-p = 0)
+            let failures = if *x == 1 {
+                T::zero()
+            } else {
+                let k = T::from(*x).unwrap();
+                (k - T::one()) * (T::one() - self.prob).ln()
+            };
+            failures + self.prob.ln()
         } else {
             T::neg_infinity() // Outside support (k must be >= 1)
         }
-- 
2.43.0


From 2990304db0ac8dd0bce870062b1b64cc1f2f5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 09/49] fix: Cauchy log-density is finite in the far tails

Squaring the standardized value overflowed to -inf.
---
 .../src/distributions/continuous/cauchy.rs           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/cauchy.rs b/measures-distributions/src/distributions/continuous/cauchy.rs
index ee64d76..b8f973a 100644
--- a/measures-distributions/src/distributions/continuous/cauchy.rs
+++ b/measures-distributions/src/distributions/continuous/cauchy.rs
@@ -92,7 +92,7 @@ impl<T: Float> Cauchy<T> {
         let standardized = (x - self.location) / self.scale;
         let pi = T::from(PI).unwrap();
 
-        -pi.ln() - self.scale.ln() - (T::one() + standardized * standardized).ln()
+        -pi.ln() - self.scale.ln() - log_one_plus_square(standardized)
     }
 
     /// Compute log-density for IID samples efficiently using decomposition.
@@ -107,6 +107,12 @@ impl<T: Float> Cauchy<T> {
     }
 }
 
+/// log(1 + z²), without overflowing when z² does.
+fn log_one_plus_square<T: Float>(z: T) -> T {
+    let log_hypot = T::one().hypot(z).ln();
+    log_hypot + log_hypot
+}
+
 impl<T: Float> MeasureMarker for Cauchy<T> {
     type IsPrimitive = False;
     type IsExponentialFamily = False; // Cauchy is NOT an exponential family
@@ -131,7 +137,7 @@ impl<T: Float + FloatConst> HasLogDensity<T, T> for Cauchy<T> {
     fn log_density_wrt_root(&self, x: &T) -> T {
         let pi = float_constant::<T>(PI);
         let standardized = (*x - self.location) / self.scale;
-        -(T::one() + standardized * standardized).ln() - self.scale.ln() - pi.ln()
+        -log_one_plus_square(standardized) - self.scale.ln() - pi.ln()
     }
 }
 
@@ -156,7 +162,7 @@ impl<T: Float + FloatConst + NumCast> HasLogDensityDecomposition<T, CauchyParams
             .mixed_term(
                 |x: &T, (location, scale): &CauchyParams<T>| {
                     let standardized = (*x - *location) / *scale;
-                    -(T::one() + standardized * standardized).ln()
+                    -log_one_plus_square(standardized)
                 },
                 "negative log of standardized squared plus one",
             )
-- 
2.43.0


From 7bed314c3a46c75d18e0b153419e5914ba6c47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 10/49] fix: Student-t log-density is finite in the far tails

---
 .../src/distributions/continuous/student_t.rs         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 736ecbf..1e4ca88 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -83,7 +83,7 @@ impl<T: Float> StudentT<T> {
             - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
-        let log_kernel = -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+        let log_kernel = log_kernel(x_f64, nu_f64);
 
         T::from(log_normalization + log_kernel).unwrap()
     }
@@ -100,6 +100,11 @@ impl<T: Float> StudentT<T> {
     }
 }
 
+/// -(ν+1)/2 * log(1 + x²/ν), without overflowing when x² does.
+fn log_kernel(x: f64, nu: f64) -> f64 {
+    -f64::midpoint(nu, 1.0) * 2.0 * (x / nu.sqrt()).hypot(1.0).ln()
+}
+
 impl<T: Float> MeasureMarker for StudentT<T> {
     type IsPrimitive = False;
     type IsExponentialFamily = False; // Student's t is NOT an exponential family
@@ -150,9 +155,7 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
                 |x: &T, nu: &StudentTParams<T>| {
                     let nu_f64 = nu.to_f64().unwrap();
                     let x_f64 = x.to_f64().unwrap();
-                    let log_kernel =
-                        -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
-                    T::from(log_kernel).unwrap()
+                    T::from(log_kernel(x_f64, nu_f64)).unwrap()
                 },
                 "negative scaled log of one plus standardized squared",
             )
-- 
2.43.0


From 30f660a72c50cd53679a50e9dc04ad4bdf1bd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 11/49] fix: Categorical and MixtureMeasure accept weights that
 sum to 1 up to rounding

The fixed tolerance of 1e-10 is below the rounding error of f32, so valid
probability vectors (even Categorical::uniform(10)) were rejected.
---
 .../src/measures/combinators/superposition.rs                | 5 ++++-
 .../src/distributions/discrete/categorical.rs                | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 36cdcd8..5978074 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -43,9 +43,12 @@ impl<M, F: Float> MixtureMeasure<M, F> {
             "Components and weights must have same length"
         );
 
+        // The sum of n rounded terms can be off by about n units in the last place,
+        // which for f32 is far above 1e-10.
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
+        let rounding = F::epsilon() * F::from(weights.len() + 1).unwrap();
         assert!(
-            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap(),
+            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap().max(rounding),
             "Weights must sum to 1"
         );
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 1dddcad..fa3e613 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -51,9 +51,12 @@ impl<T: Float + std::iter::Sum> Categorical<T> {
             "All probabilities must be non-negative"
         );
 
+        // The sum of n rounded terms can be off by about n units in the last place,
+        // which for f32 is far above 1e-10.
         let sum: T = probs.iter().copied().sum();
+        let rounding = T::epsilon() * T::from(probs.len() + 1).unwrap();
         assert!(
-            (sum - T::one()).abs() < T::from(1e-10).unwrap(),
+            (sum - T::one()).abs() < T::from(1e-10).unwrap().max(rounding),
             "Probabilities must sum to 1"
         );
 
-- 
2.43.0


From 5b55b56ddf40378564fc87beb7836b19ce8eefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 12/49] fix: mixture density is infinite, not NaN, where a
 component's density is

---
 .../src/measures/combinators/superposition.rs                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 5978074..0f9a9e8 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -144,8 +144,9 @@ fn log_sum_exp<F: Float>(log_values: &[F]) -> F {
         .copied()
         .fold(F::neg_infinity(), |acc, x| if x > acc { x } else { acc });
 
-    if max_val.is_infinite() && max_val < F::zero() {
-        return F::neg_infinity();
+    // All terms zero, or one of them infinite
+    if max_val.is_infinite() {
+        return max_val;
     }
 
     // Compute log(Σᵢ exp(xᵢ - max)) + max
-- 
2.43.0


From 1abbd952cb22b6e617acfe571ae13acae75a9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 13/49] fix: Bernoulli and Categorical from_natural do not
 overflow for large natural parameters

---
 .../src/distributions/discrete/bernoulli.rs   |  9 +++++++--
 .../src/distributions/discrete/categorical.rs | 19 ++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 644f60d..4e5181c 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -99,8 +99,13 @@ where
     fn from_natural(param: <Self as ExponentialFamily<u8, T>>::NaturalParam) -> Self {
         let [eta] = param;
         // η = log(p/(1-p)) => p = exp(η)/(1 + exp(η)) = sigmoid(η)
-        let exp_eta = eta.exp();
-        let prob = exp_eta / (T::one() + exp_eta);
+        // (exponentiating -|η| so that nothing overflows)
+        let exp_neg = (-eta.abs()).exp();
+        let prob = if eta >= T::zero() {
+            T::one() / (T::one() + exp_neg)
+        } else {
+            exp_neg / (T::one() + exp_neg)
+        };
         Self::new(prob)
     }
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index fa3e613..0344a93 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -137,19 +137,24 @@ where
         let k = param.len() + 1; // Number of categories
         let mut probs = Vec::with_capacity(k);
 
-        // Compute exp(η_i) for i = 0, ..., K-2
-        let exp_etas: Vec<T> = param.iter().map(|&eta| eta.exp()).collect();
+        // Shift by the largest exponent (the last category has η = 0) so that
+        // nothing overflows
+        let max_eta = param.iter().copied().fold(T::zero(), T::max);
 
-        // Compute normalization constant: 1 + Σᵢ exp(ηᵢ)
-        let normalizer = T::one() + exp_etas.iter().copied().sum::<T>();
+        // Compute exp(η_i - max) for i = 0, ..., K-2
+        let exp_etas: Vec<T> = param.iter().map(|&eta| (eta - max_eta).exp()).collect();
+        let exp_last = (-max_eta).exp();
 
-        // Compute probabilities: pᵢ = exp(ηᵢ) / normalizer for i < K-1
+        // Compute normalization constant: exp(-max) + Σᵢ exp(ηᵢ - max)
+        let normalizer = exp_last + exp_etas.iter().copied().sum::<T>();
+
+        // Compute probabilities: pᵢ = exp(ηᵢ - max) / normalizer for i < K-1
         for &exp_eta in &exp_etas {
             probs.push(exp_eta / normalizer);
         }
 
-        // Last probability: pₖ₋₁ = 1 / normalizer
-        probs.push(T::one() / normalizer);
+        // Last probability: pₖ₋₁ = exp(-max) / normalizer
+        probs.push(exp_last / normalizer);
 
         Self::new(probs)
     }
-- 
2.43.0


From e5db0cea7bf1bf8b0ae2e837c7b6da8fda4834f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 14/49] fix: logit transform does not overflow for large |y|

---
 .../src/measures/combinators/pushforward.rs     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 7ebf117..6366e14 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -165,14 +165,21 @@ pub mod transforms {
     ) {
         let forward = |x: &F| (*x / (F::one() - *x)).ln();
         let inverse = |y: &F| {
-            let exp_y = y.exp();
-            exp_y / (F::one() + exp_y)
+            // sigmoid(y), exponentiating -|y| so that nothing overflows
+            let exp_neg = (-y.abs()).exp();
+            if *y >= F::zero() {
+                F::one() / (F::one() + exp_neg)
+            } else {
+                exp_neg / (F::one() + exp_neg)
+            }
         };
         let log_abs_det_jacobian = |y: &F| {
             // d/dy sigmoid(y) = sigmoid(y) * (1 - sigmoid(y))
-            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y))
-            let exp_neg_y = (-*y).exp();
-            -(*y) - (F::one() + exp_neg_y).ln() - (F::one() + exp_neg_y).ln()
+            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y)),
+            // which is even in y
+            let abs_y = y.abs();
+            let exp_neg = (-abs_y).exp();
+            -abs_y - (F::one() + exp_neg).ln() - (F::one() + exp_neg).ln()
         };
 
         (forward, inverse, log_abs_det_jacobian)
-- 
2.43.0


From e02ca62efe4f90ede7c804ede99d491e30591f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 15/49] fix: pushforward density is zero outside the image of
 the transformation

For instance the log-normal built with exp_transform was NaN at y <= 0.
---
 .../src/measures/combinators/pushforward.rs            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 6366e14..206e109 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -62,9 +62,9 @@ where
     type RootMeasure = LebesgueMeasure<f64>; // Output space is also real numbers with Lebesgue measure
 
     fn in_support(&self, y: f64) -> bool {
-        // y is in support if f⁻¹(y) is in support of the base measure
+        // y is in support if f⁻¹(y) exists and is in support of the base measure
         let x = (self.inverse)(&y);
-        self.base_measure.in_support(x)
+        x.is_finite() && self.base_measure.in_support(x)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
@@ -83,7 +83,13 @@ where
         // Change of variables formula:
         // log(dν/dλ)(y) = log(dμ/dλ)(f⁻¹(y)) + log|det(Df⁻¹(y))|
         let x = (self.inverse)(y);
+        if !x.is_finite() {
+            return f64::NEG_INFINITY; // y is not in the image of f
+        }
         let base_log_density = self.base_measure.log_density_wrt_root(&x);
+        if base_log_density == f64::NEG_INFINITY {
+            return f64::NEG_INFINITY; // whatever the Jacobian
+        }
         let log_jacobian = (self.log_abs_det_jacobian)(y);
 
         base_log_density + log_jacobian
-- 
2.43.0


From b0d4bb0501604125b23970ff921cb9f98f5f7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 16/49] fix: exponential-family density routes are zero outside
 the family's support

The natural form was evaluated for any x: finite densities for Exponential at
x < 0, Bernoulli at x > 1 and Geometric at 0, NaN for Gamma, Beta, ChiSquared.
---
 .../src/distributions/continuous/beta.rs         |  4 ++++
 .../src/distributions/continuous/chi_squared.rs  |  4 ++++
 .../src/distributions/continuous/exponential.rs  |  4 ++++
 .../src/distributions/continuous/gamma.rs        |  4 ++++
 .../src/distributions/discrete/bernoulli.rs      |  4 ++++
 .../src/distributions/discrete/binomial.rs       |  4 ++++
 .../src/distributions/discrete/categorical.rs    |  4 ++++
 .../src/distributions/discrete/geometric.rs      |  4 ++++
 .../src/exponential_family/iid.rs                |  4 ++++
 .../src/exponential_family/jit.rs                |  3 +++
 .../src/exponential_family/traits.rs             | 16 ++++++++++++++++
 11 files changed, 55 insertions(+)

diff --git a/measures-distributions/src/distributions/continuous/beta.rs b/measures-distributions/src/distributions/continuous/beta.rs
index 8731d73..0481ae2 100644
--- a/measures-distributions/src/distributions/continuous/beta.rs
+++ b/measures-distributions/src/distributions/continuous/beta.rs
@@ -101,6 +101,10 @@ where
         Self::new(alpha, beta)
     }
 
+    fn in_family_support(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &T) -> <Self as ExponentialFamily<T, T>>::SufficientStat {
         [x.ln(), (T::one() - *x).ln()]
     }
diff --git a/measures-distributions/src/distributions/continuous/chi_squared.rs b/measures-distributions/src/distributions/continuous/chi_squared.rs
index acced1b..e88563d 100644
--- a/measures-distributions/src/distributions/continuous/chi_squared.rs
+++ b/measures-distributions/src/distributions/continuous/chi_squared.rs
@@ -111,6 +111,10 @@ where
         Self::new(degrees_of_freedom)
     }
 
+    fn in_family_support(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &T) -> <Self as ExponentialFamily<T, T>>::SufficientStat {
         [x.ln(), *x]
     }
diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index 3209725..31c9f25 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -90,6 +90,10 @@ where
         Self::new(rate)
     }
 
+    fn in_family_support(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &T) -> <Self as ExponentialFamily<T, T>>::SufficientStat {
         [*x]
     }
diff --git a/measures-distributions/src/distributions/continuous/gamma.rs b/measures-distributions/src/distributions/continuous/gamma.rs
index d2ccfda..4648e9d 100644
--- a/measures-distributions/src/distributions/continuous/gamma.rs
+++ b/measures-distributions/src/distributions/continuous/gamma.rs
@@ -108,6 +108,10 @@ where
         Self::new(shape, rate)
     }
 
+    fn in_family_support(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &T) -> <Self as ExponentialFamily<T, T>>::SufficientStat {
         [x.ln(), *x]
     }
diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 4e5181c..7851454 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -109,6 +109,10 @@ where
         Self::new(prob)
     }
 
+    fn in_family_support(&self, x: &u8) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &u8) -> <Self as ExponentialFamily<u8, T>>::SufficientStat {
         [float_constant::<T>(f64::from(*x))]
     }
diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 0f3154e..dedf1b3 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -100,6 +100,10 @@ where
         panic!("Cannot construct Binomial from natural parameter without knowing n");
     }
 
+    fn in_family_support(&self, x: &u64) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &u64) -> <Self as ExponentialFamily<u64, T>>::SufficientStat {
         [T::from(*x).unwrap()]
     }
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 0344a93..4053265 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -159,6 +159,10 @@ where
         Self::new(probs)
     }
 
+    fn in_family_support(&self, x: &usize) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(
         &self,
         x: &usize,
diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index 2615a15..eb7d3f8 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -106,6 +106,10 @@ where
         Self::new(prob)
     }
 
+    fn in_family_support(&self, x: &u64) -> bool {
+        self.in_support(*x)
+    }
+
     fn sufficient_statistic(&self, x: &u64) -> <Self as ExponentialFamily<u64, T>>::SufficientStat {
         [T::from(*x).unwrap()]
     }
diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 6a76ceb..92b9063 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -285,6 +285,10 @@ where
     ///
     /// This enables the standard API: `iid_normal.log_density().at(&samples)`
     /// The automatic `HasLogDensity` implementation will call this method.
+    fn in_family_support(&self, xs: &Vec<X>) -> bool {
+        xs.iter().all(|x| self.distribution.in_family_support(x))
+    }
+
     fn exp_fam_log_density(&self, xs: &Vec<X>) -> F
     where
         Self::NaturalParam: DotProduct<Self::SufficientStat, Output = F>,
diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 72fb1ed..3d0f136 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -112,6 +112,9 @@ where
     let base_measure = distribution.base_measure().clone();
 
     move |x: &X| -> F {
+        if !distribution.in_family_support(x) {
+            return F::neg_infinity();
+        }
         let sufficient_stat = distribution.sufficient_statistic(x);
         let eta_dot_t = natural_param.dot(&sufficient_stat);
         let log_h = base_measure.log_density_wrt_root(x);
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index beaa02e..3d75ceb 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -71,6 +71,15 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
     /// Get the base measure for this exponential family
     fn base_measure(&self) -> Self::BaseMeasure;
 
+    /// Whether x lies where the family has positive density.
+    ///
+    /// The natural form only holds there; outside, the density is zero. Families whose
+    /// support is smaller than that of their base measure override this.
+    #[inline]
+    fn in_family_support(&self, _x: &X) -> bool {
+        true
+    }
+
     /// Exponential family log-density computation with automatic chain rule.
     ///
     /// Computes: η·T(x) - A(η) + `log(d(base_measure)/d(root_measure))(x)`
@@ -87,6 +96,10 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
         Self::NaturalParam: DotProduct<Self::SufficientStat, Output = F>,
         Self::BaseMeasure: HasLogDensity<X, F>,
     {
+        if !self.in_family_support(x) {
+            return F::neg_infinity();
+        }
+
         let (natural_params, log_partition) = self.natural_and_log_partition();
         let sufficient_stats = self.sufficient_statistic(x);
 
@@ -176,6 +189,9 @@ where
     if samples.is_empty() {
         return F::zero();
     }
+    if !samples.iter().all(|x| distribution.in_family_support(x)) {
+        return F::neg_infinity();
+    }
 
     let (natural_params, log_partition) = distribution.natural_and_log_partition();
 
-- 
2.43.0


From e96a08005dec04c2dcf03bbb15389212fec92da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 17/49] fix: zero-overhead density of an IID sample counts the
 log-partition once per observation

---
 measures-exponential-family/src/exponential_family/iid.rs   | 4 ++++
 measures-exponential-family/src/exponential_family/jit.rs   | 3 ++-
 .../src/exponential_family/traits.rs                        | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 92b9063..8ad67ca 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -285,6 +285,10 @@ where
     ///
     /// This enables the standard API: `iid_normal.log_density().at(&samples)`
     /// The automatic `HasLogDensity` implementation will call this method.
+    fn observation_count(&self, xs: &Vec<X>) -> usize {
+        xs.len()
+    }
+
     fn in_family_support(&self, xs: &Vec<X>) -> bool {
         xs.iter().all(|x| self.distribution.in_family_support(x))
     }
diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 3d0f136..331eb71 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -118,7 +118,8 @@ where
         let sufficient_stat = distribution.sufficient_statistic(x);
         let eta_dot_t = natural_param.dot(&sufficient_stat);
         let log_h = base_measure.log_density_wrt_root(x);
-        eta_dot_t - log_partition + log_h
+        let n = F::from(distribution.observation_count(x)).unwrap();
+        eta_dot_t - n * log_partition + log_h
     }
 }
 
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index 3d75ceb..61a3260 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -80,6 +80,12 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
         true
     }
 
+    /// How many observations x holds: the log-partition counts once for each.
+    #[inline]
+    fn observation_count(&self, _x: &X) -> usize {
+        1
+    }
+
     /// Exponential family log-density computation with automatic chain rule.
     ///
     /// Computes: η·T(x) - A(η) + `log(d(base_measure)/d(root_measure))(x)`
-- 
2.43.0


From 5a80f6dd3721a3ca6aed0e78d38f35a9805b5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 18/49] fix: zero-weight mixture component has no effect even
 where its density is infinite

---
 measures-combinators/src/measures/combinators/superposition.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 0f9a9e8..2a6d72b 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -121,6 +121,9 @@ where
             .iter()
             .zip(&self.weights)
             .map(|(component, &weight)| {
+                if weight == F::zero() {
+                    return F::neg_infinity(); // contributes nothing, whatever its density
+                }
                 let log_density = component.log_density_wrt_root(x);
                 weight.ln() + log_density
             })
-- 
2.43.0


From 0238ad0117b973b1d40961a942fb0df96d447448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 19/49] fix: optimized batch evaluation reports unbound
 variables instead of using zero

---
 symbolic-math/src/expr.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..c3f18a3 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -308,13 +308,6 @@ impl Expr {
             // Standard path with HashMap reuse
             let mut var_map = HashMap::with_capacity(vars.len());
 
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
-
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
                 results.push(self.evaluate(&var_map)?);
-- 
2.43.0


From d20b037d9762c416f0e1e67fdbcb4c654d1d5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 20/49] fix: simplification respects the sign of power bases

---
 symbolic-math/src/expr.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index c3f18a3..3a96b7a 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -441,6 +441,18 @@ impl Expr {
         self.evaluate_single_var(var_name, value)
     }
 
+    /// Whether the expression is non-negative wherever it is defined
+    fn is_nonnegative(&self) -> bool {
+        match self {
+            Expr::Const(value) => *value >= 0.0,
+            Expr::Exp(_) | Expr::Sqrt(_) => true,
+            Expr::Pow(base, exponent) => {
+                base.is_nonnegative() || matches!(**exponent, Expr::Const(n) if n % 2.0 == 0.0)
+            }
+            _ => false,
+        }
+    }
+
     /// Simplify the expression using algebraic rules
     #[must_use]
     pub fn simplify(self) -> Self {
@@ -487,8 +499,11 @@ impl Expr {
                 (_, Expr::Const(0.0)) => Expr::Const(1.0),
                 (expr, Expr::Const(1.0)) => expr,
                 (Expr::Const(1.0), _) => Expr::Const(1.0),
-                // (x^a)^b = x^(a*b)
-                (Expr::Pow(inner_base, inner_exp), outer_exp) => {
+                // (x^a)^b = x^(a*b), for negative x only if b is an integer
+                (Expr::Pow(inner_base, inner_exp), outer_exp)
+                    if inner_base.is_nonnegative()
+                        || matches!(outer_exp, Expr::Const(b) if b.fract() == 0.0) =>
+                {
                     let combined_exp = Expr::Mul(inner_exp, Box::new(outer_exp));
                     Expr::Pow(inner_base, Box::new(combined_exp.simplify()))
                 }
@@ -498,8 +513,13 @@ impl Expr {
                 Expr::Const(a) if a > 0.0 => Expr::Const(a.ln()),
                 Expr::Const(1.0) => Expr::Const(0.0),
                 Expr::Exp(inner) => *inner,
-                // ln(x^a) = a * ln(x)
-                Expr::Pow(base, exp) => Expr::Mul(exp, Box::new(Expr::Ln(base))),
+                // ln(x^a) = a * ln(x); an even power may be positive for negative x
+                Expr::Pow(base, exp)
+                    if matches!(*exp, Expr::Const(a)
+                        if a != 0.0 && (base.is_nonnegative() || a % 2.0 != 0.0)) =>
+                {
+                    Expr::Mul(exp, Box::new(Expr::Ln(base)))
+                }
                 expr => Expr::Ln(Box::new(expr)),
             },
             Expr::Exp(expr) => match expr.simplify() {
@@ -517,9 +537,9 @@ impl Expr {
                 Expr::Const(a) if a >= 0.0 => Expr::Const(a.sqrt()),
                 Expr::Const(0.0) => Expr::Const(0.0),
                 Expr::Const(1.0) => Expr::Const(1.0),
-                // sqrt(x^2) = |x| (simplified to x for positive domains)
+                // sqrt(x^2) = |x|, which is x if x cannot be negative
                 Expr::Pow(base, exp) => match exp.as_ref() {
-                    Expr::Const(2.0) => *base,
+                    Expr::Const(2.0) if base.is_nonnegative() => *base,
                     _ => Expr::Sqrt(Box::new(Expr::Pow(base, exp))),
                 },
                 expr => Expr::Sqrt(Box::new(expr)),
-- 
2.43.0


From e22656cf88a7222e9d8b450050875cbe7963a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 21/49] fix: equality saturation keeps the full precision of
 constants

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..c8a012f 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -193,7 +193,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From 4cf56ec51ec5c639e33c209df635a83c1f75ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 22/49] fix: equality saturation does not fold a constant
 division by zero

---
 symbolic-math/src/optimization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index c8a012f..fd29d3b 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -103,7 +103,8 @@ impl EgglogOptimizer {
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
             (rewrite (Mul (Const ?a) (Const ?b)) (Const (* ?a ?b)))
             (rewrite (Sub (Const ?a) (Const ?b)) (Const (- ?a ?b)))
-            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)))
+            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b))
+                :when ((> (abs ?b) 0.0)))
             
             ; POLYNOMIAL simplification rules
             ; Collect like terms: x + x -> 2*x
-- 
2.43.0


From 66fc396dfe8be1e772f934cf380291023d97d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 23/49] fix: equality saturation rules for powers and
 logarithms respect signs and overflow

---
 symbolic-math/src/optimization.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index fd29d3b..bd61638 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -77,7 +77,6 @@ impl EgglogOptimizer {
             ; Logarithm properties: ln(a) + ln(b) -> ln(a * b)
             (rewrite (Add (Ln ?a) (Ln ?b)) (Ln (Mul ?a ?b)))
             (rewrite (Sub (Ln ?a) (Ln ?b)) (Ln (Div ?a ?b)))
-            (rewrite (Mul (Const ?c) (Ln ?x)) (Ln (Pow ?x (Const ?c))))
             
             ; Exponential properties: exp(a) * exp(b) -> exp(a + b)
             (rewrite (Mul (Exp ?a) (Exp ?b)) (Exp (Add ?a ?b)))
@@ -97,7 +96,9 @@ impl EgglogOptimizer {
             ; Power laws
             (rewrite (Mul (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Add ?a ?b)))
             (rewrite (Div (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Sub ?a ?b)))
-            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)))
+            ; (x^a)^n -> x^(a*n) holds for negative x only if n is an integer
+            (rewrite (Pow (Pow ?x ?a) (Const ?n)) (Pow ?x (Mul ?a (Const ?n)))
+                :when ((= ?n (to-f64 (to-i64 ?n)))))
             
             ; ENHANCED constant folding for common values
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
@@ -130,8 +131,9 @@ impl EgglogOptimizer {
             ; Avoid very small constants that might be zero
             
             ; LOGARITHMIC and EXPONENTIAL advanced rules (simplified)
-            ; ln(x^n) -> n*ln(x)
-            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)))
+            ; ln(x^n) -> n*ln(x); an even power may be positive for negative x
+            (rewrite (Ln (Pow ?x (Const ?n))) (Mul (Const ?n) (Ln ?x))
+                :when ((> (abs (% ?n 2.0)) 0.0)))
             ; exp(n*ln(x)) -> x^n
             (rewrite (Exp (Mul ?n (Ln ?x))) (Pow ?x ?n))
             ; ln(sqrt(x)) -> 0.5*ln(x)
-- 
2.43.0


From a1e768dd0434c577c66139a95fe6e8b82bb7fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 24/49] fix: each equality-saturation query starts from a fresh
 e-graph

---
 symbolic-math/src/optimization.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index bd61638..1e72396 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -165,19 +165,18 @@ impl EgglogOptimizer {
         let expr_id = format!("expr_{}", self.expr_counter);
         self.expr_counter += 1;
 
-        self.egraph
-            .parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
+        // Work on a copy of the rules, so that one query leaves nothing behind for the next
+        let mut egraph = self.egraph.clone();
+        egraph.parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
 
         // Run equality saturation with LIMITED iterations to prevent explosion
-        self.egraph.parse_and_run_program(None, "(run 5)")?;
+        egraph.parse_and_run_program(None, "(run 5)")?;
 
         // Try to extract a simplified expression
         // For now, we'll use a simple approach: just extract the expression
         let extraction_program = format!("(extract {expr_id})");
 
-        let result = self
-            .egraph
-            .parse_and_run_program(None, &extraction_program)?;
+        let result = egraph.parse_and_run_program(None, &extraction_program)?;
 
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
-- 
2.43.0


From 6bcf03a235aae99f5a819ed545f7dab393e4b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 25/49] fix: expression caches are keyed by structure, not by
 the ambiguous printed form

---
 symbolic-math/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 3a96b7a..f481616 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -566,7 +566,7 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -595,7 +595,7 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
         let vars_str = format!("{vars:?}");
         let cache_key = (expr_str.clone(), vars_str);
 
-- 
2.43.0


From 023ea2cd7b06ac8c0d3f00df604fbf4b4e4107d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 26/49] fix: plain-text rendering parenthesises a negative base
 of a power

---
 symbolic-math/src/expr.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index f481616..5c4249e 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -738,6 +738,10 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
+            // A signed base needs its own parentheses: -2^x reads as -(2^x)
+            Expr::Pow(base, exponent) if base.is_negative_const() => {
+                write!(f, "(({base})^{exponent})")
+            }
             Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
@@ -750,6 +754,11 @@ impl fmt::Display for Expr {
 }
 
 impl Expr {
+    /// Whether this is a constant that prints with a leading minus sign
+    fn is_negative_const(&self) -> bool {
+        matches!(self, Expr::Const(value) if value.is_sign_negative())
+    }
+
     /// Format as LaTeX for mathematical documents
     #[must_use]
     pub fn to_latex(&self) -> String {
-- 
2.43.0


From 1e33e7dd4c17b68b5a9c1dbc80d2b4ece2692588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 27/49] fix: Python rendering parenthesises a signed base of a
 power

---
 symbolic-math/src/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 5c4249e..78b400a 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -805,6 +805,12 @@ impl Expr {
             Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
             Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
             Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
+            // A signed base needs its own parentheses: -x ** 2 reads as -(x ** 2)
+            Expr::Pow(base, exponent)
+                if base.is_negative_const() || matches!(base.as_ref(), Expr::Neg(_)) =>
+            {
+                format!("(({}) ** {})", base.to_python(), exponent.to_python())
+            }
             Expr::Pow(base, exponent) => {
                 format!("({} ** {})", base.to_python(), exponent.to_python())
             }
-- 
2.43.0


From d6c43d73353b00e9126c89b038901cca2664a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 28/49] fix: LaTeX rendering parenthesises operands where
 precedence requires it

---
 symbolic-math/src/expr.rs | 50 +++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 78b400a..a6d886c 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -759,6 +759,28 @@ impl Expr {
         matches!(self, Expr::Const(value) if value.is_sign_negative())
     }
 
+    /// Whether the LaTeX form is a bare sum or difference
+    fn latex_is_sum(&self) -> bool {
+        match self {
+            Expr::Add(_, _) | Expr::Sub(_, _) => true,
+            Expr::Mul(left, right) => {
+                matches!(left.as_ref(), Expr::Const(c) if *c == 1.0) && right.latex_is_sum()
+            }
+            _ => false,
+        }
+    }
+
+    /// LaTeX form as an operand: parenthesised if it starts with a minus sign or,
+    /// where the context binds tighter than addition, if it is a sum
+    fn latex_operand(&self, tight: bool) -> String {
+        let text = self.to_latex();
+        if text.starts_with('-') || (tight && self.latex_is_sum()) {
+            format!("\\left({text}\\right)")
+        } else {
+            text
+        }
+    }
+
     /// Format as LaTeX for mathematical documents
     #[must_use]
     pub fn to_latex(&self) -> String {
@@ -771,20 +793,38 @@ impl Expr {
                 }
             }
             Expr::Var(name) => name.clone(),
-            Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
+            Expr::Add(left, right) => {
+                format!("{} + {}", left.to_latex(), right.latex_operand(false))
+            }
+            Expr::Sub(left, right) => {
+                format!("{} - {}", left.to_latex(), right.latex_operand(true))
+            }
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
                 (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
+                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.latex_operand(true)),
                 (Expr::Const(_), Expr::Var(_)) => {
                     format!("{}{}", left.to_latex(), right.to_latex())
                 }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                _ => format!(
+                    "{} \\cdot {}",
+                    left.latex_operand(true),
+                    right.latex_operand(true)
+                ),
             },
             Expr::Div(left, right) => {
                 format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
             }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
+            Expr::Pow(base, exponent) => {
+                // Superscripts attach to the preceding atom only
+                let atomic = matches!(base.as_ref(), Expr::Const(_) | Expr::Var(_))
+                    && !base.is_negative_const();
+                if atomic {
+                    format!("{}^{{{}}}", base.to_latex(), exponent.to_latex())
+                } else {
+                    let base = base.to_latex();
+                    format!("\\left({base}\\right)^{{{}}}", exponent.to_latex())
+                }
+            }
             Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
             Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
             Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
-- 
2.43.0


From a90dac4139c01dd8c10a0afb9e8ab12a851b0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 29/49] fix: display::latex and display::python emit their own
 notation

---
 symbolic-math/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..f6761b3 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,13 +299,13 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        format!("lambda vars: {}", expr.to_python())
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From e49b68d2784c0272a7f115db4c37464632f4b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 30/49] fix: compiled exp, ln, sin, cos and pow match the
 native functions everywhere

The inline approximations trapped on NaN and huge exp arguments, returned
garbage for exp outside the normal range, for ln of zero, negative, subnormal
and non-finite values and for powers of negative bases, and used two- and
three-term Taylor polynomials for sine and cosine at any argument.
---
 symbolic-math/src/final_tagless.rs |   2 +-
 symbolic-math/src/jit.rs           | 310 +++++------------------------
 2 files changed, 56 insertions(+), 256 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..0439430 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -869,7 +869,7 @@ impl JITRepr {
                         Ok(builder.ins().f64const(1.0))
                     }
                     _ => {
-                        // General case: use exp(exponent * ln(base)) with accurate implementations
+                        // General case: call the native power function
                         let exp_val = exp.generate_ir(builder, var_map)?;
                         crate::jit::generate_pow_call(builder, base_val, exp_val)
                     }
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..510120f 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,7 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Value, types};
+use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Signature, Value, types};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -641,7 +641,7 @@ fn generate_clif_from_expr_with_vars(
                     Ok(builder.ins().f64const(1.0))
                 }
                 _ => {
-                    // General case: use exp(exponent * ln(base)) with accurate implementations
+                    // General case: call the native power function
                     let exp_val =
                         generate_clif_from_expr_with_vars(builder, exp, var_map, constants)?;
                     generate_pow_call(builder, base_val, exp_val)
@@ -667,284 +667,84 @@ fn generate_clif_from_expr_with_vars(
     }
 }
 
-/// Generate a call to the pow function using basic math operations
+/// Emit a call to a native math function
+#[cfg(feature = "jit")]
+fn generate_native_call(builder: &mut FunctionBuilder, address: usize, args: &[Value]) -> Value {
+    let mut sig = Signature::new(builder.func.signature.call_conv);
+    sig.params
+        .extend(args.iter().map(|_| AbiParam::new(types::F64)));
+    sig.returns.push(AbiParam::new(types::F64));
+    let sig = builder.import_signature(sig);
+    let callee = builder.ins().iconst(types::I64, address as i64);
+    let call = builder.ins().call_indirect(sig, callee, args);
+    builder.inst_results(call)[0]
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn native_pow(base: f64, exponent: f64) -> f64 {
+    base.powf(exponent)
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn native_ln(x: f64) -> f64 {
+    x.ln()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn native_exp(x: f64) -> f64 {
+    x.exp()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn native_sin(x: f64) -> f64 {
+    x.sin()
+}
+
+#[cfg(feature = "jit")]
+extern "C" fn native_cos(x: f64) -> f64 {
+    x.cos()
+}
+
+/// Generate a call to the pow function
 #[cfg(feature = "jit")]
 pub fn generate_pow_call(
     builder: &mut FunctionBuilder,
     base: Value,
     exponent: Value,
 ) -> Result<Value, JITError> {
-    // Use the standard approach: exp(exponent * ln(base))
-    let ln_base = generate_accurate_ln_call(builder, base)?;
-    let product = builder.ins().fmul(exponent, ln_base);
-    generate_exp_call(builder, product)
+    let f = native_pow as extern "C" fn(f64, f64) -> f64;
+    Ok(generate_native_call(builder, f as usize, &[base, exponent]))
 }
 
-/// Generate CLIF IR for natural logarithm using range reduction and rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for ln on [1, 2] with ~3.7e-12 error (degree 7,2)
+/// Generate a call to the natural logarithm
 #[cfg(feature = "jit")]
 pub fn generate_accurate_ln_call(
     builder: &mut FunctionBuilder,
     val: Value,
 ) -> Result<Value, JITError> {
-    // Special case: ln(1) = 0 exactly
-    let one = builder.ins().f64const(1.0);
-    let zero = builder.ins().f64const(0.0);
-    let is_one = builder
-        .ins()
-        .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, one);
-
-    // Use range reduction: x = 2^k * m where 1.0 <= m < 2.0
-    // Then ln(x) = k*ln(2) + ln(m)
-    // This is the proper way to implement ln with good accuracy across all ranges
-
-    // Convert to integer bits for manipulation
-    let x_bits = builder
-        .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
-
-    // Extract exponent (IEEE 754 format)
-    let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
-    let exponent_bits = builder.ins().band(x_bits, exponent_mask);
-    let exponent_shifted = builder.ins().ushr_imm(exponent_bits, 52);
-    let bias = builder.ins().iconst(types::I64, 1023);
-    let k_i64 = builder.ins().isub(exponent_shifted, bias);
-    let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
-
-    // Extract mantissa and normalize to [1, 2)
-    let mantissa_mask = builder.ins().iconst(types::I64, 0x000FFFFFFFFFFFFF);
-    let mantissa_bits = builder.ins().band(x_bits, mantissa_mask);
-    let normalized_exp = builder.ins().iconst(types::I64, 0x3FF0000000000000); // Exponent for 1.0
-    let m_bits = builder.ins().bor(mantissa_bits, normalized_exp);
-    let m = builder
-        .ins()
-        .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), m_bits);
-
-    // Rational function approximation for ln(m) on [1, 2] with ~3.7e-12 error
-    // Numerator coefficients (degree 7)
-    let n0 = builder.ins().f64const(-3.757_488_530_222_454);
-    let n1 = builder.ins().f64const(-11.054_916_701_724_03);
-    let n2 = builder.ins().f64const(11.288_438_153_376_154);
-    let n3 = builder.ins().f64const(4.139_561_514_484_466);
-    let n4 = builder.ins().f64const(-0.722_936_179_175_468);
-    let n5 = builder.ins().f64const(0.120_402_162_146_429_54);
-    let n6 = builder.ins().f64const(-0.013_833_868_987_268_428);
-    let n7 = builder.ins().f64const(0.000_773_450_181_076_160_1);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(9.977_721_025_877_55);
-    let d2 = builder.ins().f64const(10.595_600_174_718_957);
-
-    // Compute numerator: n0 + n1*m + n2*m² + n3*m³ + n4*m⁴ + n5*m⁵ + n6*m⁶ + n7*m⁷
-    let m2 = builder.ins().fmul(m, m);
-    let m3 = builder.ins().fmul(m2, m);
-    let m4 = builder.ins().fmul(m2, m2);
-    let m5 = builder.ins().fmul(m4, m);
-    let m6 = builder.ins().fmul(m4, m2);
-    let m7 = builder.ins().fmul(m4, m3);
-
-    let num_term1 = builder.ins().fmul(n1, m);
-    let num_term2 = builder.ins().fmul(n2, m2);
-    let num_term3 = builder.ins().fmul(n3, m3);
-    let num_term4 = builder.ins().fmul(n4, m4);
-    let num_term5 = builder.ins().fmul(n5, m5);
-    let num_term6 = builder.ins().fmul(n6, m6);
-    let num_term7 = builder.ins().fmul(n7, m7);
-
-    let num_partial1 = builder.ins().fadd(n0, num_term1);
-    let num_partial2 = builder.ins().fadd(num_partial1, num_term2);
-    let num_partial3 = builder.ins().fadd(num_partial2, num_term3);
-    let num_partial4 = builder.ins().fadd(num_partial3, num_term4);
-    let num_partial5 = builder.ins().fadd(num_partial4, num_term5);
-    let num_partial6 = builder.ins().fadd(num_partial5, num_term6);
-    let numerator = builder.ins().fadd(num_partial6, num_term7);
-
-    // Compute denominator: d0 + d1*m + d2*m²
-    let den_term1 = builder.ins().fmul(d1, m);
-    let den_term2 = builder.ins().fmul(d2, m2);
-    let den_partial1 = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(den_partial1, den_term2);
-
-    // Rational approximation: ln(m) ≈ numerator / denominator
-    let ln_m = builder.ins().fdiv(numerator, denominator);
-
-    // Final result: ln(x) = k*ln(2) + ln(m)
-    let ln_2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let k_ln_2 = builder.ins().fmul(k, ln_2);
-    let ln_x = builder.ins().fadd(k_ln_2, ln_m);
-
-    // Return ln(1) = 0 exactly, otherwise return computed value
-    let result = builder.ins().select(is_one, zero, ln_x);
-    Ok(result)
+    let f = native_ln as extern "C" fn(f64) -> f64;
+    Ok(generate_native_call(builder, f as usize, &[val]))
 }
 
-/// Generate CLIF IR for exponential function using proven rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for exp on [0, ln(2)] with ~2.7e-12 error
+/// Generate a call to the exponential function
 #[cfg(feature = "jit")]
 pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // For range reduction: exp(x) = 2^k * exp(r) where r ∈ [0, ln(2)]
-    // Split x = k*ln(2) + r where k is integer and r ∈ [0, ln(2)]
-
-    let ln2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let ln2_inv = builder.ins().f64const(1.0 / std::f64::consts::LN_2);
-
-    // Compute k = floor(x / ln(2))
-    let x_over_ln2 = builder.ins().fmul(val, ln2_inv);
-    let k_float = builder.ins().floor(x_over_ln2);
-
-    // Compute r = x - k*ln(2), so r ∈ [0, ln(2)]
-    let k_ln2 = builder.ins().fmul(k_float, ln2);
-    let r = builder.ins().fsub(val, k_ln2);
-
-    // Now use rational approximation for exp(r) where r ∈ [0, ln(2)]
-    // Rational function approximation: P(r) / Q(r)
-    // Numerator coefficients (degree 5)
-    let n0 = builder.ins().f64const(0.999_999_999_997_277_7);
-    let n1 = builder.ins().f64const(0.726_006_320_449_981);
-    let n2 = builder.ins().f64const(0.247_557_081_600_051_33);
-    let n3 = builder.ins().f64const(0.051_220_753_494_353_26);
-    let n4 = builder.ins().f64const(0.006_775_629_189_039_916);
-    let n5 = builder.ins().f64const(0.000_511_051_952_348_079_5);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(-0.273_993_680_027_297_7);
-    let d2 = builder.ins().f64const(0.021_550_775_407_834_573);
-
-    // Compute powers of r
-    let r2 = builder.ins().fmul(r, r);
-    let r3 = builder.ins().fmul(r2, r);
-    let r4 = builder.ins().fmul(r3, r);
-    let r5 = builder.ins().fmul(r4, r);
-
-    // Compute numerator: n0 + n1*r + n2*r² + n3*r³ + n4*r⁴ + n5*r⁵
-    let num_term1 = builder.ins().fmul(n1, r);
-    let num_term2 = builder.ins().fmul(n2, r2);
-    let num_term3 = builder.ins().fmul(n3, r3);
-    let num_term4 = builder.ins().fmul(n4, r4);
-    let num_term5 = builder.ins().fmul(n5, r5);
-
-    let numerator = builder.ins().fadd(n0, num_term1);
-    let numerator = builder.ins().fadd(numerator, num_term2);
-    let numerator = builder.ins().fadd(numerator, num_term3);
-    let numerator = builder.ins().fadd(numerator, num_term4);
-    let numerator = builder.ins().fadd(numerator, num_term5);
-
-    // Compute denominator: d0 + d1*r + d2*r²
-    let den_term1 = builder.ins().fmul(d1, r);
-    let den_term2 = builder.ins().fmul(d2, r2);
-
-    let denominator = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(denominator, den_term2);
-
-    // Rational function result: exp(r)
-    let exp_r = builder.ins().fdiv(numerator, denominator);
-
-    // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
-
-    // For common small integer powers, use exact multiplication
-    // This avoids floating point precision issues
-    let zero = builder.ins().iconst(types::I32, 0);
-    let one_i32 = builder.ins().iconst(types::I32, 1);
-    let neg_one_i32 = builder.ins().iconst(types::I32, -1);
-
-    let two_f64 = builder.ins().f64const(2.0);
-    let half_f64 = builder.ins().f64const(0.5);
-
-    // Check for k = 0 (most common case)
-    let is_k_zero = builder
-        .ins()
-        .icmp(cranelift_codegen::ir::condcodes::IntCC::Equal, k_int, zero);
-    let result_k_zero = exp_r; // 2^0 = 1, so result = exp_r * 1 = exp_r
-
-    // Check for k = 1
-    let is_k_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        one_i32,
-    );
-    let result_k_one = builder.ins().fmul(exp_r, two_f64); // 2^1 = 2
-
-    // Check for k = -1
-    let is_k_neg_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        neg_one_i32,
-    );
-    let result_k_neg_one = builder.ins().fmul(exp_r, half_f64); // 2^(-1) = 0.5
-
-    // For other cases, use bit manipulation (ldexp-like operation)
-    let exp_r_bits =
-        builder
-            .ins()
-            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), exp_r);
-    let k_64 = builder.ins().sextend(types::I64, k_int);
-    let exponent_shift = builder.ins().ishl_imm(k_64, 52); // Shift k to exponent position
-    let result_bits = builder.ins().iadd(exp_r_bits, exponent_shift);
-    let result_general = builder.ins().bitcast(
-        types::F64,
-        cranelift_codegen::ir::MemFlags::new(),
-        result_bits,
-    );
-
-    // Use select instructions to choose the right result
-    let temp_result = builder
-        .ins()
-        .select(is_k_zero, result_k_zero, result_general);
-    let temp_result2 = builder.ins().select(is_k_one, result_k_one, temp_result);
-    let result = builder
-        .ins()
-        .select(is_k_neg_one, result_k_neg_one, temp_result2);
-
-    Ok(result)
+    let f = native_exp as extern "C" fn(f64) -> f64;
+    Ok(generate_native_call(builder, f as usize, &[val]))
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Generate a call to the sine function
 #[cfg(feature = "jit")]
 pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
-
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
-
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    let f = native_sin as extern "C" fn(f64) -> f64;
+    Ok(generate_native_call(builder, f as usize, &[val]))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate a call to the cosine function
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    let f = native_cos as extern "C" fn(f64) -> f64;
+    Ok(generate_native_call(builder, f as usize, &[val]))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From 9d49e6ce05f735641912a0168c065aba1b400bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 31/49] fix: compiled x^0.5 agrees with pow at negative
 infinity

---
 symbolic-math/src/final_tagless.rs | 4 ----
 symbolic-math/src/jit.rs           | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 0439430..878f5e9 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -856,10 +856,6 @@ impl JITRepr {
                         let x_squared = builder.ins().fmul(base_val, base_val);
                         Ok(builder.ins().fmul(x_squared, x_squared))
                     }
-                    Self::Constant(0.5) => {
-                        // x^0.5 = sqrt(x)
-                        Ok(builder.ins().sqrt(base_val))
-                    }
                     Self::Constant(1.0) => {
                         // x^1 = x
                         Ok(base_val)
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 510120f..3102a8e 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -628,10 +628,6 @@ fn generate_clif_from_expr_with_vars(
                     let x_squared = builder.ins().fmul(base_val, base_val);
                     Ok(builder.ins().fmul(x_squared, x_squared))
                 }
-                Expr::Const(0.5) => {
-                    // x^0.5 = sqrt(x)
-                    Ok(builder.ins().sqrt(base_val))
-                }
                 Expr::Const(1.0) => {
                     // x^1 = x
                     Ok(base_val)
-- 
2.43.0


From c81dcbf35645be88969e403578be3c0ce8cfc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 32/49] fix: compiled functions are called with the arguments
 they were compiled for

call_batch passed two slices to code that expected one float per argument, so
it read garbage; more than three parameters could be compiled but not called.
Functions with several data variables or more than three parameters are now
compiled to load their arguments from the slices they are called with, and
code is called with the C calling convention it is generated for.
---
 symbolic-math/src/jit.rs | 120 ++++++++++++++++++++++++++-------------
 1 file changed, 81 insertions(+), 39 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 3102a8e..6a81b59 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,9 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Signature, Value, types};
+use cranelift_codegen::ir::{
+    AbiParam, Block, Function, InstBuilder, MemFlags, Signature, Value, types,
+};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -118,7 +120,7 @@ impl GeneralJITFunction {
             JITSignature::SingleInput => {
                 #[cfg(feature = "jit")]
                 {
-                    let func: fn(f64) -> f64 = unsafe { std::mem::transmute(self.function_ptr) };
+                    let func: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(self.function_ptr) };
                     func(x)
                 }
                 #[cfg(not(feature = "jit"))]
@@ -137,7 +139,7 @@ impl GeneralJITFunction {
             JITSignature::DataAndParameter => {
                 #[cfg(feature = "jit")]
                 {
-                    let func: fn(f64, f64) -> f64 =
+                    let func: extern "C" fn(f64, f64) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
                     func(x, theta)
                 }
@@ -158,20 +160,19 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
                     match n {
                         2 => {
-                            let func: fn(f64, f64, f64) -> f64 =
+                            let func: extern "C" fn(f64, f64, f64) -> f64 =
                                 unsafe { std::mem::transmute(self.function_ptr) };
                             func(x, params[0], params[1])
                         }
                         3 => {
-                            let func: fn(f64, f64, f64, f64) -> f64 =
+                            let func: extern "C" fn(f64, f64, f64, f64) -> f64 =
                                 unsafe { std::mem::transmute(self.function_ptr) };
                             func(x, params[0], params[1], params[2])
                         }
-                        _ => panic!("Unsupported parameter count: {n}"),
+                        // Longer argument lists are passed as slices
+                        _ => self.call_slices(&[x], params),
                     }
                 }
                 #[cfg(not(feature = "jit"))]
@@ -195,11 +196,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
-                        unsafe { std::mem::transmute(self.function_ptr) };
-                    func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
+                    self.call_slices(data, params)
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -210,6 +207,14 @@ impl GeneralJITFunction {
             _ => panic!("Function signature mismatch: expected batch data and parameters"),
         }
     }
+
+    /// Call a function compiled to take its arguments as slices
+    #[cfg(feature = "jit")]
+    fn call_slices(&self, data: &[f64], params: &[f64]) -> f64 {
+        let func: extern "C" fn(*const f64, usize, *const f64, usize) -> f64 =
+            unsafe { std::mem::transmute(self.function_ptr) };
+        func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
+    }
 }
 
 /// Statistics about the JIT compilation process
@@ -264,16 +269,7 @@ impl GeneralJITCompiler {
         // Create function signature based on inputs
         let mut sig = self.module.make_signature();
 
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        declare_inputs(&mut sig, data_vars.len(), param_vars.len());
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -293,17 +289,22 @@ impl GeneralJITCompiler {
         builder.append_block_params_for_function_params(entry_block);
 
         // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        let inputs = load_inputs(
+            &mut builder,
+            entry_block,
+            data_vars.len(),
+            param_vars.len(),
+        );
         let mut var_map = std::collections::HashMap::new();
 
         // Map data variables to their values
         for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
+            var_map.insert(var_name.clone(), inputs[i]);
         }
 
         // Map parameter variables to their values
         for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
+            var_map.insert(var_name.clone(), inputs[data_vars.len() + i]);
         }
 
         // Generate CLIF IR for the expression
@@ -453,16 +454,7 @@ impl GeneralJITCompiler {
         // Create function signature based on inputs
         let mut sig = self.module.make_signature();
 
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        declare_inputs(&mut sig, data_vars.len(), param_vars.len());
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -482,17 +474,22 @@ impl GeneralJITCompiler {
         builder.append_block_params_for_function_params(entry_block);
 
         // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        let inputs = load_inputs(
+            &mut builder,
+            entry_block,
+            data_vars.len(),
+            param_vars.len(),
+        );
         let mut var_map = std::collections::HashMap::new();
 
         // Map data variables to their values
         for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
+            var_map.insert(var_name.clone(), inputs[i]);
         }
 
         // Map parameter variables to their values
         for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
+            var_map.insert(var_name.clone(), inputs[data_vars.len() + i]);
         }
 
         // Add constants to the variable map as constant values
@@ -560,6 +557,51 @@ impl GeneralJITCompiler {
     }
 }
 
+/// Whether arguments are passed as two slices (pointer and length each) instead of one by one
+#[cfg(feature = "jit")]
+fn takes_slices(data_vars: usize, param_vars: usize) -> bool {
+    data_vars != 1 || param_vars > 3
+}
+
+/// Declare the inputs of a compiled function, matching how it is going to be called
+#[cfg(feature = "jit")]
+fn declare_inputs(sig: &mut Signature, data_vars: usize, param_vars: usize) {
+    let (ty, count) = if takes_slices(data_vars, param_vars) {
+        (types::I64, 4)
+    } else {
+        (types::F64, data_vars + param_vars)
+    };
+    for _ in 0..count {
+        sig.params.push(AbiParam::new(ty));
+    }
+}
+
+/// Get the values of all data variables followed by those of all parameters
+#[cfg(feature = "jit")]
+fn load_inputs(
+    builder: &mut FunctionBuilder,
+    entry_block: Block,
+    data_vars: usize,
+    param_vars: usize,
+) -> Vec<Value> {
+    let args = builder.block_params(entry_block).to_vec();
+    if !takes_slices(data_vars, param_vars) {
+        return args;
+    }
+    let mut inputs = Vec::with_capacity(data_vars + param_vars);
+    for (pointer, count) in [(args[0], data_vars), (args[2], param_vars)] {
+        for i in 0..count {
+            let offset = (i * std::mem::size_of::<f64>()) as i32;
+            inputs.push(
+                builder
+                    .ins()
+                    .load(types::F64, MemFlags::trusted(), pointer, offset),
+            );
+        }
+    }
+    inputs
+}
+
 /// Generate CLIF IR from expression with variable mapping support
 #[cfg(feature = "jit")]
 fn generate_clif_from_expr_with_vars(
-- 
2.43.0


From 02e1b07f9bbcb4dd9ff5db5b270123a00f3b8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 33/49] fix: JITEval::compile binds its variables in
 alphabetical order, not hash order

---
 symbolic-math/src/final_tagless.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 878f5e9..616af0f 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -990,7 +990,8 @@ impl JITEval {
     /// Compile expression with automatic signature detection
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From d0cdded9014ff62c5159ce5f8a1604d8627e5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 34/49] fix: embedded constants do not replace declared
 variables of the same name

---
 symbolic-math/src/jit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 6a81b59..4ba150d 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -495,7 +495,7 @@ impl GeneralJITCompiler {
         // Add constants to the variable map as constant values
         for (name, &value) in constants {
             let const_val = builder.ins().f64const(value);
-            var_map.insert(name.clone(), const_val);
+            var_map.entry(name.clone()).or_insert(const_val);
         }
 
         // Generate CLIF IR for the final tagless expression
-- 
2.43.0


From eea6ad875dfb5ea5666b9f6b9ac41ba8d2edf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 35/49] fix: a compiled custom log-density binds its input to
 the free variable, not to a parameter

---
 symbolic-math/src/jit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4ba150d..08eeec3 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -856,8 +856,12 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // The first variable that is not a parameter is the input variable
+    if let Some(var_name) = symbolic
+        .variables
+        .iter()
+        .find(|name| !symbolic.parameters.contains_key(*name))
+    {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From 8ea2d71438a99600b2359850f75ad24641a63d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 36/49] fix: call_batch works for functions of one data point

The Bayesian optimizer evaluates everything through call_batch, which panicked
for the usual models with a single observation.
---
 symbolic-math/src/jit.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 08eeec3..9b3c0f5 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -186,25 +186,38 @@ impl GeneralJITFunction {
     }
 
     /// Call the JIT function with multiple data points and parameters (for batch processing)
+    ///
+    /// Works for every signature: functions of one data point are called with that point.
     pub fn call_batch(&self, data: &[f64], params: &[f64]) -> f64 {
-        match &self.signature {
+        let (data_dims, param_dims) = match &self.signature {
+            JITSignature::SingleInput => (1, 0),
+            JITSignature::DataAndParameter => (1, 1),
+            JITSignature::DataAndParameters(n) => (1, *n),
             JITSignature::MultipleDataAndParameters {
                 data_dims,
                 param_dims,
-            } => {
-                assert_eq!(data.len(), *data_dims, "Data dimension mismatch");
-                assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
+            } => (*data_dims, *param_dims),
+            JITSignature::Custom { .. } => {
+                panic!("Function signature mismatch: expected batch data and parameters")
+            }
+        };
+        assert_eq!(data.len(), data_dims, "Data dimension mismatch");
+        assert_eq!(params.len(), param_dims, "Parameter dimension mismatch");
+
+        match &self.signature {
+            JITSignature::SingleInput => self.call_single(data[0]),
+            JITSignature::DataAndParameter => self.call_data_param(data[0], params[0]),
+            JITSignature::DataAndParameters(_) => self.call_data_params(data[0], params),
+            _ => {
                 #[cfg(feature = "jit")]
                 {
                     self.call_slices(data, params)
                 }
                 #[cfg(not(feature = "jit"))]
                 {
-                    let _ = (data, params);
                     0.0
                 }
             }
-            _ => panic!("Function signature mismatch: expected batch data and parameters"),
         }
     }
 
-- 
2.43.0


From cddc9295c19b415b7725672cf959c6a44ba608b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 37/49] fix: generic pretty-printing parenthesises a negative
 base of a power

---
 mathjit/src/final_tagless.rs       | 7 ++++++-
 symbolic-math/src/final_tagless.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..7ac22d6 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,7 +695,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // A minus sign binds more loosely than the power
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 616af0f..39c8709 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,7 +544,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // A minus sign binds more loosely than the power
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From 66cf8e4e1fbe7e47747c0580763358d86c0f1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 38/49] fix: softplus does not overflow for large arguments

---
 mathjit/src/final_tagless.rs       | 11 ++++++++++-
 symbolic-math/src/final_tagless.rs | 24 ++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 7ac22d6..2f59297 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -563,7 +563,16 @@ pub trait StatisticalExpr: MathExpr {
 }
 
 // Implement StatisticalExpr for DirectEval
-impl StatisticalExpr for DirectEval {}
+impl StatisticalExpr for DirectEval {
+    fn softplus<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
+        // ln(1 + exp(x)) = x + ln(1 + exp(-x)) does not overflow for large x
+        if x > T::zero() {
+            x + (-x).exp().ln_1p()
+        } else {
+            x.exp().ln_1p()
+        }
+    }
+}
 
 /// String representation interpreter for mathematical expressions
 ///
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 39c8709..9bbe589 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -412,7 +412,16 @@ pub trait StatisticalExpr: MathExpr {
 }
 
 // Implement StatisticalExpr for DirectEval
-impl StatisticalExpr for DirectEval {}
+impl StatisticalExpr for DirectEval {
+    fn softplus<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
+        // ln(1 + exp(x)) = x + ln(1 + exp(-x)) does not overflow for large x
+        if x > T::zero() {
+            x + (-x).exp().ln_1p()
+        } else {
+            x.exp().ln_1p()
+        }
+    }
+}
 
 /// String representation interpreter for mathematical expressions
 ///
@@ -1060,7 +1069,18 @@ impl JITEval {
 
 // Implement StatisticalExpr for JITEval
 #[cfg(feature = "jit")]
-impl StatisticalExpr for JITEval {}
+impl StatisticalExpr for JITEval {
+    fn softplus<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
+        // With m = x * logistic(x), which follows max(x, 0), neither exponential in
+        // ln(1 + exp(x)) = m + ln(exp(x - m) + exp(-m)) overflows.
+        let m = Self::mul::<T, T, T>(x.clone(), Self::logistic::<T>(x.clone()));
+        let scaled = Self::add::<T, T, T>(
+            Self::exp::<T>(Self::sub::<T, T, T>(x, m.clone())),
+            Self::exp::<T>(Self::neg::<T>(m.clone())),
+        );
+        Self::add::<T, T, T>(m, Self::ln::<T>(scaled))
+    }
+}
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 8ae2a55505b164164eeb65f31371c727a8e4ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 39/49] fix: the symbolic softplus builder does not overflow
 for large arguments

---
 symbolic-math/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index f6761b3..ef602ae 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -278,7 +278,10 @@ pub mod builders {
     /// Build a softplus function: ln(1 + exp(x))
     pub fn softplus(x: impl Into<Expr>) -> Expr {
         let x = x.into();
-        Expr::ln(Expr::constant(1.0) + Expr::exp(x))
+        // With m = x * logistic(x), which follows max(x, 0), neither exponential in
+        // ln(1 + exp(x)) = m + ln(exp(x - m) + exp(-m)) overflows.
+        let m = x.clone() * logistic(x.clone());
+        m.clone() + Expr::ln(Expr::exp(x - m.clone()) + Expr::exp(-m))
     }
 }
 
-- 
2.43.0


From 93db9421d6c1e25f67bc3698974c8bc5e4025b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 40/49] fix: the exponential-family softplus does not overflow
 for large arguments

---
 .../src/exponential_family/final_tagless.rs     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/final_tagless.rs b/measures-exponential-family/src/exponential_family/final_tagless.rs
index 7c0b0f7..b96980d 100644
--- a/measures-exponential-family/src/exponential_family/final_tagless.rs
+++ b/measures-exponential-family/src/exponential_family/final_tagless.rs
@@ -173,8 +173,21 @@ pub trait ExponentialFamilyExpr: MathExpr {
     /// Softplus function: log(1 + exp(x))
     ///
     /// Numerically stable version of log(1 + exp(x))
-    fn softplus<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
-        Self::ln(Self::add(Self::constant(T::one()), Self::exp(x)))
+    fn softplus<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone,
+    {
+        // With m = x * logistic(x), which follows max(x, 0), neither exponential in
+        // log(1 + exp(x)) = m + log(exp(x - m) + exp(-m)) overflows.
+        let m = Self::mul::<T, T, T>(
+            x.clone(),
+            <Self as ExponentialFamilyExpr>::logistic::<T>(x.clone()),
+        );
+        let scaled = Self::add::<T, T, T>(
+            Self::exp::<T>(Self::sub::<T, T, T>(x, m.clone())),
+            Self::exp::<T>(Self::neg::<T>(m.clone())),
+        );
+        Self::add::<T, T, T>(m, Self::ln::<T>(scaled))
     }
 
     /// Log-sum-exp function for numerical stability
-- 
2.43.0


From be631ff8d5c84755761056296d3b289234093d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 41/49] fix: the generic Poisson log-density subtracts log x!,
 not log x

---
 .../src/exponential_family/final_tagless.rs   | 46 +++++++++++++++++--
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/final_tagless.rs b/measures-exponential-family/src/exponential_family/final_tagless.rs
index b96980d..88ceb4e 100644
--- a/measures-exponential-family/src/exponential_family/final_tagless.rs
+++ b/measures-exponential-family/src/exponential_family/final_tagless.rs
@@ -218,6 +218,45 @@ pub trait ExponentialFamilyExpr: MathExpr {
 // Blanket implementation: all MathExpr types automatically get ExponentialFamilyExpr
 impl<T: MathExpr> ExponentialFamilyExpr for T {}
 
+/// Log-gamma function log(Γ(x)) for x > 0, built from elementary operations so that it is
+/// available in every interpreter
+///
+/// Uses Stirling's series at x + 8 and the recurrence Γ(x + 1) = x Γ(x).
+#[must_use]
+pub fn log_gamma<E: MathExpr, T: NumericType + Float>(x: E::Repr<T>) -> E::Repr<T>
+where
+    E::Repr<T>: Clone,
+{
+    let c = |value: f64| E::constant::<T>(T::from(value).expect("constant fits the numeric type"));
+
+    let mut log_product = E::ln::<T>(x.clone());
+    for i in 1..8 {
+        let factor = E::add::<T, T, T>(x.clone(), c(f64::from(i)));
+        log_product = E::add::<T, T, T>(log_product, E::ln::<T>(factor));
+    }
+
+    let z = E::add::<T, T, T>(x, c(8.0));
+    let inverse = E::div::<T, T, T>(c(1.0), z.clone());
+    let inverse_squared = E::mul::<T, T, T>(inverse.clone(), inverse.clone());
+    let mut series = c(691.0 / 360_360.0);
+    for denominator in [1188.0, 1680.0, 1260.0, 360.0, 12.0] {
+        series = E::sub::<T, T, T>(
+            c(1.0 / denominator),
+            E::mul::<T, T, T>(inverse_squared.clone(), series),
+        );
+    }
+    let half_log_two_pi = c(0.5 * (2.0 * std::f64::consts::PI).ln());
+    let leading = E::sub::<T, T, T>(
+        E::mul::<T, T, T>(E::sub::<T, T, T>(z.clone(), c(0.5)), E::ln::<T>(z.clone())),
+        z,
+    );
+    let stirling = E::add::<T, T, T>(
+        E::add::<T, T, T>(leading, half_log_two_pi),
+        E::mul::<T, T, T>(inverse, series),
+    );
+    E::sub::<T, T, T>(stirling, log_product)
+}
+
 /// Specialized interpreter for exponential family computations
 ///
 /// This interpreter is optimized for exponential family operations and can
@@ -395,11 +434,10 @@ pub mod patterns {
     where
         E::Repr<f64>: Clone,
     {
-        // Note: log(x!) would need special handling for integer x
-        // This is a simplified version for demonstration
+        let log_factorial = log_gamma::<E, f64>(E::add(x.clone(), E::constant(1.0)));
         E::sub(
-            E::sub(E::mul(x.clone(), E::ln(lambda.clone())), lambda),
-            E::ln(x), // Simplified - should be log factorial
+            E::sub(E::mul(x, E::ln(lambda.clone())), lambda),
+            log_factorial,
         )
     }
 
-- 
2.43.0


From 0fd1bf445eae9c90faedf8584d6acfe44f835489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 42/49] fix: DistributionEval::log_gamma is accurate above 12

---
 .../src/distributions/final_tagless.rs                 | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..3b0ebf3 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -293,16 +293,10 @@ impl DistributionEval {
         }
     }
 
-    /// Log-gamma function approximation (Stirling's approximation for large values)
+    /// Log-gamma function
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
-        if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
-        } else {
-            // Use built-in gamma function for smaller values
-            special::Gamma::ln_gamma(x).0
-        }
+        special::Gamma::ln_gamma(x).0
     }
 }
 
-- 
2.43.0


From bbc421ae9c867eb2881f97a2be7684c7918f5815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 43/49] fix: generic gamma, beta and Student-t log-densities
 evaluate in every interpreter

---
 .../src/distributions/final_tagless.rs        | 51 +++++++++++--------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index 3b0ebf3..9fc2301 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -450,7 +450,7 @@ pub mod patterns {
         E::add(
             E::add(
                 E::mul(shape.clone(), E::ln(rate.clone())),
-                E::neg(E::ln(E::gamma_function(shape))),
+                E::neg(E::log_gamma_function(shape)),
             ),
             E::sub(E::mul(shape_minus_one, E::ln(x.clone())), E::mul(rate, x)),
         )
@@ -458,7 +458,7 @@ pub mod patterns {
 
     /// Beta distribution log-density in final tagless style
     ///
-    /// Computes: log(B(α,β)) + (α-1)*log(x) + (β-1)*log(1-x)
+    /// Computes: (α-1)*log(x) + (β-1)*log(1-x) - log(B(α,β))
     pub fn beta_log_density<E: DistributionExpr>(
         x: E::Repr<f64>,
         alpha: E::Repr<f64>,
@@ -472,9 +472,12 @@ pub mod patterns {
         let beta_minus_one = E::sub(beta.clone(), one.clone());
         let one_minus_x = E::sub(one, x.clone());
 
-        E::add(
-            E::add(E::log_beta(alpha, beta), E::mul(alpha_minus_one, E::ln(x))),
-            E::mul(beta_minus_one, E::ln(one_minus_x)),
+        E::sub(
+            E::add(
+                E::mul(alpha_minus_one, E::ln(x)),
+                E::mul(beta_minus_one, E::ln(one_minus_x)),
+            ),
+            E::log_beta(alpha, beta),
         )
     }
 
@@ -528,8 +531,8 @@ pub mod patterns {
         E::sub(
             E::sub(
                 E::sub(
-                    E::ln(E::gamma_function(nu_plus_one_half)),
-                    E::ln(E::gamma_function(nu_half)),
+                    E::log_gamma_function(nu_plus_one_half),
+                    E::log_gamma_function(nu_half),
                 ),
                 E::mul(half, E::ln(nu_pi)),
             ),
@@ -540,13 +543,15 @@ pub mod patterns {
 
 // Extension methods for MathExpr to add distribution-specific functions
 pub trait DistributionMathExpr: MathExpr {
-    /// Gamma function Γ(x)
-    fn gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>;
+    /// Gamma function Γ(x), for x > 0
+    fn gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone;
 
-    /// Log-gamma function log(Γ(x))
-    fn log_gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T> {
-        Self::ln(Self::gamma_function(x))
-    }
+    /// Log-gamma function log(Γ(x)), for x > 0
+    fn log_gamma_function<T: NumericType + Float>(x: Self::Repr<T>) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone;
 
     /// Beta function B(α,β) = Γ(α)Γ(β)/Γ(α+β)
     fn beta_function<T: NumericType + Float>(
@@ -556,11 +561,7 @@ pub trait DistributionMathExpr: MathExpr {
     where
         Self::Repr<T>: Clone,
     {
-        let alpha_plus_beta = Self::add(alpha.clone(), beta.clone());
-        Self::div(
-            Self::mul(Self::gamma_function(alpha), Self::gamma_function(beta)),
-            Self::gamma_function(alpha_plus_beta),
-        )
+        Self::exp(Self::log_beta(alpha, beta))
     }
 
     /// Log-beta function log(B(α,β))
@@ -589,8 +590,18 @@ pub trait DistributionMathExpr: MathExpr {
 
 // Blanket implementation for DistributionMathExpr
 impl<T: MathExpr> DistributionMathExpr for T {
-    fn gamma_function<U: NumericType + Float>(_x: Self::Repr<U>) -> Self::Repr<U> {
-        panic!("gamma_function not implemented for this interpreter")
+    fn gamma_function<U: NumericType + Float>(x: Self::Repr<U>) -> Self::Repr<U>
+    where
+        Self::Repr<U>: Clone,
+    {
+        T::exp(T::log_gamma_function(x))
+    }
+
+    fn log_gamma_function<U: NumericType + Float>(x: Self::Repr<U>) -> Self::Repr<U>
+    where
+        Self::Repr<U>: Clone,
+    {
+        measures_exponential_family::exponential_family::final_tagless::log_gamma::<T, U>(x)
     }
 
     fn erf<U: NumericType + Float>(_x: Self::Repr<U>) -> Self::Repr<U> {
-- 
2.43.0


From 6fb2ce560f55ad12a96e17667d084b2044eba0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 44/49] fix: log_sum_exp does not overflow in the direct
 interpreters

---
 .../src/distributions/final_tagless.rs        |  4 +++
 .../src/exponential_family/final_tagless.rs   | 13 ++++----
 symbolic-math/src/final_tagless.rs            | 30 +++++++++++++++++++
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index 9fc2301..b5812f0 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -374,6 +374,10 @@ impl MathExpr for DistributionEval {
     fn cos<T: NumericType + Float>(expr: Self::Repr<T>) -> Self::Repr<T> {
         expr.cos()
     }
+
+    fn ln_sum_exp<T: NumericType + Float>(values: &[Self::Repr<T>]) -> Self::Repr<T> {
+        symbolic_math::final_tagless::stable_ln_sum_exp(values)
+    }
 }
 
 /// Helper functions for common distribution patterns
diff --git a/measures-exponential-family/src/exponential_family/final_tagless.rs b/measures-exponential-family/src/exponential_family/final_tagless.rs
index 88ceb4e..4399204 100644
--- a/measures-exponential-family/src/exponential_family/final_tagless.rs
+++ b/measures-exponential-family/src/exponential_family/final_tagless.rs
@@ -205,13 +205,8 @@ pub trait ExponentialFamilyExpr: MathExpr {
             return values[0].clone();
         }
 
-        // Simplified version: log(exp(x₁) + exp(x₂) + ...)
-        // In practice, this would be handled by the interpreter for numerical stability
-        let mut sum = Self::exp(values[0].clone());
-        for i in 1..values.len() {
-            sum = Self::add(sum, Self::exp(values[i].clone()));
-        }
-        Self::ln(sum)
+        // Handled by the interpreter for numerical stability
+        Self::ln_sum_exp(values)
     }
 }
 
@@ -369,6 +364,10 @@ impl MathExpr for ExpFamEval {
     fn cos<T: NumericType + Float>(expr: Self::Repr<T>) -> Self::Repr<T> {
         expr.cos()
     }
+
+    fn ln_sum_exp<T: NumericType + Float>(values: &[Self::Repr<T>]) -> Self::Repr<T> {
+        symbolic_math::final_tagless::stable_ln_sum_exp(values)
+    }
 }
 
 /// Conversion utilities between exponential family and final tagless approaches
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 9bbe589..e98f5d3 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -213,6 +213,20 @@ pub trait MathExpr {
 
     /// Cosine function
     fn cos<T: NumericType + Float>(expr: Self::Repr<T>) -> Self::Repr<T>;
+
+    /// Logarithm of the sum of the exponentials of one or more values
+    ///
+    /// Interpreters that compute values directly override this with [`stable_ln_sum_exp`].
+    fn ln_sum_exp<T: NumericType + Float>(values: &[Self::Repr<T>]) -> Self::Repr<T>
+    where
+        Self::Repr<T>: Clone,
+    {
+        let mut sum = Self::exp::<T>(values[0].clone());
+        for value in &values[1..] {
+            sum = Self::add::<T, T, T>(sum, Self::exp::<T>(value.clone()));
+        }
+        Self::ln::<T>(sum)
+    }
 }
 
 /// Direct evaluation interpreter for immediate computation
@@ -384,6 +398,22 @@ impl MathExpr for DirectEval {
     fn cos<T: NumericType + Float>(expr: Self::Repr<T>) -> Self::Repr<T> {
         expr.cos()
     }
+
+    fn ln_sum_exp<T: NumericType + Float>(values: &[Self::Repr<T>]) -> Self::Repr<T> {
+        stable_ln_sum_exp(values)
+    }
+}
+
+/// `ln(Σ exp(xᵢ))` computed relative to the largest value, so that nothing overflows
+pub fn stable_ln_sum_exp<T: Float>(values: &[T]) -> T {
+    let max = values.iter().copied().fold(T::neg_infinity(), T::max);
+    if max.is_infinite() {
+        return max;
+    }
+    let sum = values
+        .iter()
+        .fold(T::zero(), |sum, &value| sum + (value - max).exp());
+    max + sum.ln()
 }
 
 /// Extension trait for statistical operations
-- 
2.43.0


From 80f4824369322c1a681a89ae1347bfeb41b77abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 45/49] fix: changing a compiled function's public signature no
 longer calls its code with the wrong arguments

---
 symbolic-math/src/jit.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 9b3c0f5..869257c 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -65,6 +65,9 @@ pub struct GeneralJITFunction {
     /// The JIT module (kept alive to prevent deallocation)
     #[cfg(feature = "jit")]
     _module: JITModule,
+    /// Number of data and parameter inputs the code was compiled for
+    #[cfg(feature = "jit")]
+    arity: (usize, usize),
     /// Function signature information
     pub signature: JITSignature,
     /// Source expression that was compiled
@@ -120,6 +123,7 @@ impl GeneralJITFunction {
             JITSignature::SingleInput => {
                 #[cfg(feature = "jit")]
                 {
+                    self.check_arity(1, 0);
                     let func: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(self.function_ptr) };
                     func(x)
                 }
@@ -139,6 +143,7 @@ impl GeneralJITFunction {
             JITSignature::DataAndParameter => {
                 #[cfg(feature = "jit")]
                 {
+                    self.check_arity(1, 1);
                     let func: extern "C" fn(f64, f64) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
                     func(x, theta)
@@ -160,6 +165,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
+                    self.check_arity(1, *n);
                     match n {
                         2 => {
                             let func: extern "C" fn(f64, f64, f64) -> f64 =
@@ -224,10 +230,22 @@ impl GeneralJITFunction {
     /// Call a function compiled to take its arguments as slices
     #[cfg(feature = "jit")]
     fn call_slices(&self, data: &[f64], params: &[f64]) -> f64 {
+        self.check_arity(data.len(), params.len());
+        assert!(takes_slices(data.len(), params.len()), "Function does not take slices");
         let func: extern "C" fn(*const f64, usize, *const f64, usize) -> f64 =
             unsafe { std::mem::transmute(self.function_ptr) };
         func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
     }
+
+    /// `signature` is public and may have been changed; only the compiled arity is safe to call with
+    #[cfg(feature = "jit")]
+    fn check_arity(&self, data_dims: usize, param_dims: usize) {
+        assert_eq!(
+            (data_dims, param_dims),
+            self.arity,
+            "Function signature mismatch: compiled for other inputs"
+        );
+    }
 }
 
 /// Statistics about the JIT compilation process
@@ -372,6 +390,7 @@ impl GeneralJITCompiler {
         Ok(GeneralJITFunction {
             function_ptr,
             _module: self.module,
+            arity: (data_vars.len(), param_vars.len()),
             signature,
             source_expression: format!("{expr}"),
             compilation_stats: stats,
@@ -448,6 +467,7 @@ impl GeneralJITCompiler {
         Ok(GeneralJITFunction {
             function_ptr,
             _module: self.module,
+            arity: (1, 0),
             signature: JITSignature::SingleInput,
             source_expression: format!("Custom: {}", symbolic.expression),
             compilation_stats: stats,
@@ -563,6 +583,7 @@ impl GeneralJITCompiler {
         Ok(GeneralJITFunction {
             function_ptr,
             _module: self.module,
+            arity: (data_vars.len(), param_vars.len()),
             signature,
             source_expression: format!("FinalTagless: {expr:?}"),
             compilation_stats: stats,
-- 
2.43.0


From bf6f3d0f9476225352b270cd244f5c2c53d3acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 46/49] fix: MixtureMeasure rejects negative weights

---
 .../src/measures/combinators/superposition.rs              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 2a6d72b..6b32dd2 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -34,7 +34,8 @@ impl<M, F: Float> MixtureMeasure<M, F> {
     /// * `weights` - Vector of mixture weights (should sum to 1)
     ///
     /// # Panics
-    /// Panics if components and weights have different lengths or if weights don't sum to 1.
+    /// Panics if components and weights have different lengths, if a weight is negative
+    /// or if weights don't sum to 1.
     #[must_use]
     pub fn new(components: Vec<M>, weights: Vec<F>) -> Self {
         assert_eq!(
@@ -42,6 +43,10 @@ impl<M, F: Float> MixtureMeasure<M, F> {
             weights.len(),
             "Components and weights must have same length"
         );
+        assert!(
+            weights.iter().all(|&w| w >= F::zero()),
+            "Weights must be non-negative"
+        );
 
         // The sum of n rounded terms can be off by about n units in the last place,
         // which for f32 is far above 1e-10.
-- 
2.43.0


From aaf15bfd5d5f047ea8c874d1e0646de2b8ea1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 47/49] fix: product density is zero where one factor is, even
 if the other is infinite

---
 measures-combinators/src/measures/combinators/product.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/product.rs b/measures-combinators/src/measures/combinators/product.rs
index 8223469..7a27854 100644
--- a/measures-combinators/src/measures/combinators/product.rs
+++ b/measures-combinators/src/measures/combinators/product.rs
@@ -60,7 +60,14 @@ where
 {
     fn log_density_wrt_root(&self, x: &(X1, X2)) -> F {
         // Product measure: log(dμ₁ × dμ₂) = log(dμ₁) + log(dμ₂)
-        self.measure1.log_density_wrt_root(&x.0) + self.measure2.log_density_wrt_root(&x.1)
+        let log_density1 = self.measure1.log_density_wrt_root(&x.0);
+        let log_density2 = self.measure2.log_density_wrt_root(&x.1);
+
+        // Zero in one factor is zero overall, even where the other density is infinite
+        if log_density1 == F::neg_infinity() || log_density2 == F::neg_infinity() {
+            return F::neg_infinity();
+        }
+        log_density1 + log_density2
     }
 }
 
-- 
2.43.0


From 62733ee872a87095efc7604c3647f56308987e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 48/49] fix: the static inline Normal evaluator stays finite
 for extreme scales

---
 .../src/exponential_family/jit.rs                     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 331eb71..98c22ea 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -231,20 +231,19 @@ impl StaticInlineJITCompiler {
         mu: f64,
         sigma: f64,
     ) -> StaticInlineJITFunction<impl Fn(f64) -> f64 + Send + Sync> {
-        let sigma_sq = sigma * sigma;
-        let two_sigma_sq = 2.0 * sigma_sq;
-        let log_norm = -0.5 * (2.0 * std::f64::consts::PI * sigma_sq).ln();
+        // sigma is not squared: that overflows or underflows for extreme scales
+        let log_norm = -0.5 * (2.0 * std::f64::consts::PI).ln() - sigma.ln();
 
         let computation = move |x: f64| -> f64 {
-            let diff = x - mu;
-            log_norm - (diff * diff) / two_sigma_sq
+            let standardized = (x - mu) / sigma;
+            log_norm - 0.5 * standardized * standardized
         };
 
         let stats = CompilationStats {
             code_size_bytes: 32,      // Estimate for inline function
             clif_instructions: 4,     // Very few operations
             compilation_time_us: 1,   // Essentially instant
-            embedded_constants: 3,    // mu, sigma_sq, log_norm
+            embedded_constants: 3,    // mu, sigma, log_norm
             estimated_speedup: 100.0, // Massive speedup for static inline
         };
 
-- 
2.43.0


From 138d5edef7107ac81194dac512458dcb438ca0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:46 +0000
Subject: [PATCH 49/49] fix: keep derivatives and other number types through
 the Student's t density

The kernel went through f64, so a dual number came back with a zero derivative.
---
 .../src/distributions/continuous/student_t.rs | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 1e4ca88..b5e92d7 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -73,7 +73,6 @@ impl<T: Float> StudentT<T> {
     {
         // Convert to f64 for gamma function computation
         let nu_f64 = self.nu.to_f64().unwrap();
-        let x_f64 = x.to_f64().unwrap();
 
         // Compute log Γ((ν+1)/2) - log Γ(ν/2) - 0.5*log(νπ)
         let (log_gamma_half_nu_plus_1, _) = f64::midpoint(nu_f64, 1.0).ln_gamma();
@@ -83,9 +82,9 @@ impl<T: Float> StudentT<T> {
             - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
-        let log_kernel = log_kernel(x_f64, nu_f64);
+        let log_kernel = log_kernel(x, self.nu);
 
-        T::from(log_normalization + log_kernel).unwrap()
+        T::from(log_normalization).unwrap() + log_kernel
     }
 
     /// Compute log-density for IID samples efficiently using decomposition.
@@ -101,8 +100,15 @@ impl<T: Float> StudentT<T> {
 }
 
 /// -(ν+1)/2 * log(1 + x²/ν), without overflowing when x² does.
-fn log_kernel(x: f64, nu: f64) -> f64 {
-    -f64::midpoint(nu, 1.0) * 2.0 * (x / nu.sqrt()).hypot(1.0).ln()
+///
+/// Stays in `T`, so that number types carrying derivatives keep them.
+fn log_kernel<T: Float>(x: T, nu: T) -> T {
+    let z = x / nu.sqrt();
+    if z.abs() <= T::one() {
+        -(nu + T::one()) / float_constant::<T>(2.0) * (z * z).ln_1p()
+    } else {
+        -(nu + T::one()) * z.hypot(T::one()).ln()
+    }
 }
 
 impl<T: Float> MeasureMarker for StudentT<T> {
@@ -152,11 +158,7 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
             )
             // Mixed term: -(ν+1)/2 * log(1 + x²/ν)
             .mixed_term(
-                |x: &T, nu: &StudentTParams<T>| {
-                    let nu_f64 = nu.to_f64().unwrap();
-                    let x_f64 = x.to_f64().unwrap();
-                    T::from(log_kernel(x_f64, nu_f64)).unwrap()
-                },
+                |x: &T, nu: &StudentTParams<T>| log_kernel(*x, *nu),
                 "negative scaled log of one plus standardized squared",
             )
             .build()
-- 
2.43.0

