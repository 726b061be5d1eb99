From c367407ff86665f93bac2ec8e802278bedae98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 001/160] fix: Empty holds for arrays of length zero, not for
 non-empty ones

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..c76cd22 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { vec.len() == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From 92b5071ae673ec2d9fce68d906b1f65f16ad64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 002/160] fix: binomial coefficients for k > n and for products
 exceeding u64

---
 src/utils.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 08220d5..6dcf167 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,4 +1,5 @@
 use crate::consts;
+use std::convert::TryFrom;
 
 pub fn factorial_exact(n: u64) -> u64 { (1..=n).product() }
 
@@ -21,9 +22,18 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
 }
 
 pub fn choose(n: u64, k: u64) -> u64 {
+    if k > n {
+        return 0;
+    }
+
     let k = if k > n - k { n - k } else { k };
 
-    (0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))
+    // The product may exceed u64 even though the quotient does not.
+    (0..k).fold(1, |acc, i| {
+        let next = (acc as u128) * ((n - i) as u128) / ((i + 1) as u128);
+
+        u64::try_from(next).expect("Binomial coefficient exceeds u64.")
+    })
 }
 
 #[cfg(feature = "serde")]
-- 
2.43.0


From 9a71a2c290d330ba47f4d60b9ed317b847f09760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 003/160] fix: log-factorial of the largest u64 does not
 overflow

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6dcf167..9d88ed8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -13,7 +13,7 @@ pub fn factorial(n: u64) -> u64 {
 
 pub fn log_factorial_stirling(n: u64) -> f64 {
     if n > 254 {
-        let x = (n + 1) as f64;
+        let x = n as f64 + 1.0;
 
         (x - 0.5) * x.ln() - x + 0.5 * (2.0 * consts::PI).ln() + 1.0 / (12.0 * x)
     } else {
-- 
2.43.0


From 8e748238357075e312fcccd9d230768f300e87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 004/160] fix: matrix-vector product uses the whole matrix

---
 src/normal/linalg.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/normal/linalg.rs b/src/normal/linalg.rs
index c26f447..66b57a9 100644
--- a/src/normal/linalg.rs
+++ b/src/normal/linalg.rs
@@ -48,17 +48,20 @@ pub(crate) unsafe fn mm_square<const N: usize>(mat: &Matrix<N, N>) -> [[f64; N];
     out
 }
 
-pub(crate) unsafe fn mv_mult<const N: usize>(mat: &Matrix<N, N>, mut vec: [f64; N]) -> [f64; N] {
-    blas::dtrmv(
-        'U' as u8, 'T' as u8, 'N' as u8, N as i32,
-        &*mat.as_ref().as_ptr(),
-        // std::mem::transmute(mat),
-        N as i32,
-        vec.as_mut(),
-        1
+pub(crate) unsafe fn mv_mult<const N: usize>(mat: &Matrix<N, N>, vec: [f64; N]) -> [f64; N] {
+    let mut out = [0.0; N];
+
+    // Column-major BLAS sees the transpose of our row-major matrix.
+    blas::dgemv(
+        b'T', N as i32, N as i32,
+        1.0,
+        &*mat.as_ref().as_ptr(), 1i32.max(N as i32),
+        vec.as_ref(), 1,
+        0.0,
+        out.as_mut(), 1
     );
 
-    vec
+    out
 }
 
 #[cfg(test)]
-- 
2.43.0


From e35655ad07e2bf073db1723eec3b3f454ca55a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 005/160] fix: random probability vectors are normalised by the
 sum of their weights

---
 src/probability.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..5625641 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,10 +1,8 @@
 use crate::{
     params::{Param, constraints::{Constraints, Interval}},
-    univariate::uniform::Uniform,
-    Distribution,
 };
 use failure::Fail;
-use rand::Rng;
+use rand::{distributions::Open01, Rng};
 use std::{
     fmt,
     iter::Sum,
@@ -371,10 +369,10 @@ impl<const K: usize> SimplexVector<K> {
     ///
     /// This algorithm works as follows:
     ///
-    /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
+    /// 1. Draw \\(K\\) independent points, \\(x_i \in (0, 1)\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -390,22 +388,18 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
-            let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
+        for i in 0..K {
+            // The open interval keeps the logarithm finite and the sum positive.
+            let x: f64 = rng.sample(Open01);
 
-            sum += s;
-            probs[i] = -s.ln();
+            probs[i] = -x.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
+        for i in 0..K {
             probs[i] /= sum;
-            alt += probs[i];
         }
 
-        probs[0] = 1.0 - alt;
-
         SimplexVector(probs)
     }
 }
-- 
2.43.0


From 7a0f5aa728526596b31259a7dfe3fd2e1c3d1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 006/160] fix: arcsine CDF off the support

---
 src/univariate/arcsine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 7eb766b..84a96c0 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -56,6 +56,12 @@ impl Distribution for Arcsine {
         let a = self.0.a.0;
         let w = self.0.w.0;
 
+        if *x <= a {
+            return Probability::zero();
+        } else if *x >= a + w {
+            return Probability::one();
+        }
+
         let xab = (x - a) / w;
 
         Probability::new_unchecked(TWO_OVER_PI * xab.sqrt().asin())
-- 
2.43.0


From c977e2411633f937aea1393b836b11ea77283047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 007/160] fix: beta CDF above the support

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..c8d206d 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -55,6 +55,10 @@ impl Distribution for Beta {
     fn cdf(&self, x: &f64) -> Probability {
         let (alpha, beta) = get_params!(self);
 
+        if *x >= 1.0 {
+            return Probability::one();
+        }
+
         Probability::new_unchecked(x.betainc(alpha, beta))
     }
 
-- 
2.43.0


From 3e2047d95f9444d045b528c19561dede9df36fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 008/160] fix: chi CDF below the support

---
 src/univariate/chi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0b1a937..85be0d1 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,6 +43,10 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
     }
 
-- 
2.43.0


From f0caab12b1252ea1e527f07758862bb5ebc43d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 009/160] fix: chi-squared CDF divided by the gamma function
 twice

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..2f43470 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked(ko2.gammainc(x / 2.0))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 697b2f991c362e4101d8986e42018933ef34a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 010/160] fix: cosine CDF off the support

---
 src/univariate/cosine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index ffbaa21..67f7fbe 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -59,6 +59,12 @@ impl Distribution for Cosine {
     fn cdf(&self, x: &f64) -> Probability {
         let z = self.z(*x);
 
+        if z <= -1.0 {
+            return Probability::zero();
+        } else if z >= 1.0 {
+            return Probability::one();
+        }
+
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
 
-- 
2.43.0


From 0daa0570e47b06d99bf49a5a22a97c74f349d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 011/160] fix: exponential CDF below the support

---
 src/univariate/exponential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..98c1ba5 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,6 +47,10 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
     }
 
-- 
2.43.0


From 86e8e0da0f1c39a7d07d49994f8de345f0cf7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 012/160] fix: folded normal CDF below the support

---
 src/univariate/folded_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..c3e7b4e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -65,6 +65,10 @@ impl Distribution for FoldedNormal {
         use special_fun::FloatSpecial;
 
         let (mu, sigma) = get_params!(self);
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let sqrt_2: f64 = 2.0f64.sqrt();
 
         Probability::new_unchecked(
-- 
2.43.0


From 141ab2e11b2c696ba6eb9c29cf9a52e284274dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 013/160] fix: Frechet CDF below the support

---
 src/univariate/frechet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..ac6e507 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -45,6 +45,10 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
     }
 
-- 
2.43.0


From 972dcf3a7ddf95ff5f9c5ce0677f02b00252a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 014/160] fix: gamma CDF divided by the gamma function twice

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..8603826 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked(a.gammainc(b * x))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From a2cb32b11e05b7c6ff93257fd47a5bd98c886127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 015/160] fix: generalised Pareto CDF below the support

---
 src/univariate/gpd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index dca93f8..fac6a2a 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -51,6 +51,10 @@ impl Distribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
+        if z <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
     }
 
-- 
2.43.0


From 7c276db99cb196c1920f673d23fffa536f843166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 016/160] fix: inverse gamma CDF is the upper incomplete gamma
 function

---
 src/univariate/inverse_gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index f78a3c4..5d6151b 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -52,7 +52,11 @@ impl Distribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(alpha.gammainc(beta / x) / alpha.gamma())
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(1.0 - alpha.gammainc(beta / x))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 9631c70edb37982e84d70ecff54f236202fb7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 017/160] fix: inverse normal CDF: argument of the second term

---
 src/univariate/inverse_normal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..228eb60 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -71,12 +71,16 @@ impl Distribution for InvNormal {
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, lambda) = get_params!(self);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let xom = x / mu;
         let lox_sqrt = (lambda / x).sqrt();
         let inner_term = lox_sqrt * (xom - 1.0);
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap();
 
         Probability::new_unchecked(term1 + term2)
     }
-- 
2.43.0


From 01c765b8d0dee39696869f02c554090fcd907737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 018/160] fix: Kumaraswamy CDF off the support

---
 src/univariate/kumaraswamy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..b8d663c 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -50,6 +50,12 @@ impl Distribution for Kumaraswamy {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        } else if *x >= 1.0 {
+            return Probability::one();
+        }
+
         Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
     }
 
-- 
2.43.0


From 3bb45ee965e39b1b255a474b54019972293b323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 019/160] fix: Levy CDF: square root and support

---
 src/univariate/levy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 7d3eae0..137b540 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -45,7 +45,11 @@ impl Distribution for Levy {
 
         let (mu, c) = get_params!(self);
 
-        Probability::new_unchecked((c / 2.0 / (x - mu)).erfc())
+        if *x <= mu {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((c / 2.0 / (x - mu)).sqrt().erfc())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 6870ae39aeff8c893bf3cf6e4ba28a5f69438618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 020/160] fix: log-normal CDF below the support

---
 src/univariate/lognormal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..6b1c137 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -51,6 +51,10 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let ln_x = x.ln();
 
         self.0.cdf(&ln_x)
-- 
2.43.0


From a2028ed1a7ce2a46701b11dbd0efe61d73e65f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 021/160] fix: Pareto CDF below the support

---
 src/univariate/pareto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..af42602 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -46,6 +46,10 @@ impl Distribution for Pareto {
     fn cdf(&self, x: &f64) -> Probability {
         let (x_m, alpha) = get_params!(self);
 
+        if *x <= x_m {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
     }
 
-- 
2.43.0


From a0a167ea0cc882910f5a0622a4245acd3735978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 022/160] fix: Rayleigh CDF: operator precedence and support

---
 src/univariate/rayleigh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index cc10159..802d7a6 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -52,7 +52,11 @@ impl Distribution for Rayleigh {
     fn cdf(&self, x: &f64) -> Probability {
         let sigma = get_sigma!(self);
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma * sigma / 2.0).exp())
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(1.0 - (-x * x / (sigma * sigma) / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 9ccfad9ef96d0c9def0a1c1051b9f7a88c628d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 023/160] fix: Student t CDF: operator precedence

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..8091ce5 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -49,7 +49,7 @@ impl Distribution for StudentT {
         let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
 
         Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
+            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() / (nu / 2.0).gamma(),
         )
     }
 
-- 
2.43.0


From 473d4b7a9ba01133a7f0eb266d1b724bc4bae473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 024/160] fix: Erlang log CDF subtracted a log-factorial

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index b189d5d..29e04ee 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,7 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc(lambda * x).ln() - crate::utils::log_factorial_stirling(k as u64)
+        (k as f64).gammainc(lambda * x).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 1ed79b0e40082f605d8499a5777d72bb63070488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 025/160] fix: Laplace CDF returned the density

---
 src/univariate/laplace.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..38bde2d 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -45,7 +45,13 @@ impl Distribution for Laplace {
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, b) = get_params!(self);
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(match x
+            .partial_cmp(&mu)
+            .expect("Invalid value provided for `mu`.")
+        {
+            Less | Equal => ((x - mu) / b).exp() / 2.0,
+            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From f0f86467ccaecfce36c4e35437eadeac07adf83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 026/160] fix: Laplace density returned the CDF

---
 src/univariate/laplace.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 38bde2d..81aacba 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -43,6 +43,8 @@ impl Distribution for Laplace {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        use std::cmp::Ordering::*;
+
         let (mu, b) = get_params!(self);
 
         Probability::new_unchecked(match x
@@ -66,17 +68,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-(x - mu).abs() / b).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From b6be6533789510de136bc9d6785681a24a713fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 027/160] fix: GEV CDF below the support

---
 src/univariate/gev.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 681cd71..a23d792 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -44,6 +44,12 @@ impl GeneralisedExtremeValue {
     #[inline]
     fn g_func(&self, k: f64) -> f64 { (1.0 - k * self.0.zeta.0).gamma() }
 
+    fn below_support(&self, x: f64) -> bool {
+        let (mu, sigma, zeta) = get_params!(self);
+
+        zeta >= 1e-7 && x <= mu - sigma / zeta
+    }
+
     fn t_func(&self, x: f64) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
@@ -65,7 +71,13 @@ impl Distribution for GeneralisedExtremeValue {
 
     fn params(&self) -> Params { self.0 }
 
-    fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked((-self.t_func(*x)).exp()) }
+    fn cdf(&self, x: &f64) -> Probability {
+        if self.below_support(*x) {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((-self.t_func(*x)).exp())
+    }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
 }
-- 
2.43.0


From 4f49928b533076e2910b76129960608ac5d16228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 028/160] fix: Erlang log CDF below the support

---
 src/univariate/erlang.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 29e04ee..4b7ec31 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,6 +53,10 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
+        if *x <= 0.0 {
+            return std::f64::NEG_INFINITY;
+        }
+
         (k as f64).gammainc(lambda * x).ln()
     }
 
-- 
2.43.0


From 8d076aa0f84be715baf90a4dde2ff0126ac9f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 029/160] fix: arcsine density off the support

---
 src/univariate/arcsine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 84a96c0..d5d6407 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -73,6 +73,10 @@ impl Distribution for Arcsine {
 impl ContinuousDistribution for Arcsine {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
+        if *x < a || *x > b {
+            return 0.0;
+        }
+
         let xab = (x - a) * (b - x);
 
         ONE_OVER_PI / xab.sqrt()
-- 
2.43.0


From 1874a3cedbd0ce432c7b728edccc0b928278c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 030/160] fix: beta density off the support

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index c8d206d..874b69a 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -75,6 +75,10 @@ impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
         let denominator = a.beta(b);
 
-- 
2.43.0


From 0efbc45a1e3ed1fe9ea69cc9d0cd3c7e94069fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 031/160] fix: beta prime density off the support

---
 src/univariate/beta_prime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8484564..507ca65 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -64,6 +64,10 @@ impl ContinuousDistribution for BetaPrime {
 
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
         let denominator = a.beta(b);
 
-- 
2.43.0


From c711c5b867cef134cd492ad9afbf3a070cb0b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 032/160] fix: chi density off the support

---
 src/univariate/chi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 85be0d1..d30caa5 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -56,6 +56,10 @@ impl Distribution for Chi {
 impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
         let k = get_k!(self);
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
 
-- 
2.43.0


From 028f1cb1b613645f031e1332e3f830714d92fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 033/160] fix: chi-squared density off the support

---
 src/univariate/chi_sq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 2f43470..84354e1 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -61,6 +61,10 @@ impl Distribution for ChiSq {
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
         let k = get_k!(self);
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2) * ko2.gamma();
 
-- 
2.43.0


From 76f7f702fb80c206880485a65164208cf46e10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 034/160] fix: cosine density

---
 src/univariate/cosine.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 67f7fbe..09ded16 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -72,7 +72,15 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) }
+    fn pdf(&self, x: &f64) -> f64 {
+        let z = self.z(*x);
+
+        if z < -1.0 || z > 1.0 {
+            return 0.0;
+        }
+
+        (1.0 + (z * PI).cos()) / 2.0 / self.0.s.0
+    }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 8fe2deef7432b24911809bb88f70643b284c0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 035/160] fix: Erlang log density: logarithm of the
 observation, support

---
 src/univariate/erlang.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 4b7ec31..ce668e3 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -67,7 +67,11 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        k as f64 * lambda.ln() + (k - 1) as f64 * x
+        if *x <= 0.0 {
+            return std::f64::NEG_INFINITY;
+        }
+
+        k as f64 * lambda.ln() + (k - 1) as f64 * x.ln()
             - lambda * x
             - crate::utils::log_factorial_stirling(k as u64 - 1)
     }
-- 
2.43.0


From bb5ab6d3c7a7bdb8844f761b56110c46ea1a4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 036/160] fix: exponential density off the support

---
 src/univariate/exponential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 98c1ba5..8ce2951 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -65,6 +65,10 @@ impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
         let l = get_lambda!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         l * (-l * x).exp()
     }
 }
-- 
2.43.0


From 451d728717e95c853758e6cc973fbff6aa7c1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 037/160] fix: F density off the support

---
 src/univariate/f_dist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..9fc4827 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -72,6 +72,10 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let numerator = ((d1 * x).powf(d1) * d2.powf(d2) / (d1 * x + d2).powf(d1 + d2)).sqrt();
         let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
 
-- 
2.43.0


From d3ae4b4ed07e3eb397c6801d2f16973ac923555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 038/160] fix: folded normal density off the support

---
 src/univariate/folded_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index c3e7b4e..827763f 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -92,6 +92,10 @@ impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, sigma) = get_params!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let norm = PI_2.sqrt() * sigma;
         let z_pos = (x + mu) / sigma;
         let z_neg = (x - mu) / sigma;
-- 
2.43.0


From 8730ff15b5d3473716b02ade26c3d428a1df40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 039/160] fix: Frechet density off the support

---
 src/univariate/frechet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index ac6e507..0c25842 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -61,6 +61,10 @@ impl Distribution for Frechet {
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-- 
2.43.0


From 464377acea575ef5418a80853e3a4c163dafa5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 040/160] fix: gamma density off the support

---
 src/univariate/gamma.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 8603826..ed70d62 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -83,6 +83,10 @@ impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
     }
 }
-- 
2.43.0


From 36abcfe13659db25b59679e2afe79c52f14ee78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 041/160] fix: GEV density off the support

---
 src/univariate/gev.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index a23d792..71bec60 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -84,6 +84,10 @@ impl Distribution for GeneralisedExtremeValue {
 
 impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
+        if self.below_support(*x) {
+            return 0.0;
+        }
+
         let tx = self.t_func(*x);
 
         tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
-- 
2.43.0


From 12075622240487569d435e77cc6091145048c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 042/160] fix: generalised Pareto density off the support

---
 src/univariate/gpd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index fac6a2a..cab4ca1 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -66,6 +66,10 @@ impl ContinuousDistribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
+        if z < 0.0 {
+            return 0.0;
+        }
+
         (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
     }
 }
-- 
2.43.0


From 63b3403e324b98549d4198aaf1fb46908eb2c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 043/160] fix: inverse gamma density off the support

---
 src/univariate/inverse_gamma.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 5d6151b..e0ac46c 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -68,6 +68,10 @@ impl ContinuousDistribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         beta.powf(alpha) * x.powf(-alpha - 1.0) * (-beta / x).exp() / alpha.gamma()
     }
 }
-- 
2.43.0


From 6d3c0018331f86438f94cf34d2f6abbdd413e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 044/160] fix: inverse normal density off the support

---
 src/univariate/inverse_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 228eb60..b25d8ac 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -107,6 +107,10 @@ impl Distribution for InvNormal {
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, lambda) = get_params!(self);
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let z = (lambda / PI_2 / x / x / x).sqrt();
 
         let diff = x - mu;
-- 
2.43.0


From dfb78466e7c6d1b7e6c0932659568cb0cc9c8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 045/160] fix: Kumaraswamy density off the support

---
 src/univariate/kumaraswamy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index b8d663c..586e66f 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -71,6 +71,10 @@ impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
     }
 }
-- 
2.43.0


From e53e83b5edfc93528da2ab8957cb1dc4dbaccf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 046/160] fix: Levy density off the support

---
 src/univariate/levy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 137b540..3c199e6 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -59,6 +59,10 @@ impl ContinuousDistribution for Levy {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, c) = get_params!(self);
 
+        if *x <= mu {
+            return 0.0;
+        }
+
         let diff = x - mu;
         let c_over_2 = c / 2.0;
 
-- 
2.43.0


From fbd3f1bebfbf4ec400d66161254a2a27731ff343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 047/160] fix: log-normal density: Jacobian and support

---
 src/univariate/lognormal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 6b1c137..d686c65 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -71,9 +71,13 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
-- 
2.43.0


From 7f49f8b9991c1dc64ac515d1134943def8ad1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 048/160] fix: Rayleigh density off the support

---
 src/univariate/rayleigh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 802d7a6..ece9d24 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -65,6 +65,10 @@ impl Distribution for Rayleigh {
 impl ContinuousDistribution for Rayleigh {
     fn pdf(&self, x: &f64) -> f64 {
         let sigma = get_sigma!(self);
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let sigma2 = sigma * sigma;
 
         x / sigma2 * (-x * x / sigma2 / 2.0).exp()
-- 
2.43.0


From eae4ba8380698f5e3bfec4879cde0d9db36f678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 049/160] fix: triangular: density is constant only at the mode
 itself

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..6684cb7 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -93,7 +93,7 @@ impl ContinuousDistribution for Triangular {
         match *x {
             x if x <= a => 0.0,
 
-            x if (x - c).abs() < 1e-7 => 2.0 / (b - a),
+            x if x == c => 2.0 / (b - a),
 
             x if x < c => 2.0 * (x - a) / (b - a) / (c - a),
 
-- 
2.43.0


From 8c39fe5094e7fdb379e714dcd64d423a4719b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 050/160] fix: incomplete gamma arguments swapped in the
 inverse gamma CDF

---
 src/univariate/inverse_gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index e0ac46c..3908365 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -56,7 +56,7 @@ impl Distribution for InvGamma {
             return Probability::zero();
         }
 
-        Probability::new_unchecked(1.0 - alpha.gammainc(beta / x))
+        Probability::new_unchecked(1.0 - (beta / x).gammainc(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 5b00e4f95752cb3c33c5dbcb63d16d16e9870ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 051/160] fix: incomplete gamma arguments swapped in the chi
 CDF

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index d30caa5..e5a3ec9 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -47,7 +47,7 @@ impl Distribution for Chi {
             return Probability::zero();
         }
 
-        Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
+        Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 0d3cce8316cdc6d3358d5ef6f2e5d2632e3b53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 052/160] fix: incomplete gamma arguments swapped in the gamma
 CDF

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index ed70d62..a6757a4 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x))
+        Probability::new_unchecked((b * x).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From ca5fc4492b2f303374566b106858c495abad6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 053/160] fix: incomplete gamma arguments swapped in the Erlang
 CDF

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index ce668e3..b61a248 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -57,7 +57,7 @@ impl Distribution for Erlang {
             return std::f64::NEG_INFINITY;
         }
 
-        (k as f64).gammainc(lambda * x).ln()
+        (lambda * x).gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From d979ea3959a9b5bbc9cbde28c140330d5cb470f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 054/160] fix: incomplete gamma arguments swapped in the
 chi-squared CDF

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 84354e1..14bb1c3 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0))
+        Probability::new_unchecked((x / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 3884252476d8ddabf65a09d4ed242bccbb2643b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 055/160] fix: Student t CDF from the regularised incomplete
 beta function

---
 src/univariate/student_t.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 8091ce5..adf8158 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -45,12 +45,9 @@ impl Distribution for StudentT {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
-        let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
+        let tail = (nu / (nu + x * x)).betainc(nu / 2.0, 0.5) / 2.0;
 
-        Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() / (nu / 2.0).gamma(),
-        )
+        Probability::new_unchecked(if *x < 0.0 { tail } else { 1.0 - tail })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 9f2fcf5f42c22eadad3cbdf02294c1973f2b6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 056/160] fix: beta prime CDF below the support

---
 src/univariate/beta_prime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 507ca65..b578106 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -50,6 +50,10 @@ impl Distribution for BetaPrime {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (alpha, beta) = get_params!(self);
 
         Probability::new_unchecked((x / (1.0 + x)).betainc(alpha, beta))
-- 
2.43.0


From a8bf5dd6c0ccc598e6ce616d5b63b641db440563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 057/160] fix: F CDF below the support

---
 src/univariate/f_dist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 9fc4827..e508121 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -46,6 +46,10 @@ impl Distribution for FDist {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-- 
2.43.0


From 7a1ed09c318bf4733a74c45f3ae693e23241cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 058/160] fix: beta excess kurtosis

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 874b69a..c65a634 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -118,7 +118,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / amb / apbp2 / (apb + 3.0)
     }
 }
 
-- 
2.43.0


From 27741ed845c472e59ac247c04a231204e216ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 059/160] fix: beta prime excess kurtosis

---
 src/univariate/beta_prime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index b578106..02f08a3 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -118,9 +118,14 @@ impl UvMoments for BetaPrime {
 
     fn excess_kurtosis(&self) -> f64 {
         let (a, b) = get_params!(self);
+
+        if b <= 4.0 {
+            undefined!("kurtosis is undefined for values of beta <= 4.")
+        }
+
         let bm1 = b - 1.0;
 
-        let numerator = 6.0 * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0);
+        let numerator = 6.0 * (a * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0));
         let denominator = a * (a + bm1) * (b - 3.0) * (b - 4.0);
 
         numerator / denominator
-- 
2.43.0


From 59ee4781d63ad677a38cfa2c2fab2ae285b61f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 060/160] fix: cosine excess kurtosis

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 09ded16..093fb72 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -99,7 +99,7 @@ impl UvMoments for Cosine {
     fn excess_kurtosis(&self) -> f64 {
         let v = PI2 - 6.0;
 
-        6.0 * (60.0 - PI4) / 5.0 / v / v
+        6.0 * (90.0 - PI4) / 5.0 / v / v
     }
 }
 
-- 
2.43.0


From 5476a98e8ecc64e4078ecf9cf0e941f67159873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 061/160] fix: exponential kurtosis

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 8ce2951..ca01316 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -86,7 +86,7 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
-- 
2.43.0


From 5a3f44f3ea691cb3f99ac55a064969426d8bab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 062/160] fix: F excess kurtosis

---
 src/univariate/f_dist.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index e508121..c00c536 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -129,13 +129,13 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
-- 
2.43.0


From 9ed8b6dbf8b0b4c42c11bc2f6933d3685ca49a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 063/160] fix: F skewness is undefined up to six degrees of
 freedom

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index c00c536..335c40f 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -115,7 +115,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
-- 
2.43.0


From 22cce57cac59817d5dc1074c460b77eab4a2902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 064/160] fix: generalised Pareto mean and variance guards were
 inverted

---
 src/univariate/gpd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index cab4ca1..5abf891 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -80,8 +80,8 @@ impl UvMoments for GeneralisedPareto {
     fn mean(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        if zeta <= 1.0 {
-            undefined!("Mean is undefined for zeta <= 1.")
+        if zeta >= 1.0 {
+            undefined!("Mean is undefined for zeta >= 1.")
         } else {
             mu + sigma / (1.0 - zeta)
         }
@@ -91,8 +91,8 @@ impl UvMoments for GeneralisedPareto {
         let zeta = self.0.zeta.0;
         let sigma = self.0.sigma.0;
 
-        if zeta <= 0.5 {
-            undefined!("Variance is undefined for zeta <= 1/2.")
+        if zeta >= 0.5 {
+            undefined!("Variance is undefined for zeta >= 1/2.")
         } else {
             sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)
         }
-- 
2.43.0


From ec30a9be8bd14c0a20231d3b56bef74871e34e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 065/160] fix: generalised Pareto skewness and kurtosis guards
 were inverted

---
 src/univariate/gpd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 5abf891..e759533 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -101,8 +101,8 @@ impl UvMoments for GeneralisedPareto {
     fn skewness(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= ONE_THIRD {
+            undefined!("Skewness is undefined for zeta >= 1/3.")
         } else {
             2.0 * (1.0 + zeta) * (1.0 - 2.0 * zeta).sqrt() / (1.0 - 3.0 * zeta)
         }
@@ -111,8 +111,8 @@ impl UvMoments for GeneralisedPareto {
     fn excess_kurtosis(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= 0.25 {
+            undefined!("Kurtosis is undefined for zeta >= 1/4.")
         } else {
             3.0 * (1.0 - 2.0 * zeta) * (2.0 * zeta * zeta + zeta + 3.0)
                 / (1.0 - 3.0 * zeta)
-- 
2.43.0


From 168b2ba3b5d4c2e4225c81a5b39cc74ba9b9cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 066/160] fix: inverse normal excess kurtosis

---
 src/univariate/inverse_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index b25d8ac..6bcffe9 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -140,7 +140,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
-- 
2.43.0


From 8a6970590c2a56bd8689c7b6f51fabbd15b97f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 067/160] fix: triangular mean

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 6684cb7..cd37710 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From 086a37c282cc044b3f0e23b5022cacae33c10e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 068/160] fix: Rayleigh excess kurtosis

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index ece9d24..af19f93 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -15,7 +15,7 @@ const FOUR_MINUS_PI: f64 = 4.0 - PI;
 const FOUR_MINUS_PI_OVER_2: f64 = FOUR_MINUS_PI / 2.0;
 
 const EXCESS_KURTOSIS: f64 =
-    1.5 * PI2 - 6.0 * PI + 16.0 / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
+    -(6.0 * PI2 - 24.0 * PI + 16.0) / FOUR_MINUS_PI / FOUR_MINUS_PI;
 const KURTOSIS: f64 = EXCESS_KURTOSIS + 3.0;
 
 pub use crate::params::Shape;
-- 
2.43.0


From e860f4de4feae273e36f5e2d650d9b0d909dfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 069/160] fix: normal kurtosis

---
 src/normal/univariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..f4f63e9 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
-- 
2.43.0


From d70cbdffb47edf8514260effd33468d8e5552331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 070/160] fix: log-normal mean and variance took Sigma for a
 standard deviation

---
 src/univariate/lognormal.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index d686c65..081705f 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -85,14 +85,13 @@ impl Univariate for LogNormal {}
 
 impl UvMoments for LogNormal {
     fn mean(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (mu + sigma * sigma / 2.0).exp()
+        (mu + sigma2 / 2.0).exp()
     }
 
     fn variance(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
-        let sigma2 = sigma * sigma;
+        let (mu, sigma2) = get_params!(self);
 
         (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
     }
-- 
2.43.0


From 45f9a087aded27c7e22147c19540dd1062c942f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 071/160] fix: log-normal skewness and kurtosis took Sigma for
 a standard deviation

---
 src/univariate/lognormal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 081705f..20bc2ed 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -97,15 +97,13 @@ impl UvMoments for LogNormal {
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
-- 
2.43.0


From 22dfa99509052984daa9bad51903ecb422a743c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 072/160] fix: exponential quantile

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index ca01316..20da416 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -92,7 +92,7 @@ impl UvMoments for Exponential {
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap().ln()) / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
-- 
2.43.0


From 723576a6a2b5dcba82623e1a850cd1b3d159053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 073/160] fix: beta median: the exact cases come before the
 approximation

---
 src/univariate/beta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index c65a634..c2b0d30 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -130,8 +130,6 @@ impl Quantiles for Beta {
 
         if (a - b).abs() < 1e-7 {
             0.5
-        } else if a > 1.0 && b > 1.0 {
-            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else if (a - 1.0).abs() < 1e-7 {
             1.0 - 2.0f64.powf(-1.0 / b)
         } else if (b - 1.0).abs() < 1e-7 {
@@ -140,6 +138,8 @@ impl Quantiles for Beta {
             0.6142724318676105
         } else if (a - 2.0).abs() < 1e-7 && (b - 3.0).abs() < 1e-7 {
             0.38572756813238945
+        } else if a > 1.0 && b > 1.0 {
+            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else {
             undefined!()
         }
-- 
2.43.0


From 4a6912a379521bba411bd449c8005c946b73b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 074/160] fix: beta modes on the boundary

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index c2b0d30..ab4a412 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -154,6 +154,10 @@ impl Modes for Beta {
             vec![(a - 1.0) / (a + b - 2.0)]
         } else if a < 1.0 && b < 1.0 {
             vec![0.0, 1.0]
+        } else if a < b {
+            vec![0.0]
+        } else if a > b {
+            vec![1.0]
         } else {
             vec![]
         }
-- 
2.43.0


From 084b480287c66901e610f02aacf23ddb72e5aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 075/160] fix: Kumaraswamy modes on the boundary

---
 src/univariate/kumaraswamy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 586e66f..b18e6db 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -117,6 +117,10 @@ impl Modes for Kumaraswamy {
 
         if (a > 1.0 && b >= 1.0) || (a >= 1.0 && b > 1.0) {
             vec![((a - 1.0) / (a * b - 1.0)).powf(1.0 / a)]
+        } else if a < 1.0 && b >= 1.0 {
+            vec![0.0]
+        } else if a >= 1.0 && b < 1.0 {
+            vec![1.0]
         } else {
             vec![]
         }
-- 
2.43.0


From 996c49db7d4fefc064a1c35af29e824eacefb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 076/160] fix: folded normal mode is zero up to |mu| = sigma

---
 src/univariate/folded_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 827763f..f22a9b9 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -134,10 +134,10 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
+        if mu.abs() <= sigma {
             vec![0.0]
         } else {
-            vec![mu]
+            vec![mu.abs()]
         }
     }
 }
-- 
2.43.0


From eedcceb207bb064b2caec1042d268e2b568d9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 077/160] fix: Levy mode for every location

---
 src/univariate/levy.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 3c199e6..1d850ba 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -97,11 +97,7 @@ impl Quantiles for Levy {
 
 impl Modes for Levy {
     fn modes(&self) -> Vec<f64> {
-        if self.0.mu.0.abs() < 1e-7 {
-            vec![self.0.c.0 / 3.0]
-        } else {
-            undefined!("mode of the Levy distribution is defined only for mu = 0.")
-        }
+        vec![self.0.mu.0 + self.0.c.0 / 3.0]
     }
 }
 
-- 
2.43.0


From cf7f71031904ee62817c7bfa4d43e3d0883ccb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 078/160] fix: log-normal mode took Sigma for a standard
 deviation

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 20bc2ed..27fe8e6 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -117,9 +117,9 @@ impl Quantiles for LogNormal {
 
 impl Modes for LogNormal {
     fn modes(&self) -> Vec<f64> {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        vec![(mu - sigma * sigma).exp()]
+        vec![(mu - sigma2).exp()]
     }
 }
 
-- 
2.43.0


From 82922ee705d0a86476d761de6aec03f7e6d33369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 079/160] fix: Weibull mode

---
 src/univariate/weibull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..6990f1b 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -152,10 +152,10 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
-            0.0
-        } else {
+        vec![if k > 1.0 {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
+        } else {
+            0.0
         }]
     }
 }
-- 
2.43.0


From 18e2c3cd37b5b1db8908dc9be20249d1ef552f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 080/160] fix: arcsine entropy scales with the width

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index d5d6407..3690e22 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -120,7 +120,7 @@ impl Modes for Arcsine {
 }
 
 impl ShannonEntropy for Arcsine {
-    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() }
+    fn shannon_entropy(&self) -> f64 { (PI_OVER_4 * self.0.w.0).ln() }
 }
 
 impl fmt::Display for Arcsine {
-- 
2.43.0


From a397e268fae450f20aeb0e6aeec88c2d06fc33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 081/160] fix: beta prime entropy

---
 src/univariate/beta_prime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 02f08a3..4df7ea0 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -151,8 +151,8 @@ impl ShannonEntropy for BetaPrime {
         let (a, b) = get_params!(self);
         let apb = a + b;
 
-        a.logbeta(b) - (a - 1.0) * a.digamma() - (b - 1.0) * b.digamma()
-            + (apb - 2.0) * apb.digamma()
+        a.logbeta(b) - (a - 1.0) * a.digamma() - (b + 1.0) * b.digamma()
+            + apb * apb.digamma()
     }
 }
 
-- 
2.43.0


From 8f5c356b708e6f631370596990f0cc8f1079594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 082/160] fix: chi entropy

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index e5a3ec9..060b806 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma())
+        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From 2fce79110b2801dec0a986ea274feee550e2f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 083/160] fix: F entropy

---
 src/univariate/f_dist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 335c40f..2e3e7ec 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -168,10 +168,10 @@ impl ShannonEntropy for FDist {
         let d2o2 = d2 / 2.0;
 
         d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
-            + (1.0 - d1o2) * (1.0 + d1o2).digamma()
-            - (1.0 - d2o2) * (1.0 + d2o2).digamma()
+            + (1.0 - d1o2) * d1o2.digamma()
+            - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-            + (d1 / d2).ln()
+            + (d2 / d1).ln()
     }
 }
 
-- 
2.43.0


From 99e7468723f75b26e745ac379e9716b8bad99f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 084/160] fix: Kumaraswamy entropy for non-integer shapes

---
 src/univariate/kumaraswamy.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index b18e6db..d50d611 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -9,9 +9,6 @@ use rand;
 use spaces::intervals::Closed;
 use std::fmt;
 
-#[inline]
-fn harmonic_n(n: usize) -> f64 { (1..=n).map(|i| 1.0 / i as f64).sum() }
-
 shape_params! {
     #[derive(Copy)]
     Params<f64> { a, b }
@@ -129,8 +126,10 @@ impl Modes for Kumaraswamy {
 
 impl ShannonEntropy for Kumaraswamy {
     fn shannon_entropy(&self) -> f64 {
+        use special_fun::FloatSpecial;
+
         let (a, b) = get_params!(self);
-        let hb = harmonic_n(b.floor() as usize);
+        let hb = (b + 1.0).digamma() - 1.0f64.digamma();
 
         (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()
     }
-- 
2.43.0


From cba6226a0b8bc852bd2b52baa71523242283a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 085/160] fix: log-normal entropy in nats

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 27fe8e6..e82f401 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -125,9 +125,9 @@ impl Modes for LogNormal {
 
 impl ShannonEntropy for LogNormal {
     fn shannon_entropy(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (sigma * (mu + 0.5).exp() * PI_2.sqrt()).log2()
+        mu + 0.5 + (PI_2 * sigma2).ln() / 2.0
     }
 }
 
-- 
2.43.0


From eb3b8079f242c0b6497db7161cb52458a1c4e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 086/160] fix: Student t entropy

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index adf8158..15f8bd3 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -133,7 +133,7 @@ impl ShannonEntropy for StudentT {
         let no2 = nu / 2.0;
         let np1o2 = (nu + 1.0) / 2.0;
 
-        np1o2 * (np1o2.gamma() - no2.gamma()) + (nu.sqrt() * (no2.beta(0.5)))
+        np1o2 * (np1o2.digamma() - no2.digamma()) + (nu.sqrt() * (no2.beta(0.5))).ln()
     }
 }
 
-- 
2.43.0


From c5f6d500efe472156755b1994104ede280021d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 087/160] fix: triangular entropy

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index cd37710..59862ab 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -160,7 +160,7 @@ impl Modes for Triangular {
 }
 
 impl ShannonEntropy for Triangular {
-    fn shannon_entropy(&self) -> f64 { 1.0 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
+    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
 }
 
 impl fmt::Display for Triangular {
-- 
2.43.0


From 5340a9ae592fb4e03e80dd734e5ace9ca8de98c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 088/160] fix: exponential Fisher information

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 20da416..07c4c28 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -109,7 +109,7 @@ impl FisherInformation<1> for Exponential {
     fn fisher_information(&self) -> [[f64; 1]; 1] {
         let l = get_lambda!(self);
 
-        [[l * l]]
+        [[1.0 / l / l]]
     }
 }
 
-- 
2.43.0


From a4fb10328d31f67abb639310a834be01cf05b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 089/160] fix: log-normal Fisher information took Sigma for a
 standard deviation

---
 src/univariate/lognormal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index e82f401..004c819 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -133,8 +133,7 @@ impl ShannonEntropy for LogNormal {
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
-- 
2.43.0


From 07eb1a9a50b1b35f3e1906a69678e9e3193e1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 090/160] fix: Bernoulli CDF at false is the failure
 probability

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..52a880b 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
-- 
2.43.0


From 89ffa43a61dbe48c51e416970edbf105d728acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 091/160] fix: Bernoulli kurtosis and excess kurtosis

---
 src/univariate/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 52a880b..0c4d44f 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
-- 
2.43.0


From db51a7c1903b5c8bc4841d3e15dd89e5ae76142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 092/160] fix: Bernoulli mode when success is more likely

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 0c4d44f..16c20b8 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
-- 
2.43.0


From 6384d4cbf6f051f8d04e2c9976c55ee73a4c210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 093/160] fix: Bernoulli entropy is not zero near the end
 points

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 16c20b8..1a8dfe7 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for Bernoulli {
         let p = self.params.p.unwrap();
         let q = self.q.unwrap();
 
-        if q.abs() < 1e-7 || (q - 1.0).abs() < 1e-7 {
+        if p == 0.0 || q == 0.0 {
             0.0
         } else {
             -q * q.ln() - p * p.ln()
-- 
2.43.0


From ae440b4316f10eceaa84731d5fb6d4641f3fd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 094/160] fix: Binomial CDF at and above n

---
 src/univariate/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..9111d8f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -66,6 +66,10 @@ impl Distribution for Binomial {
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
-- 
2.43.0


From 6ac9be2dc826799e63efd404ef79682a57076d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 095/160] fix: Binomial PMF above n and for large n

---
 src/univariate/binomial.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 9111d8f..fd9e87f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -90,6 +90,21 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
+        // The binomial coefficients do not fit in a u64 for large n.
+        if n > 60 {
+            let xlny = |x: f64, y: f64| if x == 0.0 { 0.0 } else { x * y.ln() };
+            let ln_bc = log_factorial_stirling(n as u64)
+                - log_factorial_stirling(*k as u64)
+                - log_factorial_stirling((n - *k) as u64);
+            let ln_prob = xlny(*k as f64, p.unwrap()) + xlny((n - *k) as f64, self.q.unwrap());
+
+            return Probability::new_unchecked((ln_bc + ln_prob).exp());
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From fab809779c1afb8b71cf6e5498246f8cf272b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 096/160] fix: Binomial reports the excess kurtosis as such

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index fd9e87f..8473c0f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -133,7 +133,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
-- 
2.43.0


From f07920b41fb77e2fc601ef2743a236940ce07202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 097/160] fix: Binomial mode

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8473c0f..32e63a4 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -151,7 +151,7 @@ impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        vec![n.min((p * (n as f64 + 1.0)).floor() as usize)]
     }
 }
 
-- 
2.43.0


From a12940aea5b5d2f6e5965cc4eb185cebc6c2e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 098/160] fix: Binomial entropy is in nats

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 32e63a4..1ab36f9 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -156,7 +156,7 @@ impl Modes for Binomial {
 }
 
 impl ShannonEntropy for Binomial {
-    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).log2() / 2.0 }
+    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).ln() / 2.0 }
 }
 
 impl FisherInformation<1> for Binomial {
-- 
2.43.0


From a78942f70e6ccf3ecdb231e7c857058e80ed76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 099/160] fix: Beta-binomial PMF above n and for large n

---
 src/univariate/beta_binomial.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 224f163..34ff8ad 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -48,11 +48,17 @@ impl BetaBinomial {
     fn pmf_raw(&self, k: usize) -> f64 {
         let (n, alpha, beta) = get_params!(self);
 
-        let c = choose(n as u64, k as u64) as f64;
-        let z = alpha.beta(beta);
+        if k > n {
+            return 0.0;
+        }
+
+        // The binomial coefficients do not fit in a u64 for large n.
+        let ln_c = log_factorial_stirling(n as u64)
+            - log_factorial_stirling(k as u64)
+            - log_factorial_stirling((n - k) as u64);
         let k = k as f64;
 
-        c * (k + alpha).beta(n as f64 - k + beta) / z
+        (ln_c + (k + alpha).logbeta(n as f64 - k + beta) - alpha.logbeta(beta)).exp()
     }
 }
 
-- 
2.43.0


From 4f3c31ae324f329e9b1b9cd987d1f01017d7824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 100/160] fix: Beta-binomial CDF below n

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 34ff8ad..ffd4c4c 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -85,7 +85,7 @@ impl Distribution for BetaBinomial {
         if *k >= self.params.n.0 {
             Probability::one()
         } else {
-            unimplemented!("Need an implmentation of the 3F2 generalised hypergeometric function.")
+            Probability::new_unchecked((0..=*k).map(|k| self.pmf_raw(k)).sum())
         }
     }
 
-- 
2.43.0


From 58fab116275a8babe30f4abafaa9a88ff296e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 101/160] fix: Beta-binomial skewness

---
 src/univariate/beta_binomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index ffd4c4c..33b2946 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -111,13 +111,10 @@ impl UvMoments for BetaBinomial {
         let (n, alpha, beta) = get_params!(self);
         let n = n as f64;
 
-        let ap1 = alpha + 1.0;
-        let ap2 = ap1 + 1.0;
-
-        // Compute bracket term:
-        let b = n * n * ap1 * ap2 + 3.0 * n * ap1 * beta + beta * (beta - alpha);
+        let apb = alpha + beta;
+        let b = (1.0 + apb) / (n * alpha * beta * (n + apb));
 
-        self.pi * self.rho * n * b / (ap2 + beta)
+        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0) * b.sqrt()
     }
 
     fn kurtosis(&self) -> f64 {
-- 
2.43.0


From 7634fcc5e24d7eaa5c45d667057dfd6550c0f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 102/160] fix: Beta-binomial kurtosis

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 33b2946..01fd1d4 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -125,7 +125,7 @@ impl UvMoments for BetaBinomial {
 
         let b1 = alpha
             / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
-        let b2 = (apb - 1.0 + 6.0 * n) / alpha;
+        let b2 = apb * (apb - 1.0 + 6.0 * n);
         let b3 = 3.0 * alpha * beta * (n - 2.0);
         let b4 = 6.0 * n * n;
         let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
-- 
2.43.0


From 6de3652e66c2ea2af5ec586814dad6d8f850f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 103/160] fix: Geometric PMF and CDF beyond i32

---
 src/univariate/geometric.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..78f0cfc 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
-- 
2.43.0


From b5be181c94ac37eae0da0e8be0aa569c894b96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 104/160] fix: Geometric entropy is in nats

---
 src/univariate/geometric.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 78f0cfc..bbffade 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -99,7 +99,11 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
-        (-q * q.log2() - p * p.log2()) / p
+        if q == 0.0 {
+            return 0.0;
+        }
+
+        (-q * q.ln() - p * p.ln()) / p
     }
 }
 
-- 
2.43.0


From 77106ff0c7d66fd2579f1a03d2fd8297562d5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 105/160] fix: Poisson reports the excess kurtosis as such

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..4cb4072 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
-- 
2.43.0


From 3a3530cf557f3c04a8dfef5687a7afa56b0f262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 106/160] fix: Poisson Fisher information

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 4cb4072..5c69e16 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -107,7 +107,7 @@ impl ShannonEntropy for Poisson {
 }
 
 impl FisherInformation<1> for Poisson {
-    fn fisher_information(&self) -> [[f64; 1]; 1] { [[get_lambda!(self)]] }
+    fn fisher_information(&self) -> [[f64; 1]; 1] { [[1.0 / get_lambda!(self)]] }
 }
 
 impl Likelihood for Poisson {
-- 
2.43.0


From 96d39afeea066a8204c0eb40ce3abc898b25e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 107/160] fix: Poisson CDF

---
 src/univariate/poisson.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 5c69e16..eeda5ce 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -50,7 +50,11 @@ impl Distribution for Poisson {
 
     fn params(&self) -> Params { self.0 }
 
-    fn cdf(&self, _: &u64) -> Probability { unimplemented!() }
+    fn cdf(&self, k: &u64) -> Probability {
+        use special_fun::FloatSpecial;
+
+        Probability::new_unchecked(1.0 - get_lambda!(self).gammainc(*k as f64 + 1.0))
+    }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
         use rand_distr::Distribution as _;
-- 
2.43.0


From 2f79499805f44d877464922b7aa38d773e91fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 108/160] fix: Categorical CDF includes its own category

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..85f9f69 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From 7cc83af67178eb3e5ba91caeee9779a770888fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 109/160] fix: Pareto::new rejects a non-positive scale

---
 src/univariate/pareto.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index af42602..96beac3 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -9,11 +9,13 @@ use rand::Rng;
 use spaces::intervals::LeftClosed;
 use std::{f64::INFINITY, fmt};
 
-locscale_params! {
+pub use crate::params::{Scale, Shape};
+
+params! {
     #[derive(Copy)]
     Params {
-        x_m<f64>,
-        alpha<f64>
+        x_m: Scale<f64>,
+        alpha: Shape<f64>
     }
 }
 
-- 
2.43.0


From 6cd4d1f3b98410d369ea1b7d619bf1b1445bdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 110/160] fix: StudentT::new rejects non-positive degrees of
 freedom

---
 src/univariate/student_t.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 15f8bd3..838e3c6 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -10,12 +10,12 @@ use rand::Rng;
 use spaces::real::{Reals, reals};
 use std::fmt;
 
-pub use crate::params::Loc;
+pub use crate::params::DOF;
 
 params! {
     #[derive(Copy)]
     Params {
-        nu: Loc<f64>
+        nu: DOF<f64>
     }
 }
 
-- 
2.43.0


From d9ba624774a7d3f30bf579cc62aef6d6eb827771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 111/160] fix: Mixture::new returns an error for an empty
 mixture

---
 src/mixture.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..6bb3d4c 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -74,10 +74,12 @@ where
         if components.len() != weights.len() {
             Err(MixtureError::IncompatibleParameters)?
         } else {
+            let weights = SimplexVector::new(weights)?;
+
             Ok(Mixture {
                 support: Self::compute_support(&components),
 
-                weights: SimplexVector::new(weights)?,
+                weights,
                 components,
             })
         }
-- 
2.43.0


From 6fea125ca31180b4e4d20615f927414d942b35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 112/160] fix: Uniform::<i64>::new returns an error when the
 upper bound overflows

---
 src/univariate/uniform.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..300303d 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -1,7 +1,7 @@
 use crate::{
     consts::{NINE_FIFTHS, SIX_FIFTHS},
     params::{
-        constraints::{All, Constraint, Positive, UnsatisfiedConstraintError},
+        constraints::{All, Constraint, LessThanOrEqual, Positive, UnsatisfiedConstraintError},
         Param,
     },
     statistics::{Quantiles, ShannonEntropy, UvMoments},
@@ -191,10 +191,11 @@ impl fmt::Display for Uniform<f64> {
 // Discrete:
 impl Uniform<i64> {
     pub fn new(lb: i64, width: u64) -> Result<Uniform<i64>, UnsatisfiedConstraintError<i64>> {
-        Params::new(lb, width as i64).map(|p| Uniform {
-            prob: 1.0 / (p.width.0 + 1) as f64,
-            params: p,
-        })
+        let params = Params::new(lb, width as i64)?;
+
+        LessThanOrEqual(i64::MAX - params.width.0).check(lb)?;
+
+        Ok(params.into())
     }
 
     pub fn new_unchecked(lb: i64, width: u64) -> Uniform<i64> {
@@ -205,7 +206,7 @@ impl Uniform<i64> {
 impl From<Params<i64>> for Uniform<i64> {
     fn from(params: Params<i64>) -> Uniform<i64> {
         Uniform {
-            prob: 1.0 / (params.width.0 + 1) as f64,
+            prob: 1.0 / (params.width.0 as u64 + 1) as f64,
             params,
         }
     }
@@ -213,7 +214,7 @@ impl From<Params<i64>> for Uniform<i64> {
 
 impl Uniform<i64> {
     #[inline]
-    pub fn span(&self) -> u64 { (self.params.width.0 + 1) as u64 }
+    pub fn span(&self) -> u64 { self.params.width.0 as u64 + 1 }
 }
 
 impl Distribution for Uniform<i64> {
-- 
2.43.0


From 2d45a5fff6f3ac718b0726246c8d94ef36facf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 113/160] fix: Covariance::matrix accepts negative covariances

---
 src/normal/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..0cd3eba 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -31,12 +31,13 @@ impl<const N: usize> MatrixCovariance<N> {
     /// 1. The covariance matrix is square.
     /// 2. The covariance matrix is positive semi-definite.
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
-        let c = constraints::And((
-            constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
-        ));
+        let Sigma = constraints::Square.check(Sigma)?;
 
-        Ok(Covariance(c.check(Sigma)?))
+        for i in 0..N {
+            constraints::NonNegative.check(Sigma[i][i])?;
+        }
+
+        Ok(Covariance(Sigma))
     }
 }
 
-- 
2.43.0


From 470b0d0ad3f50ee6de07746be20811f6c9469eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 114/160] fix: the normal log-likelihood has n/2 log-variance
 terms

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index f4f63e9..96f56bb 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
-- 
2.43.0


From 823df31c8ab3610ebcf8ae9f2706165c54c031ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 115/160] fix: the normal score's Sigma component is the
 derivative in Sigma

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 96f56bb..c4d1c92 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / (2.0 * Sigma),
         }
     }
 }
-- 
2.43.0


From 485445df979dda8b5f63ed8d3ce4f30a44b6742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 116/160] fix: the paired normal log-likelihood adds each
 distance once

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..2df278d 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -151,9 +151,9 @@ impl Likelihood for PairedNormal {
         let ln_det = (sigma2_0 * sigma2_1).ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - 0.5 * samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>()
     }
 }
 
-- 
2.43.0


From 6295672add4c3b2434252b607d4c6574c99716d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 117/160] fix: the paired normal score's Sigma component is the
 derivative in Sigma

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 2df278d..6e139bd 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / (2.0 * sigma2_0),
+                (sum_sq[1] / sigma2_1 - n) / (2.0 * sigma2_1)
             ],
         }
     }
-- 
2.43.0


From d9aba20bdb52198e6d94648ef76098ad49f527c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 118/160] fix: failures pull the Bernoulli score down

---
 src/univariate/bernoulli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 1a8dfe7..04bd4a7 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -150,7 +150,10 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples
+                .into_iter()
+                .map(|x| if *x { 1.0 / self.pmf(x) } else { -1.0 / self.pmf(x) })
+                .sum(),
         }
     }
 }
-- 
2.43.0


From 80d709d48dbff7b733fcda546985fbd83229ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 119/160] fix: the Poisson score is sum/lambda - n

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index eeda5ce..25d6a46 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -136,7 +136,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: samples.into_iter().map(|k| *k as f64).sum::<f64>() / l - n,
         }
     }
 }
-- 
2.43.0


From 8f2ee72af65f825de122aed5f7e4b13a3b57f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 120/160] fix: the gamma log-likelihood is the sum of its log
 densities

---
 src/univariate/gamma.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index a6757a4..2049173 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -130,8 +130,6 @@ impl ShannonEntropy for Gamma {
 
 impl Likelihood for Gamma {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
-
         let n = samples.len() as f64;
 
         let (a, b) = get_params!(self);
@@ -139,10 +137,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * x.ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.ln() - a.gamma().ln())
     }
 }
 
-- 
2.43.0


From d3eea29ecacedfa5336989e2db21e27d37a60e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 121/160] fix: the gamma score in alpha has ln(beta x)

---
 src/univariate/gamma.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 2049173..5b3f321 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -148,15 +148,13 @@ impl Score for Gamma {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
-
         let n = samples.len() as f64;
 
         let (a, b) = get_params!(self);
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + (x * b).ln(), acc[1] - x]
         });
 
         Grad {
-- 
2.43.0


From 2cead8c1bd27a304ccd0d2843f7b07ec2212e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 122/160] fix: the beta log-likelihood does not clamp
 observations

---
 src/univariate/beta.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index ab4a412..01654e4 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -175,8 +175,6 @@ impl ShannonEntropy for Beta {
 
 impl Likelihood for Beta {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
-
         let n = samples.len() as f64;
 
         let (a, b) = get_params!(self);
@@ -184,7 +182,7 @@ impl Likelihood for Beta {
 
         samples
             .into_iter()
-            .map(|x| am1 * x.max(JITTER).ln() + bm1 * (1.0 - x).max(JITTER).ln())
+            .map(|x| am1 * x.ln() + bm1 * (1.0 - x).ln())
             .sum::<f64>()
             - n * a.logbeta(b)
     }
-- 
2.43.0


From ad5206272d4e4dd00aba7b4024d19b77894404ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 123/160] fix: the beta score does not clamp observations

---
 src/univariate/beta.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 01654e4..b48dc97 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -192,8 +192,6 @@ impl Score for Beta {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
-
         let (a, b) = get_params!(self);
 
         let apb_digamma = (a + b).digamma();
@@ -202,8 +200,8 @@ impl Score for Beta {
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
             [
-                acc[0] + x.max(JITTER).ln() - a_digamma + apb_digamma,
-                acc[1] + (1.0 - x).max(JITTER).ln() - b_digamma + apb_digamma,
+                acc[0] + x.ln() - a_digamma + apb_digamma,
+                acc[1] + (1.0 - x).ln() - b_digamma + apb_digamma,
             ]
         });
 
-- 
2.43.0


From 1a22332a8a8c69b97fe566a59c35107e3c8c3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 124/160] fix: gamma variables add when their rates agree

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 5b3f321..04373c1 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -169,9 +169,9 @@ impl Convolution<Gamma> for Gamma {
 
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
         let (a1, beta) = get_params!(self);
-        let a2 = rv.0.alpha.0;
+        let (a2, beta2) = get_params!(rv);
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(beta == beta2)?;
 
         Ok(Gamma::new_unchecked(a1 + a2, beta))
     }
-- 
2.43.0


From 05e2cfed3b061e52c58e23338a02c971f072aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 125/160] fix: chi-square variables always add

---
 src/univariate/chi_sq.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 14bb1c3..3c55819 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -114,8 +114,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From ce9f43316a46d64e0f1300916de42024a1d395c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 126/160] fix: convolving with a list of one is convolving once

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9e42cd9..28ff269 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -297,7 +297,7 @@ pub trait Convolution<D: Distribution = Self> {
         Self: Sized,
     {
         let n = rvs.len();
-        let _ = assert_constraint!(n > 1).map_err(|e| e.with_target("n"))?;
+        let _ = assert_constraint!(n > 0).map_err(|e| e.with_target("n"))?;
 
         let new_dist = self.convolve(rvs.pop().unwrap());
 
-- 
2.43.0


From e736600f008611eb5697416cad0a57426890b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 127/160] fix: the gamma log-likelihood at zero with unit shape
 is finite

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 04373c1..06e33b7 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -137,7 +137,7 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * x.ln() - b * x)
+            .map(|x| if am1 == 0.0 { -b * x } else { am1 * x.ln() - b * x })
             .sum::<f64>();
 
         t1 + n * (a * b.ln() - a.gamma().ln())
-- 
2.43.0


From 1c443aeaae69d597f34b3069dfe5f25df004b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 128/160] fix: the beta log-likelihood on the boundary with
 unit shapes is finite

---
 src/univariate/beta.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index b48dc97..97e1d1f 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -182,7 +182,12 @@ impl Likelihood for Beta {
 
         samples
             .into_iter()
-            .map(|x| am1 * x.ln() + bm1 * (1.0 - x).ln())
+            .map(|x| {
+                let t1 = if am1 == 0.0 { 0.0 } else { am1 * x.ln() };
+                let t2 = if bm1 == 0.0 { 0.0 } else { bm1 * (1.0 - x).ln() };
+
+                t1 + t2
+            })
             .sum::<f64>()
             - n * a.logbeta(b)
     }
-- 
2.43.0


From 4934b5cb0f252a1b0d3365f78a693b1c53d4edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 129/160] fix: binomial support ends at n

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 1ab36f9..0f03e31 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -59,7 +59,7 @@ impl Distribution for Binomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From ee52cdac9cd50d546a830dc437198e39ca35dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 130/160] fix: beta-binomial support ends at n

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 01fd1d4..a046245 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -77,7 +77,7 @@ impl Distribution for BetaBinomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From b23bb6b3dd471e38e39cb4bd51c7c40fb06ef363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 131/160] fix: categorical support ends at N - 1

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 85f9f69..f5f5948 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -50,7 +50,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     type Support = Closed<usize>;
     type Params = Params<N>;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N - 1) }
 
     fn params(&self) -> Params<N> { self.0.clone() }
 
-- 
2.43.0


From 140528144b00a04234fb3dc7b77099918d03a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 132/160] fix: the support of Poisson includes zero

---
 src/univariate/poisson.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 25d6a46..74987b1 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -10,7 +10,7 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::discrete::{Naturals, naturals};
+use spaces::discrete::{NonNegativeIntegers, non_negative_integers};
 use std::fmt;
 
 pub use crate::params::Rate;
@@ -43,10 +43,10 @@ impl Poisson {
 }
 
 impl Distribution for Poisson {
-    type Support = Naturals<u64>;
+    type Support = NonNegativeIntegers<u64>;
     type Params = Params;
 
-    fn support(&self) -> Naturals<u64> { naturals() }
+    fn support(&self) -> NonNegativeIntegers<u64> { non_negative_integers() }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From 00706bc2269635d978a2f1c82a18685f3c141ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 133/160] fix: the support of a degenerate distribution is its
 single point

---
 src/univariate/degenerate.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/univariate/degenerate.rs b/src/univariate/degenerate.rs
index 2d18f96..15e4ca6 100644
--- a/src/univariate/degenerate.rs
+++ b/src/univariate/degenerate.rs
@@ -7,10 +7,7 @@ use crate::{
     statistics::{UvMoments, Quantiles, Modes, ShannonEntropy},
 };
 use rand::Rng;
-use spaces::{
-    real::Reals,
-    discrete::Integers,
-};
+use spaces::intervals::Closed;
 use std::fmt;
 
 pub use crate::params::Loc;
@@ -45,10 +42,10 @@ where
 
 // Continuous variant:
 impl Distribution for Degenerate<f64> {
-    type Support = Reals<f64>;
+    type Support = Closed<f64>;
     type Params = Loc<f64>;
 
-    fn support(&self) -> Reals<f64> { Reals::unbounded() }
+    fn support(&self) -> Closed<f64> { Closed::closed_unchecked(self.k.0, self.k.0) }
 
     fn params(&self) -> Loc<f64> { self.k }
 
@@ -103,10 +100,10 @@ impl ShannonEntropy for Degenerate<f64> {
 
 // Discrete variant:
 impl Distribution for Degenerate<i64> {
-    type Support = Integers<i64>;
+    type Support = Closed<i64>;
     type Params = Loc<i64>;
 
-    fn support(&self) -> Integers<i64> { Integers::unbounded() }
+    fn support(&self) -> Closed<i64> { Closed::closed_unchecked(self.k.0, self.k.0) }
 
     fn params(&self) -> Loc<i64> { self.k }
 
-- 
2.43.0


From a05e8d6a1df323156a069549c43b14c28f969338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 134/160] fix: the support of the generalised Pareto
 distribution starts at mu

---
 src/univariate/gpd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index e759533..0021c2c 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -7,7 +7,7 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::real::{Reals, reals};
+use spaces::intervals::LeftClosed;
 use std::fmt;
 
 pub use crate::params::{Loc, Shape};
@@ -40,10 +40,10 @@ impl GeneralisedPareto {
 }
 
 impl Distribution for GeneralisedPareto {
-    type Support = Reals<f64>;
+    type Support = LeftClosed<f64>;
     type Params = Params;
 
-    fn support(&self) -> Reals<f64> { reals() }
+    fn support(&self) -> LeftClosed<f64> { LeftClosed::left_closed(self.0.mu.0) }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From ff9755852d64481f14c2c722d43c77b1aeae11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 135/160] fix: the support of the generalised extreme value
 distribution starts at mu - sigma / zeta

---
 src/univariate/gev.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 71bec60..28b5c5c 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -7,9 +7,9 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::real::{Reals, reals};
+use spaces::intervals::LeftClosed;
 use special_fun::FloatSpecial;
-use std::{f64::INFINITY, fmt};
+use std::{f64::{INFINITY, NEG_INFINITY}, fmt};
 
 pub use crate::params::{Loc, Shape};
 
@@ -64,10 +64,18 @@ impl GeneralisedExtremeValue {
 }
 
 impl Distribution for GeneralisedExtremeValue {
-    type Support = Reals<f64>;
+    type Support = LeftClosed<f64>;
     type Params = Params;
 
-    fn support(&self) -> Reals<f64> { reals() }
+    fn support(&self) -> LeftClosed<f64> {
+        let (mu, sigma, zeta) = get_params!(self);
+
+        LeftClosed::left_closed(if zeta < 1e-7 {
+            NEG_INFINITY
+        } else {
+            mu - sigma / zeta
+        })
+    }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From a8d33a58451f53d5e2788a587dfc0f032aadf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 136/160] fix: Frechet samples invert the CDF

---
 src/univariate/frechet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 0c25842..42d8af6 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
-    univariate::uniform::Uniform,
     ContinuousDistribution,
     Distribution,
     Probability,
@@ -53,9 +52,9 @@ impl Distribution for Frechet {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        let u = Uniform::default();
+        let u: f64 = rng.sample(rand_distr::Open01);
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From 2999f35807cfc31396d89ea7b53d9bce08299bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 137/160] fix: the sampler of Gamma takes the scale, not the
 rate

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 06e33b7..26c73e3 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
-- 
2.43.0


From 264a10152c5a9518be5b0893cfbb273fb5edc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 138/160] fix: log-normal samples are exponentials of the
 underlying normal

---
 src/univariate/lognormal.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 004c819..b8d8030 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -61,11 +61,7 @@ impl Distribution for LogNormal {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
-            .unwrap()
-            .sample(rng)
+        self.0.sample(rng).exp()
     }
 }
 
-- 
2.43.0


From 338220ac7253338d3fff2aa6905bbe2d5e8ea83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 139/160] fix: Laplace samples are finite

---
 src/univariate/laplace.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 81aacba..8b08dad 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -57,9 +57,7 @@ impl Distribution for Laplace {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        let u: f64 = rand_distr::Uniform::new(-0.5, 0.5).sample(rng);
+        let u = rng.sample::<f64, _>(rand_distr::Open01) - 0.5;
         let (mu, b) = get_params!(self);
 
         mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()
-- 
2.43.0


From 08620b6b9974764c3c312367cd9a962c45c0966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 140/160] fix: diagonal normal samples scale by the standard
 deviation

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..750f9d4 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -392,7 +392,7 @@ impl<const N: usize> Distribution for DiagonalNormal<N> {
         for i in 0..N {
             let z: f64 = rng.sample(RandSN);
 
-            s[i] = self.params.mu.0[i] + self.Sigma_lt[i] * z;
+            s[i] = self.params.mu.0[i] + self.params.Sigma.0[i].sqrt() * z;
         }
 
         s
-- 
2.43.0


From 7c17c9384590e285fde16eb8eb3bfba629172188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 141/160] fix: isotropic normal samples scale by the standard
 deviation

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 750f9d4..814af9b 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -633,7 +633,7 @@ impl<const N: usize> Distribution for IsotropicNormal<N> {
         for i in 0..N {
             let z: f64 = rng.sample(RandSN);
 
-            s[i] = self.params.mu.0[i] + self.Sigma_lt * z;
+            s[i] = self.params.mu.0[i] + self.params.Sigma.0.sqrt() * z;
         }
 
         s
-- 
2.43.0


From 35f4745929ef8fcd34068d3b6ba70f63b2b19524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 142/160] fix: Dirichlet samples are normalised by their sum

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From 4cc0c67cfea8c9ab9fb03dd179ced3e9e2ab8761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 143/160] fix: default correlation divides by the standard
 deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..376fa67 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();
             }
         }
 
-- 
2.43.0


From 562e21f93172bdf599ecf5b1863b3c7735728044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 144/160] fix: log-normal covariance is computed from the
 normal covariance

---
 src/multivariate/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..ea21889 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -122,14 +122,14 @@ where
     }
 
     fn covariance(&self) -> [[f64; N]; N] {
-        let mu = self.0.mean();
-        let mut cov = self.0.covariance();
+        let Sigma = self.0.covariance();
+        let mut cov = [[0.0; N]; N];
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
-                let z = cov[$i][$j].exp() - 1.0;
+                let y = (Sigma[$i][$i] + Sigma[$j][$j]) / 2.0;
+                let z = Sigma[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
-- 
2.43.0


From 5e8d3a43466044737965a72cd02a5846fb8732fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 145/160] fix: diagonal normal distance is the quadratic form
 of the precision

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 814af9b..f5af54e 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -432,7 +432,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, si)| d * d * si)
             .sum()
     }
 }
-- 
2.43.0


From c420cfe59572de537a4a57a3d8b8841ac4ef722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 146/160] fix: isotropic normal distance is the quadratic form
 of the precision

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index f5af54e..32c2604 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -673,7 +673,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y) * (x - y) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From 63bf7dcfaf8fef7963e62efcbf6fbd5fbae26e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 147/160] fix: log-normal density has its Jacobian and vanishes
 off the support

---
 src/multivariate/lognormal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index ea21889..5378684 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -95,9 +95,13 @@ where
     Normal<N, [f64; N], S>: ContinuousDistribution,
 {
     fn pdf(&self, x: &[f64; N]) -> f64 {
+        if x.iter().any(|&v| v <= 0.0) {
+            return 0.0;
+        }
+
         let log_x = x.map(|v| v.ln());
 
-        self.0.pdf(&log_x)
+        self.0.pdf(&log_x) / x.iter().product::<f64>()
     }
 }
 
-- 
2.43.0


From 95a77a7cdbe5f4a5878767b228b901635c412b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 148/160] fix: Dirichlet density vanishes off the support

---
 src/multivariate/dirichlet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..07061f9 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -87,9 +87,17 @@ impl<const N: usize> ContinuousDistribution for Dirichlet<N> {
     fn log_pdf(&self, xs: &[f64; N]) -> f64 {
         assert!(xs.len() == N, "Input `xs` must have length {}.", N);
 
+        if xs.iter().any(|&x| x < 0.0 || x > 1.0) {
+            return f64::NEG_INFINITY;
+        }
+
         xs.iter()
             .zip(self.alphas.0.iter())
-            .fold(-self.ln_beta_alphas, |acc, (x, a)| acc + (a - 1.0) * x.ln())
+            .fold(-self.ln_beta_alphas, |acc, (&x, &a)| {
+                let xlogy = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+
+                acc + xlogy
+            })
     }
 }
 
-- 
2.43.0


From 9a87d079c5d64c2ac59637c127c2e6a0f0cf9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 149/160] fix: multinomial mass is positive exactly for n
 trials

---
 src/multivariate/multinomial.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 901cdc4..604e017 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -90,9 +90,10 @@ impl<const N: usize> Distribution for Multinomial<N> {
 
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
-        match xs.iter().fold(0, |acc, x| acc + x) {
-            0 => Probability::zero(),
-            _ => Probability::new(self.log_pmf(xs).exp()).unwrap(),
+        if xs.iter().fold(0, |acc, x| acc + x) == self.0.n.0 {
+            Probability::new(self.log_pmf(xs).exp()).unwrap()
+        } else {
+            Probability::zero()
         }
     }
 
@@ -102,7 +103,7 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         #[allow(unused_parens)]
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
-        if xs.iter().fold(0, |acc, v| acc + *v) == self.0.n.0 {
+        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
             panic!("Total number of trials must be equal to n.")
         }
 
-- 
2.43.0


From 610d391e0f382a5496282e36dc0a3ef6bdfc84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 150/160] fix: paired normal entropy uses the log-determinant

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 6e139bd..4566e37 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * Sigma[0] * Sigma[1]
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0] * Sigma[1]).ln()
     }
 }
 
-- 
2.43.0


From 8ea747fc59fdc408c13e9f1a95ac329cef91709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 151/160] fix: bivariate normal entropy uses the
 log-determinant

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 9d9a20b..d3d949b 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * sigma2_0 * sigma2_1 * (1.0 - rho)
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0 * sigma2_1 * (1.0 - rho * rho)).ln()
     }
 }
 
-- 
2.43.0


From 53c4bd266576667b36c3abb5e36725e91c96da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 152/160] fix: Dirichlet reports its mode only where there is
 one

---
 src/multivariate/dirichlet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 07061f9..9332de7 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -138,7 +138,11 @@ impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
         let k = self.alphas.0.len() as f64;
 
-        vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        if self.alpha0 > k && self.alphas.0.iter().all(|&a| a >= 1.0) {
+            vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        } else {
+            vec![]
+        }
     }
 }
 
-- 
2.43.0


From 308aec913e766fd58b9751417a9dfb5857d6839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 153/160] fix: geometric median is an integer

---
 src/univariate/geometric.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index bbffade..2f1bcad 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -88,7 +88,14 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 {
+        // The smallest k for which the CDF, 1 - q^(k + 1), reaches one half.
+        if self.q.unwrap() <= 0.5 {
+            0.0
+        } else {
+            (-1.0 / self.q.log2() - 1.0).ceil()
+        }
+    }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From a9c8ef0414f1d5e641aab72fa85e2be563a2b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 154/160] fix: binomial median is not always the rounded mean

---
 src/univariate/binomial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 0f03e31..56aa6a0 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -144,7 +144,12 @@ impl UvMoments for Binomial {
 impl Quantiles for Binomial {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { self.mean().round() }
+    fn median(&self) -> f64 {
+        // The median is one of the two integers enclosing the mean.
+        let k = self.mean().floor();
+
+        if self.cdf(&(k as usize)).unwrap() >= 0.5 { k } else { k + 1.0 }
+    }
 }
 
 impl Modes for Binomial {
-- 
2.43.0


From 2614432d8886e45093c0f592d43e4853c8ee6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 155/160] fix: Poisson median is exact, and never negative

---
 src/univariate/poisson.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 74987b1..0a7c37a 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -1,5 +1,5 @@
 use crate::{
-    consts::{NINETEEN_OVER_360, ONE_HALF, ONE_THIRD, ONE_TWELTH, ONE_TWENTY_FOURTH, PI_E_2},
+    consts::{NINETEEN_OVER_360, ONE_HALF, ONE_TWELTH, ONE_TWENTY_FOURTH, PI_E_2},
     fitting::{Likelihood, Score, MLE},
     statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
     utils::log_factorial_stirling,
@@ -11,7 +11,7 @@ use crate::{
 };
 use rand::Rng;
 use spaces::discrete::{NonNegativeIntegers, non_negative_integers};
-use std::fmt;
+use std::{f64::consts::LN_2, fmt};
 
 pub use crate::params::Rate;
 
@@ -91,7 +91,10 @@ impl Quantiles for Poisson {
     fn median(&self) -> f64 {
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        // The median lies in [lambda - ln(2), lambda + 1/3).
+        let k = (l - LN_2).ceil().max(0.0);
+
+        if self.cdf(&(k as u64)).unwrap() >= 0.5 { k } else { k + 1.0 }
     }
 }
 
-- 
2.43.0


From d04c52f0a8cf08bde677ecf8d7e41bd32fff90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 156/160] fix: quantiles of the discrete uniform lie in its
 support

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index 300303d..9468530 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -289,7 +289,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From 305ba6ffddd41809da926d1f70eab456f1a7ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:08 +0000
Subject: [PATCH 157/160] fix: the declared constraints of a covariance matrix
 do not exclude non-positive covariances

---
 src/normal/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 0cd3eba..cf2624d 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -7,6 +7,8 @@ use crate::params::{
     }
 };
 
+use std::fmt;
+
 pub use crate::params::Loc;
 
 /// Covariance matrix parameter \\(\\bm{\\Sigma}\\).
@@ -41,6 +43,19 @@ impl<const N: usize> MatrixCovariance<N> {
     }
 }
 
+#[derive(Debug, Clone, Copy)]
+struct NonNegativeDiagonal;
+
+impl fmt::Display for NonNegativeDiagonal {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "NonNegativeDiagonal") }
+}
+
+impl<const N: usize> Constraint<[[f64; N]; N]> for NonNegativeDiagonal {
+    fn is_satisfied_by(&self, Sigma: &[[f64; N]; N]) -> bool {
+        (0..N).all(|i| constraints::NonNegative.is_satisfied_by(&Sigma[i][i]))
+    }
+}
+
 impl<const N: usize> Param for MatrixCovariance<N> {
     type Value = [[f64; N]; N];
 
@@ -51,7 +66,7 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(NonNegativeDiagonal)
         ]
     }
 }
-- 
2.43.0


From a13506aec1769dcd7033dd5075ca38f182d04571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:08 +0000
Subject: [PATCH 158/160] fix: the constraints of a bivariate covariance are
 declared

---
 src/normal/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index cf2624d..fa6d35b 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -136,7 +136,23 @@ impl Param for BivariateCovariance {
 
     fn into_value(self) -> Self::Value { self.0 }
 
-    fn constraints() -> Constraints<Self::Value> { todo!() }
+    fn constraints() -> Constraints<Self::Value> { vec![Box::new(VariancesAndCorrelation)] }
+}
+
+#[derive(Debug, Clone, Copy)]
+struct VariancesAndCorrelation;
+
+impl fmt::Display for VariancesAndCorrelation {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "VariancesAndCorrelation") }
+}
+
+impl Constraint<([f64; 2], f64)> for VariancesAndCorrelation {
+    fn is_satisfied_by(&self, (sigma2_diag, rho): &([f64; 2], f64)) -> bool {
+        let c_sigma = constraints::All(constraints::Positive);
+        let c_rho = constraints::Interval { lb: -1.0, ub: 1.0, };
+
+        c_sigma.is_satisfied_by(sigma2_diag) && c_rho.is_satisfied_by(rho)
+    }
 }
 
 /// Diagonal covariance matrix parameter \\(\\mathrm{diag}(\\sigma_1^2, \\sigma_2^2)\\) in
-- 
2.43.0


From f62b8c719a49ef6a7ed8ed4f19588f2431f00cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:08 +0000
Subject: [PATCH 159/160] fix: the constraints of a probability vector are
 declared

---
 src/probability.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 5625641..f68de5c 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,5 +1,5 @@
 use crate::{
-    params::{Param, constraints::{Constraints, Interval}},
+    params::{Param, constraints::{Constraint, Constraints, Interval}},
 };
 use failure::Fail;
 use rand::{distributions::Open01, Rng};
@@ -435,7 +435,18 @@ impl<const K: usize> Param for SimplexVector<K> {
 
     fn into_value(self) -> [f64; K] { self.0 }
 
-    fn constraints() -> Constraints<[f64; K]> { todo![] }
+    fn constraints() -> Constraints<[f64; K]> { vec![Box::new(OnSimplex)] }
+}
+
+#[derive(Debug, Clone, Copy)]
+struct OnSimplex;
+
+impl fmt::Display for OnSimplex {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "OnSimplex") }
+}
+
+impl<const K: usize> Constraint<[f64; K]> for OnSimplex {
+    fn is_satisfied_by(&self, ps: &[f64; K]) -> bool { SimplexVector::new(*ps).is_ok() }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a199f22eb5bed77c2c97aff81ef9cc9fb186886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 160/160] fix: scale both variance components of BvNormalGrad

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index d3d949b..398b385 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -37,7 +37,7 @@ impl std::ops::Mul<f64> for BvNormalGrad {
     fn mul(self, sf: f64) -> Self {
         Grad {
             mu: [self.mu[0] * sf, self.mu[1] * sf],
-            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1]], self.Sigma.1 * sf),
+            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1] * sf], self.Sigma.1 * sf),
         }
     }
 }
-- 
2.43.0

