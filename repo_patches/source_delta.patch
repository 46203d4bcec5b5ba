From d337e551d81c6f4f14f1cfa7bccceb42754992a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/23] fix: adding the point at infinity on the right returns
 the left point

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From d09ac309a44825c6ed5f6768bbeead19ff20944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/23] fix: multiplying a point by a negative scalar negates
 the product

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From b85fab07c977f9ec2c2d8d2f66ad81262a889dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 03/23] fix: Polynomial::power_modulo with exponent zero
 returns one

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..3fd5b55 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -321,6 +321,9 @@ impl Polynomial {
 
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         assert!(*n >= Zero::zero());
+        if n.is_zero() {
+            return One::one();
+        }
         let mut b = self % p;
         let mut r: Polynomial = One::one();
         let mut e = n.clone();
-- 
2.43.0


From 5ad7ab3ad216dd32a694a9c6966839a4ac5cc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 04/23] fix: polynomial_modular stops when the remainder is
 zero

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 3fd5b55..adb7c91 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -359,7 +359,7 @@ impl Polynomial {
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
-- 
2.43.0


From af225c5e6614de33805680bca93993f95c8adb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 05/23] fix: gcd with the zero polynomial terminates

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index adb7c91..a7d6197 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -445,6 +445,9 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
+        if other.is_zero() {
+            return self.to_monic(p);
+        }
         let s = self.highest_term_x();
         let o = other.highest_term_x();
         if s.xpow() < o.xpow() {
-- 
2.43.0


From 19fcfb490d6135a9e1cf134369e4a01a911cd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 06/23] fix: is_gcd_one is true only when the gcd is one

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index a7d6197..33dd1b6 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -441,7 +441,7 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m.is_one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-- 
2.43.0


From 568e63ebf0a798cb344ac2917a72c143d17328cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 07/23] fix: polynomial product keeps no zero terms

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 33dd1b6..ba89a24 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
-- 
2.43.0


From b485493eb937123616f3c58bd258c6d061ee5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 08/23] fix: adding a zero term to a polynomial stores nothing

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ba89a24..8461c80 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
-- 
2.43.0


From f6e303d5ab9d376a0ab1e513896de267e4e02763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/23] fix: sum of two terms keeps no zero terms

---
 src/term.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term.rs b/src/term.rs
index e39847d..7138267 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -38,7 +38,10 @@ impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
     let mut pol = a.clone().to_pol();
     if let Some(av) = pol.terms.get_mut(&b.monomial) {
         *av += b.coef.clone(); 
-    } else {
+        if av.is_zero() {
+            pol.terms.remove(&b.monomial);
+        }
+    } else if !b.coef.is_zero() {
         pol.terms.insert(b.monomial, b.coef.clone());
     }
     pol
-- 
2.43.0


From 1391eb999270685cda45abfa6c990e289d5da854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 10/23] fix: polynomial quotient keeps no zero terms

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 8461c80..3d68675 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -157,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
-- 
2.43.0


From d785431f5a12acc0d7f2fb4c85935246201602e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 11/23] fix: solve normalises the first unknown too

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From cb1a431d43457c6249c80cdad778ce3ab0e9b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 12/23] fix: power maps of a polynomial add up terms that land
 on one monomial

---
 src/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 3d68675..16a52f1 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -513,7 +513,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -524,7 +524,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -535,7 +535,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
-- 
2.43.0


From 04de0ab51d6e8c4e7aefb3e58e33bbf022d31ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 13/23] fix: variable_from_index does not truncate the index

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From fe51370f75aa8bb4f992ffa54b1df947e2f63abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 14/23] fix: order of terms is consistent with their equality

---
 src/term.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term.rs b/src/term.rs
index 7138267..6224d77 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -336,6 +336,7 @@ impl Term {
 impl Ord for Term {
     fn cmp(&self, other: &Self) -> Ordering {
         self.monomial.cmp(&other.monomial)
+            .then_with(|| self.coef.cmp(&other.coef))
     }
 }
 
-- 
2.43.0


From e3c7fb9b4522e099d6d9fdb661eb546d0f663f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 15/23] fix: create_points does not duplicate points when
 called again

---
 src/elliptic_curve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..e7f9442 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -147,6 +147,7 @@ impl EllipticCurve {
 
     /// create rational points 
     pub fn create_points(&mut self) {
+        self.points.clear();
         for x in num_iter::range(BigInt::from(0), self.p.clone()) {
             let xpol = x.power(3)
                 + self.a.clone() * x.clone()
-- 
2.43.0


From a86993f2a872fbc4aa2ec069dc590a64584c36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 16/23] fix: isogeny applies Velu's formulas modulo p

---
 src/elliptic_curve.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index e7f9442..4474d36 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -233,23 +233,23 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
+                // Velu's formulas, summed over every non-trivial kernel point:
+                // P and -P share one half of the pair's contribution each,
+                // and y = 0 for a point of order 2
+                let vp = (BigInt::from(3) * point.x.power(2) + &self.a).mod_floor(&self.p);
+                let up = (BigInt::from(2) * point.y.power(2)).mod_floor(&self.p);
                 v += vp.clone();
                 w += up + point.x * vp;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        v = v.mod_floor(&self.p);
+        w = w.mod_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From 620eeb8f550f327ae301584e30f6f1a88b58f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 17/23] fix: schoof uses the right sign of phi in the y
 coordinate of the sum

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 9c1d88b7d4657000de4ce1d683435799903f2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 18/23] fix: schoof case (e) uses the division polynomial of
 the curve itself

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..ca086c6 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -200,7 +200,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
+                let p14 = &division_polynomial::psi(a, b, l) % q;
 
                 let qq = BigInt::from(q);
                 let p15 = p13.polynomial_modular(&p14, &qq);
-- 
2.43.0


From c8d816f15ab6180ad68a3b632c19091909209e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 19/23] fix: schoof case (e) compares with y^q, and divides by
 y only when there is one

---
 src/schoof.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index ca086c6..749587b 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -210,12 +210,13 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
+                    let mut p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
                     p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
                     let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
-- 
2.43.0


From 1c285287d6838a60c838df1aaa97fbfce375973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 20/23] fix: schoof does not take the addition formula when the
 summands share x

---
 src/schoof.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 749587b..d43b039 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -86,6 +86,15 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         let psi_l = &division_polynomial::psi(a, b, l) % q;
         println!("{} psi({}):{}", line!(), l, psi_l);
 
+        // when both summands have the same x coordinate, the addition formula
+        // does not apply: go to (d)
+        let same_x = (division_polynomial::phi(a, b, ql)
+                     - TermBuilder::new().xpow(q.pow(2)).build()
+                       * division_polynomial::psi(a, b, ql).power(2))
+                     .reduction_modular(a, b, q)
+                     .polynomial_modular(&psi_l, &qq)
+                     .is_zero();
+
         let mut found = false;
         let mut jj: i32 = Zero::zero();
         for j in num_iter::range(1, jmax + 1) {
@@ -105,7 +114,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             p1.modular_assign(&qq);
             println!("{} pol % psi({}):{}", line!(), l, p1);
 
-            if p1.is_zero() {
+            if p1.is_zero() && !same_x {
                 // to iii.
                 found = true;
                 jj = j;
-- 
2.43.0


From d317c38a867b3cdd8c164ae5019e19bf7721d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 21/23] fix: division, gcd and to_monic mod p reduce their
 operands before using the leading term

---
 src/polynomial.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 16a52f1..34956ea 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -360,6 +360,8 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = &(other % p);
+        assert!(!other.is_zero(), "other.is_zero()");
         let oh = other.highest_term_x();
         let mut r = self.clone();
         loop {
@@ -450,7 +452,7 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-        if other.is_zero() {
+        if (other % p).is_zero() {
             return self.to_monic(p);
         }
         let s = self.highest_term_x();
@@ -466,12 +468,13 @@ impl Polynomial {
     }
 
     pub fn to_monic(&self, p: &BigInt) -> Polynomial {
-        if self.is_zero() {
-            return self.clone();
+        let pol = self % p;
+        if pol.is_zero() {
+            return pol;
         }
-        let s = self.highest_term_x();
+        let s = pol.highest_term_x();
         let inv = s.coef.inverse(p);
-        let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
+        let mut pol = pol * term_builder::TermBuilder::new().coef(&inv).build();
         pol.modular_assign(p);
         pol
     }
-- 
2.43.0


From 06754b2e7c8165cb706f7e361b5db12caaff7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 22/23] fix: Monomial::eval_q rejects a negative exponent
 instead of wrapping it

---
 src/term.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/term.rs b/src/term.rs
index 6224d77..de894c2 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -146,6 +146,9 @@ impl Monomial {
     }
 
     pub fn eval_q(&self, q: i32) -> i32 {
+        if self.qpow < 0 {
+            panic!("q power must not be negative!");
+        }
         q.pow(self.qpow as u32)
     }
 }
-- 
2.43.0


From af9881942d174f1f1755e63423af26dc5875ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 23/23] fix: polynomial_modular did not end for a dividend with
 an unknown

The partial quotient dropped the unknown of the leading term, so the
leading term never cancelled.
---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 34956ea..61bf079 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -374,6 +374,7 @@ impl Polynomial {
                     .xpow(rh.xpow() - oh.xpow())
                     .ypow(rh.ypow())
                     .qpow(rh.qpow())
+                    .variable(rh.variable())
                     .build();
             q.modular_assign(&p);
             let mut d = q * other;
-- 
2.43.0

