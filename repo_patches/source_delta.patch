From ba6ed81a6007c45105941ca253a179de5ecf3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 01/47] fix: propagate the carry out of the fifth limb in
 256-bit Montgomery squaring

---
 zkstd/src/arithmetic/limbs/bits_256/normal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_256/normal.rs b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
index cdfafad..f5dd3ae 100644
--- a/zkstd/src/arithmetic/limbs/bits_256/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
@@ -136,7 +136,9 @@ pub const fn square(a: [u64; 4], p: [u64; 4], inv: u64) -> [u64; 4] {
     let (l3, c) = (s as u64, (s >> 64) as u64);
     let s = l4 as u128 + c as u128;
     let (l4, c) = (s as u64, (s >> 64) as u64);
-    let l5 = l5.wrapping_add(c);
+    let s = l5 as u128 + c as u128;
+    let (l5, c) = (s as u64, (s >> 64) as u64);
+    let l6 = l6.wrapping_add(c);
 
     let l7 = l6 >> 63;
     let l6 = (l6 << 1) | (l5 >> 63);
-- 
2.43.0


From 4d441d569a057107660133fed042e156f466ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 02/47] fix: negation of a field element reference no longer
 recurses forever

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index f183321..d308d73 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -128,7 +128,7 @@ macro_rules! group_operation {
             type Output = $field;
 
             fn neg(self) -> $field {
-                -self
+                $field(neg(self.0, $p))
             }
         }
 
-- 
2.43.0


From d444ae7e4505fe2518e3e16b97ec9a444f5c66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 03/47] fix: propagate carries in 384-bit Montgomery squaring

---
 zkstd/src/arithmetic/limbs/bits_384/normal.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_384/normal.rs b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
index 61801ae..1b9b70b 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
@@ -225,13 +225,21 @@ pub const fn square(a: [u64; 6], p: [u64; 6], inv: u64) -> [u64; 6] {
     let (l7, c) = (s as u64, (s >> 64) as u64);
     let s = l8 as u128 + c as u128;
     let (l8, c) = (s as u64, (s >> 64) as u64);
-    let l9 = l9.wrapping_add(c);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let s = a[2] as u128 * a[3] as u128 + l5 as u128;
     let (l5, c) = (s as u64, (s >> 64) as u64);
     let s = l6 as u128 + c as u128;
     let (l6, c) = (s as u64, (s >> 64) as u64);
-    let l7 = l7.wrapping_add(c);
+    let s = l7 as u128 + c as u128;
+    let (l7, c) = (s as u64, (s >> 64) as u64);
+    let s = l8 as u128 + c as u128;
+    let (l8, c) = (s as u64, (s >> 64) as u64);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let l11 = l10 >> 63;
     let l10 = (l10 << 1) | (l9 >> 63);
-- 
2.43.0


From e44ae3e663228b7cf99a54c3d1d8c13843660db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 04/47] fix: the additive identity of a prime field is zero,
 not one

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index d308d73..80b31b4 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -4,7 +4,7 @@ macro_rules! group_operation {
     ($field:ident, $p:ident, $g:ident, $r:ident, $r2:ident, $r3:ident, $inv:ident) => {
         impl Group for $field {
             const ADDITIVE_GENERATOR: Self = $field($g);
-            const ADDITIVE_IDENTITY: Self = $field($r);
+            const ADDITIVE_IDENTITY: Self = $field::zero();
 
             fn invert(self) -> Option<Self> {
                 match invert(self.0, little_fermat($p), $r, $p, $inv) {
-- 
2.43.0


From 6ef3f56561c0131caffeab06cf7908850a348e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 05/47] fix: the two-adicity of the scalar field is 28

---
 bn254/src/fr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index ca2c17b..d4980f2 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -64,7 +64,7 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
     0x03ddb9f5166d18b7,
 ]);
 
-pub const TWO_ADACITY: u32 = 32;
+pub const TWO_ADACITY: u32 = 28;
 
 /// Bn254 curve scalar field
 #[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
-- 
2.43.0


From afd0fd2fe496e16a10bd61d6901b45808c760c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 06/47] fix: ff::Field::invert of zero is None

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index aad5d99..baa495d 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -65,7 +65,7 @@ mod fr {
 
         fn invert(&self) -> CtOption<Self> {
             let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            CtOption::new(tmp, !self.ct_eq(&Self::zero()))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
@@ -232,7 +232,7 @@ mod fq {
 
         fn invert(&self) -> CtOption<Self> {
             let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
-            CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
+            CtOption::new(tmp, !self.ct_eq(&Self::zero()))
         }
 
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
-- 
2.43.0


From 4b4493bae3e9f356cdd3882dd45e0c13c4831a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 07/47] fix: ff::PrimeField::from_repr rejects non-canonical
 encodings

---
 bn254/src/ff_compat.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index baa495d..2c01fea 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -84,9 +84,15 @@ mod fr {
             tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
             tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
 
+            // the encoding has to be canonical, i.e. smaller than the modulus
+            let (_, borrow) = sbb(tmp.0[0], MODULUS[0], 0);
+            let (_, borrow) = sbb(tmp.0[1], MODULUS[1], borrow);
+            let (_, borrow) = sbb(tmp.0[2], MODULUS[2], borrow);
+            let (_, borrow) = sbb(tmp.0[3], MODULUS[3], borrow);
+
             tmp = Fr(to_mont_form(tmp.0, R2, MODULUS, INV));
 
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(tmp, Choice::from((borrow & 1) as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
@@ -251,9 +257,15 @@ mod fq {
             tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
             tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
 
+            // the encoding has to be canonical, i.e. smaller than the modulus
+            let (_, borrow) = sbb(tmp.0[0], MODULUS[0], 0);
+            let (_, borrow) = sbb(tmp.0[1], MODULUS[1], borrow);
+            let (_, borrow) = sbb(tmp.0[2], MODULUS[2], borrow);
+            let (_, borrow) = sbb(tmp.0[3], MODULUS[3], borrow);
+
             tmp = Fq(to_mont_form(tmp.0, R2, MODULUS, INV));
 
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(tmp, Choice::from((borrow & 1) as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 37a812818fbbee7bc4467fa1a4b8168536be6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 08/47] fix: ff::PrimeField generator and two-adicity of Fq

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index 2c01fea..0e41baa 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -289,8 +289,8 @@ mod fq {
         const NUM_BITS: u32 = 254;
         const CAPACITY: u32 = 253;
         const TWO_INV: Self = TWO_INV;
-        const MULTIPLICATIVE_GENERATOR: Self = Fq(GENERATOR);
-        const S: u32 = 0;
+        const MULTIPLICATIVE_GENERATOR: Self = Fq::to_mont_form(GENERATOR);
+        const S: u32 = 1;
         const ROOT_OF_UNITY: Self = ROOT_OF_UNITY;
         const ROOT_OF_UNITY_INV: Self = ROOT_OF_UNITY_INV;
         const DELTA: Self = DELTA;
-- 
2.43.0


From de6e2d5ac6556331f1ebef8881949ca01621bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 09/47] fix: ff::Field::sqrt no longer recurses through
 sqrt_ratio forever

---
 bn254/src/ff_compat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index 0e41baa..2203fe1 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -71,6 +71,14 @@ mod fr {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            let root = Self::sqrt(self);
+            CtOption::new(
+                root.unwrap_or(Self::zero()),
+                Choice::from(root.is_some() as u8),
+            )
+        }
     }
 
     impl ff::PrimeField for Fr {
@@ -244,6 +252,14 @@ mod fq {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            let root = Self::sqrt(self);
+            CtOption::new(
+                root.unwrap_or(Self::zero()),
+                Choice::from(root.is_some() as u8),
+            )
+        }
     }
 
     impl ff::PrimeField for Fq {
-- 
2.43.0


From da119316dbbf7a9fca58fec60b2ed53d74f1f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 10/47] fix: subtracting extension field references subtracts

---
 zkstd/src/macros/extension_field/group.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 41d2aaf..567a040 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -136,7 +136,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                *self * *rhs
+                *self - *rhs
             }
         }
 
@@ -144,7 +144,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                self * *rhs
+                self - *rhs
             }
         }
 
@@ -152,7 +152,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: $extension_field) -> $extension_field {
-                *self * rhs
+                *self - rhs
             }
         }
 
-- 
2.43.0


From b74925cd2559e7d7ae97ca784439a31540e82a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 11/47] fix: multiplying extension field references multiplies

---
 zkstd/src/macros/extension_field/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 567a040..19d5cc1 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -181,7 +181,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                *self + *rhs
+                *self * *rhs
             }
         }
 
@@ -189,7 +189,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                self + *rhs
+                self * *rhs
             }
         }
 
-- 
2.43.0


From b4648d8ef23893445ef2624b8f5c453feb54dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 12/47] fix: adding an extension field reference no longer
 recurses forever

---
 zkstd/src/macros/extension_field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 19d5cc1..a815f21 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -90,7 +90,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn add(self, rhs: &'b $extension_field) -> Self {
-                self + rhs
+                self + *rhs
             }
         }
 
-- 
2.43.0


From 715233b479d17c58eeeedf5d06e58bb58936fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 13/47] fix: mixed subtraction of point references subtracts

---
 zkstd/src/macros/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 236bad1..a0224f1 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -159,7 +159,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                *self + *rhs
+                *self - *rhs
             }
         }
 
@@ -167,7 +167,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                &self + rhs
+                &self - rhs
             }
         }
 
@@ -175,7 +175,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: $extended) -> $extended {
-                self + &rhs
+                self - &rhs
             }
         }
 
-- 
2.43.0


From b35c02097eac3058c4f9af289603181f386baf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 14/47] fix: doubling the affine identity gives the identity

---
 zkstd/src/arithmetic/points/weierstrass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/arithmetic/points/weierstrass.rs b/zkstd/src/arithmetic/points/weierstrass.rs
index 356f6d6..73a07c3 100644
--- a/zkstd/src/arithmetic/points/weierstrass.rs
+++ b/zkstd/src/arithmetic/points/weierstrass.rs
@@ -37,6 +37,10 @@ pub fn add_affine_point<A: BNAffine>(lhs: A, rhs: A) -> A::Extended {
 /// weierstrass affine coordinate doubling
 #[inline(always)]
 pub fn double_affine_point<A: BNAffine>(point: A) -> A::Extended {
+    if point.is_identity() {
+        return A::Extended::ADDITIVE_IDENTITY;
+    }
+
     // Algorithm 9, https://eprint.iacr.org/2015/1060.pdf
     let b3 = <A as BNCurve>::PARAM_3B;
     let (x, y) = (point.get_x(), point.get_y());
-- 
2.43.0


From cfd6e5c9210d5bb2ab35a62272459c166eebfe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 15/47] fix: twisted Edwards is_on_curve checks points with x =
 0 and z = 0

---
 zkstd/src/macros/curve/edwards/group.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/zkstd/src/macros/curve/edwards/group.rs b/zkstd/src/macros/curve/edwards/group.rs
index 8948ae1..df3ff3b 100644
--- a/zkstd/src/macros/curve/edwards/group.rs
+++ b/zkstd/src/macros/curve/edwards/group.rs
@@ -43,13 +43,9 @@ macro_rules! twisted_edwards_affine_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.x.is_zero() {
-                    true
-                } else {
-                    let xx = self.x.square();
-                    let yy = self.y.square();
-                    yy == $range::one() + Self::PARAM_D * xx * yy + xx
-                }
+                let xx = self.x.square();
+                let yy = self.y.square();
+                yy == $range::one() + Self::PARAM_D * xx * yy + xx
             }
 
             fn get_x(&self) -> Self::Base {
@@ -129,7 +125,7 @@ macro_rules! twisted_edwards_extend_group_operation {
 
             fn is_on_curve(self) -> bool {
                 if self.z.is_zero() {
-                    true
+                    false
                 } else {
                     let affine = $affine::from(self);
                     affine.is_on_curve()
-- 
2.43.0


From bef1c01c2e99ebccccc4ff8b58a524da64160b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 16/47] fix: the zero of the target group is its identity

---
 bn254/src/gt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index 838b806..55467c0 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -22,7 +22,7 @@ impl Group for Gt {
 
 impl IntGroup for Gt {
     fn zero() -> Self {
-        Self(Fq12::zero())
+        Self::ADDITIVE_IDENTITY
     }
 }
 
-- 
2.43.0


From 86ed561797db5c6f9bea2619acabb696dc2e237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 17/47] fix: implement inversion in the target group

---
 bn254/src/gt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index 55467c0..6936527 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -12,7 +12,7 @@ impl Group for Gt {
     const ADDITIVE_IDENTITY: Self = Self(Fq12::one());
 
     fn invert(self) -> Option<Self> {
-        unimplemented!()
+        Some(-self)
     }
 
     fn random<R: RngCore>(rand: &mut R) -> Self {
-- 
2.43.0


From 82a35c93b7ed21c3d3b811132cc1f73ba59c8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 18/47] fix: random target group elements are in the target
 group

---
 bn254/src/gt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/gt.rs b/bn254/src/gt.rs
index 6936527..b44c0f4 100644
--- a/bn254/src/gt.rs
+++ b/bn254/src/gt.rs
@@ -1,4 +1,4 @@
-use crate::Fq12;
+use crate::{AteParing, Fq12, G1Affine, G2Affine};
 use zkstd::common::*;
 
 /// pairing target group of 12 degree extension of field
@@ -16,7 +16,7 @@ impl Group for Gt {
     }
 
     fn random<R: RngCore>(rand: &mut R) -> Self {
-        Self(Fq12::random(rand))
+        AteParing::pairing(G1Affine::random(rand), G2Affine::ADDITIVE_GENERATOR)
     }
 }
 
-- 
2.43.0


From 3808af7750586b6bf8b959009a352af6275d6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 19/47] fix: the bn254 curve parameter is positive

---
 bn254/src/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bn254/src/params.rs b/bn254/src/params.rs
index af39aab..6fca371 100644
--- a/bn254/src/params.rs
+++ b/bn254/src/params.rs
@@ -2,7 +2,7 @@
 use crate::{Fq, Fq2};
 
 pub const BN_X: u64 = 4965661367192848881;
-pub const BN_X_IS_NEGATIVE: bool = true;
+pub const BN_X_IS_NEGATIVE: bool = false;
 
 // g1 curve parameters
 pub(crate) const G1_GENERATOR_X: Fq = Fq::one();
-- 
2.43.0


From 5aefb8c9e716daa0c90d353ca61bd6536efff18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 20/47] fix: every point of the prime order curve G1 is torsion
 free

---
 bn254/src/g1.rs | 49 +++----------------------------------------------
 1 file changed, 3 insertions(+), 46 deletions(-)

diff --git a/bn254/src/g1.rs b/bn254/src/g1.rs
index 3974d1d..3ca6598 100644
--- a/bn254/src/g1.rs
+++ b/bn254/src/g1.rs
@@ -1,4 +1,4 @@
-use crate::params::{BN_X, BN_X_IS_NEGATIVE, G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
+use crate::params::{G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
 use crate::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
@@ -6,13 +6,6 @@ use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
 
-pub const BETA: Fq = Fq([
-    0x30f1361b798a64e8,
-    0xf3b8ddab7ece5a2a,
-    0x16a8ca3ac61577f7,
-    0xc26a2ff874fd029b,
-]);
-
 /// The projective form of coordinate
 #[derive(Debug, Clone, Copy, Decode, Encode)]
 pub struct G1Affine {
@@ -21,15 +14,6 @@ pub struct G1Affine {
     is_infinity: bool,
 }
 
-fn endomorphism(p: &G1Affine) -> G1Affine {
-    // Endomorphism of the points on the curve.
-    // endomorphism_p(x,y) = (BETA * x, y)
-    // where BETA is a non-trivial cubic root of unity in Fq.
-    let mut res = *p;
-    res.x *= BETA;
-    res
-}
-
 impl G1Affine {
     pub const RAW_SIZE: usize = 97;
 
@@ -59,14 +43,8 @@ impl G1Affine {
     }
 
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 6 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that endomorphism_p(P) == -[x^2] P
-
-        let minus_x_squared_times_p = G1Projective::from(*self).mul_by_x().mul_by_x().neg();
-        let endomorphism_p = endomorphism(self);
-        minus_x_squared_times_p == G1Projective::from(endomorphism_p)
+        // The curve has prime order, hence all of its points are in the group.
+        self.is_on_curve()
     }
 }
 
@@ -123,27 +101,6 @@ pub struct G1Projective {
 }
 
 impl G1Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G1Projective {
-        let mut xself = G1Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BN254 we can just skip the first bit.
-        let mut x = BN_X >> 1;
-        let mut tmp = *self;
-        while x != 0 {
-            tmp = tmp.double();
-
-            if x % 2 == 1 {
-                xself += tmp;
-            }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
-        }
-        xself
-    }
-
     /// Converts a batch of `G1Projective` elements into `G1Affine` elements. This
     /// function will panic if `p.len() != q.len()`.
     pub fn batch_normalize(p: &[Self], q: &mut [G1Affine]) {
-- 
2.43.0


From da69f39de3b2d02a3cdc4c7ad60b1a930f0ddd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 21/47] fix: the subgroup check of G2 uses the bn254
 endomorphism

---
 bn254/src/g2.rs | 47 ++++++++++++-----------------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/bn254/src/g2.rs b/bn254/src/g2.rs
index fb7c64f..2b956c6 100644
--- a/bn254/src/g2.rs
+++ b/bn254/src/g2.rs
@@ -27,9 +27,13 @@ impl G2Affine {
         // Algorithm from Section 4 of https://eprint.iacr.org/2021/1130
         // Updated proof of correctness in https://eprint.iacr.org/2022/352
         //
-        // Check that psi(P) == [x] P
+        // Check that psi(P) == [t - 1] P where t - 1 = 6x^2 is the eigenvalue of psi
+        if !self.is_on_curve() {
+            return false;
+        }
         let p = G2Projective::from(*self);
-        p.psi() == p.mul_by_x()
+        let x_squared_p = p.mul_by_x().mul_by_x();
+        p.psi() == (x_squared_p.double() + x_squared_p).double()
     }
 }
 
@@ -89,15 +93,14 @@ impl G2Projective {
     /// Multiply `self` by `crate::BN_X`, using double and add.
     fn mul_by_x(&self) -> G2Projective {
         let mut xself = G2Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BLS12-381 we can just skip the first bit.
         // TODO: need to test conversion to bytes and back
-        let mut x = BN_X >> 1;
+        let mut x = BN_X;
         let mut acc = *self;
         while x != 0 {
-            acc = acc.double();
             if x % 2 == 1 {
                 xself += acc;
             }
+            acc = acc.double();
             x >>= 1;
         }
         // finally, flip the sign
@@ -108,37 +111,11 @@ impl G2Projective {
     }
 
     fn psi(&self) -> G2Projective {
-        // 1 / ((u+1) ^ ((q-1)/3))
-        let psi_coeff_x = Fq2([
-            Fq::zero(),
-            Fq([
-                0x890dc9e4867545c3,
-                0x2af322533285a5d5,
-                0x50880866309b7e2c,
-                0xa20d1b8c7e881024,
-            ]),
-        ]);
-        // 1 / ((u+1) ^ (p-1)/2)
-        let psi_coeff_y = Fq2([
-            Fq([
-                0x3e2f585da55c9ad1,
-                0x4294213d86c18183,
-                0x382844c88b623732,
-                0x92ad2afd19103e18,
-            ]),
-            Fq([
-                0x7bcfa7a25aa30fda,
-                0xdc17dec12a927e7c,
-                0x2f088dd86b4ebef1,
-                0xd1ca2087da74d4a7,
-            ]),
-        ]);
-
         G2Projective {
-            // x = frobenius(x)/((u+1)^((p-1)/3))
-            x: self.x.frobenius_map() * psi_coeff_x,
-            // y = frobenius(y)/(u+1)^((p-1)/2)
-            y: self.y.frobenius_map() * psi_coeff_y,
+            // x = frobenius(x) * (u+9)^((q-1)/3)
+            x: self.x.frobenius_map() * FROBENIUS_COEFF_FQ6_C1[1],
+            // y = frobenius(y) * (u+9)^((q-1)/2)
+            y: self.y.frobenius_map() * XI_TO_Q_MINUS_1_OVER_2,
             // z = frobenius(z)
             z: self.z.frobenius_map(),
         }
-- 
2.43.0


From e617ea96d501345a351e918caa414552808c868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 22/47] fix: 384-bit NAFs are most significant digit first

---
 zkstd/src/arithmetic/limbs/bits_384/represent.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_384/represent.rs b/zkstd/src/arithmetic/limbs/bits_384/represent.rs
index 0b12d34..b7d369a 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/represent.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/represent.rs
@@ -83,7 +83,6 @@ pub fn to_nafs(val: [u64; 6]) -> Nafs {
         .skip_while(|x| x == &Naf::Zero)
         .collect::<Vec<_>>();
     nafs.pop();
-    nafs.reverse();
     nafs
 }
 
-- 
2.43.0


From 890d2a514acc0c810595c0f568b834b45521f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:52 +0000
Subject: [PATCH 23/47] fix: constrain the results of the binary not and and
 gadgets

---
 zkstd/src/circuit/gadget/binary.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..30afa70 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -45,6 +46,12 @@ impl BinaryAssignment {
         };
 
         cs.w.push(new_val);
+        // 1 - b = wire
+        cs.sub_gate(
+            &SparseRow::one(),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
@@ -60,6 +67,12 @@ impl BinaryAssignment {
         };
 
         cs.w.push(a_and_b);
+        // a * b = wire
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
-- 
2.43.0


From dc17a416e74abebc46cf7c76eed32af7976c4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 24/47] fix: inputize ties the public input to its witness

---
 zkstd/src/circuit/gadget/field.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..1a2d13e 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -29,6 +29,7 @@ impl<F: PrimeField> FieldAssignment<F> {
         let wire = cs.public_wire();
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
+        cs.equal_gate(witness.inner(), &SparseRow::from(wire));
 
         Self(SparseRow::from(wire))
     }
-- 
2.43.0


From e89d1b05f5d0ca2d99ae3c3813aa298f3993a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:13 +0000
Subject: [PATCH 25/47] fix: range check against zero no longer panics

---
 zkstd/src/circuit/gadget/field.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 1a2d13e..7013b26 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -104,6 +104,11 @@ impl<F: PrimeField> FieldAssignment<F> {
             FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
         }
 
+        // zero is the only number up to zero
+        if c_bits.is_empty() {
+            return;
+        }
+
         let a_bits = a_bits
             .iter()
             .skip(a_bits.len() - c_bits.len())
-- 
2.43.0


From 5a5f2db340f08db503d4280e801963260c8c61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 26/47] fix: to_bits binds the bits to the decomposed value

---
 zkstd/src/circuit/gadget/field.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 7013b26..51804b1 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -175,15 +175,15 @@ impl<F: PrimeField> FieldAssignment<F> {
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // the canonical bits of x: they denote a number below the modulus, which is x
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
 
         bit_repr
+            .into_iter()
+            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
+            .collect()
     }
 
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
-- 
2.43.0


From 8c7fb750eddbbbd6554188f53fe5c49f2af29440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:06 +0000
Subject: [PATCH 27/47] fix: descale scales by the inverse of z

---
 zkstd/src/circuit/gadget/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..35df4d9 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -35,6 +35,9 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        // z * inv = 1 unless z is zero
+        let z_inv = FieldAssignment::mul(cs, &self.z, &inv);
+        FieldAssignment::enforce_eq(cs, &z_inv, &FieldAssignment::from(&take_value));
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From aeb5484647dcaed92a2bf27c85972d6bcf62d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:40 +0000
Subject: [PATCH 28/47] fix: decomposed limbs are no longer than their bits

---
 nova/src/gadget/big_nat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 51f486c..74c83de 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -170,7 +170,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             .limbs
             .iter()
             .rev()
-            .map(|limb| FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width))
+            .map(|limb| {
+                let bits = FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width);
+                // the limb has no further bits
+                FieldAssignment::enforce_eq_bits(cs, limb, &bits);
+                bits
+            })
             .collect();
         let mut bits = Vec::new();
 
-- 
2.43.0


From 59d86e3618d9e7aa0031d90f991cafc0d1fd06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 29/47] fix: a private bit is zero or one

---
 zkstd/src/circuit/gadget/binary.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index 30afa70..ce3c602 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -32,6 +32,9 @@ impl BinaryAssignment {
     pub fn witness<C: CircuitDriver>(cs: &mut R1cs<C>, bit: u8) -> Self {
         let wire = cs.private_wire();
         cs.w.push(C::Scalar::from(bit as u64));
+        // b * b = b
+        let b = SparseRow::from(wire);
+        cs.mul_gate(&b, &b, &b);
 
         Self(wire)
     }
-- 
2.43.0


From 7e717eb14646fb64d05399d1d913679680e3aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 30/47] fix: groth16 keys cover the whole evaluation domain

---
 groth16/src/zksnark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..a5d1cee 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -37,10 +37,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From 5210eb2007cdafb36dace788d1000f52a3be0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 31/47] fix: groth16 handles circuits with fewer than two
 constraints

---
 groth16/src/prover.rs  | 2 +-
 groth16/src/zksnark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..91ea8c6 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,7 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index a5d1cee..d033de7 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,7 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
-- 
2.43.0


From f20f9beb2fa3f4997b55ea09edd00163e3f88669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 32/47] verif: guarded access to groth16 internals

---
 groth16/src/lib.rs   |  2 ++
 groth16/src/verif.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+)
 create mode 100644 groth16/src/verif.rs

diff --git a/groth16/src/lib.rs b/groth16/src/lib.rs
index 897fbc4..d8ef390 100644
--- a/groth16/src/lib.rs
+++ b/groth16/src/lib.rs
@@ -8,6 +8,8 @@ mod params;
 mod poly;
 mod proof;
 mod prover;
+#[cfg(kogarashi_verif)]
+pub mod verif;
 mod verifier;
 mod zksnark;
 
diff --git a/groth16/src/verif.rs b/groth16/src/verif.rs
new file mode 100644
index 0000000..4dcf64d
--- /dev/null
+++ b/groth16/src/verif.rs
@@ -0,0 +1,60 @@
+//! Access to internals for the runtime monitors; compiled only with `--cfg kogarashi_verif`.
+use crate::fft::Fft;
+use crate::poly::{Coefficients, PointsValue};
+use crate::proof::Proof;
+
+use bn_254::{Fr, G1Affine, G2Affine};
+use zkstd::common::{BNAffine, Vec};
+
+/// elements of a proof
+pub fn proof_parts(proof: &Proof) -> (G1Affine, G2Affine, G1Affine) {
+    (proof.a, proof.b, proof.c)
+}
+
+/// proof made of given elements
+pub fn proof_from_parts(a: G1Affine, b: G2Affine, c: G1Affine) -> Proof {
+    Proof { a, b, c }
+}
+
+/// multi scalar multiplication
+pub fn msm<C: BNAffine>(bases: &[C], coeffs: &[C::Scalar]) -> C::Extended {
+    crate::msm::msm_curve_addition(bases, coeffs)
+}
+
+/// evaluation domain
+pub struct Domain(Fft<Fr>);
+
+impl Domain {
+    pub fn new(k: usize) -> Self {
+        Self(Fft::new(k))
+    }
+
+    pub fn dft(&self, coeffs: Vec<Fr>) -> Vec<Fr> {
+        self.0.dft(Coefficients(coeffs)).0
+    }
+
+    pub fn idft(&self, points: Vec<Fr>) -> Vec<Fr> {
+        self.0.idft(PointsValue(points)).0
+    }
+
+    pub fn coset_dft(&self, coeffs: Vec<Fr>) -> Vec<Fr> {
+        self.0.coset_dft(Coefficients(coeffs)).0
+    }
+
+    pub fn coset_idft(&self, points: Vec<Fr>) -> Vec<Fr> {
+        self.0.coset_idft(PointsValue(points)).0
+    }
+
+    pub fn z(&self, tau: &Fr) -> Fr {
+        self.0.z(tau)
+    }
+
+    pub fn divide_by_z_on_coset(&self, points: Vec<Fr>) -> Vec<Fr> {
+        self.0.divide_by_z_on_coset(PointsValue(points)).0
+    }
+}
+
+/// polynomial arithmetic
+pub mod poly {
+    pub use crate::poly::{Coefficients, PointsValue};
+}
-- 
2.43.0


From a44656d8d34115b669fec51639e85aedb4ac63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 33/47] fix: groth16 proofs are bound to all public inputs

---
 groth16/src/prover.rs  |  2 ++
 groth16/src/zksnark.rs |  2 ++
 zkstd/src/r1cs.rs      | 10 ++++++++++
 3 files changed, 14 insertions(+)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 91ea8c6..aa39fae 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -24,6 +24,8 @@ impl Prover {
     ) -> Result<Proof, Error> {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
+        // bind the proof to all public inputs, also to those the circuit doesn't use
+        cs.constrain_inputs();
 
         let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index d033de7..4cc409a 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -19,6 +19,8 @@ impl ZkSnark {
         let mut cs = R1cs::default();
 
         circuit.synthesize(&mut cs)?;
+        // bind the proof to all public inputs, also to those the circuit doesn't use
+        cs.constrain_inputs();
 
         let size = cs.m().max(2).next_power_of_two();
         let k = size.trailing_zeros();
diff --git a/zkstd/src/r1cs.rs b/zkstd/src/r1cs.rs
index d83ebdb..89feaba 100644
--- a/zkstd/src/r1cs.rs
+++ b/zkstd/src/r1cs.rs
@@ -133,6 +133,16 @@ impl<C: CircuitDriver> R1cs<C> {
         self.mul_gate(x, &SparseRow::one(), y);
     }
 
+    /// constrain x_i * 0 = 0 for each public input x_i
+    ///
+    /// Every public input takes part in a constraint of its own then.
+    pub fn constrain_inputs(&mut self) {
+        let zero = SparseRow::new(vec![]);
+        for i in 0..self.l() as u64 {
+            self.mul_gate(&SparseRow::from(Wire::Instance(i)), &zero, &zero);
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub fn evaluate(&self) -> (Vec<C::Scalar>, Vec<C::Scalar>, Vec<C::Scalar>) {
         let a_evals = self.a.evaluate_with_z(&self.x, &self.w);
-- 
2.43.0


From cfe798619a82315c9bb0dbbb2dcb98ecf1740e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 34/47] fix: polynomial subtraction keeps the sign of the
 longer operand

---
 groth16/src/poly.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/groth16/src/poly.rs b/groth16/src/poly.rs
index e7d8f11..45c5129 100644
--- a/groth16/src/poly.rs
+++ b/groth16/src/poly.rs
@@ -213,12 +213,13 @@ impl<F: FftField> Sub for Coefficients<F> {
 
     fn sub(self, rhs: Self) -> Self::Output {
         let zero = F::zero();
-        let (left, right) = if self.0.len() > rhs.0.len() {
-            (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)))
+        Self::new(if self.0.len() > rhs.0.len() {
+            let (left, right) = (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)));
+            left.zip(right).map(|(a, b)| *a - *b).collect()
         } else {
-            (rhs.0.iter(), self.0.iter().chain(iter::repeat(&zero)))
-        };
-        Self::new(left.zip(right).map(|(a, b)| *a - *b).collect())
+            let (left, right) = (self.0.iter().chain(iter::repeat(&zero)), rhs.0.iter());
+            left.zip(right).map(|(a, b)| *a - *b).collect()
+        })
     }
 }
 
-- 
2.43.0


From 880095c7ac54184edfeb8441b73a0ee2e4b76508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:34 +0000
Subject: [PATCH 35/47] fix: relaxed satisfaction checks the lengths of
 instance and witness

A shorter error vector used to cut off the constraints that were compared.
---
 nova/src/relaxed_r1cs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..e213f1c 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -93,6 +93,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         } = instance;
         let RelaxedR1csWitness { w, e } = witness;
 
+        if x.len() as u64 != self.l() || w.len() as u64 != self.m_l_1() || e.len() as u64 != *m {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![*u], x.get(), w.get()].concat());
         // A · Z
@@ -125,6 +129,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         let R1csInstance { commit_w, x } = instance;
         let R1csWitness { w } = witness;
 
+        if x.len() as u64 != self.l() || w.len() as u64 != self.m_l_1() {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![C::Scalar::one()], x.get(), w.get()].concat());
         // A · Z
-- 
2.43.0


From a0c0f22c73508d3d690e6900a01df8da4f5d0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 36/47] fix: a recursive proof opens the commitments of its
 running instances

The verifier checked the running witnesses but not that the committed instances, which the hashes bind, belong to them.
---
 nova/src/proof.rs        | 16 +++++++++++-----
 nova/src/relaxed_r1cs.rs | 12 ++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..081dc8b 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -67,11 +67,17 @@ where
             return false;
         }
 
-        pp.r1cs_shape_primary
-            .is_sat_relaxed(&u_range_primary, &w_range_primary)
-            && pp
-                .r1cs_shape_secondary
-                .is_sat_relaxed(&u_range_secondary, &w_range_secondary)
+        pp.r1cs_shape_primary.is_sat_relaxed_committed(
+            &pp.ck_primary,
+            &u_range_primary,
+            &w_range_primary,
+        ) && pp
+            .r1cs_shape_secondary
+            .is_sat_relaxed_committed(
+                &pp.ck_secondary,
+                &u_range_secondary,
+                &w_range_secondary,
+            )
             && pp.r1cs_shape_secondary.is_sat(
                 &pp.ck_secondary,
                 &u_single_secondary,
diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index e213f1c..93f9d16 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -117,6 +117,18 @@ impl<C: CircuitDriver> R1csShape<C> {
             .all(|(left, right)| left == right)
     }
 
+    ///  check the relaxed relation and the openings of the commitments of the instance
+    pub(crate) fn is_sat_relaxed_committed(
+        &self,
+        ck: &PedersenCommitment<C::Affine>,
+        instance: &RelaxedR1csInstance<C>,
+        witness: &RelaxedR1csWitness<C>,
+    ) -> bool {
+        self.is_sat_relaxed(instance, witness)
+            && instance.commit_w == ck.commit(&witness.w)
+            && instance.commit_e == ck.commit(&witness.e)
+    }
+
     ///  check (A · Z) ◦ (B · Z) = (C · Z)
     pub fn is_sat(
         &self,
-- 
2.43.0


From 03117e59cca0bdd8e146b068b4a45b499e725ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 37/47] fix: nova commitment keys have a generator for every
 witness element

Elements beyond the generators were not committed to.
---
 nova/src/ivc.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nova/src/ivc.rs b/nova/src/ivc.rs
index 2772809..a518403 100644
--- a/nova/src/ivc.rs
+++ b/nova/src/ivc.rs
@@ -300,13 +300,12 @@ where
         circuit_secondary.generate(&mut cs);
         let r1cs_shape_secondary = R1csShape::from(cs);
 
-        let k = r1cs_shape_primary.m().next_power_of_two().trailing_zeros();
+        // one generator for each element of the witness and of the error vector
+        let ck_size = |m: u64, w: u64| m.max(w).next_power_of_two().trailing_zeros();
+        let k = ck_size(r1cs_shape_primary.m(), r1cs_shape_primary.m_l_1());
         let ck_primary = PedersenCommitment::<E1::Affine>::new(k.into(), rng);
 
-        let k = r1cs_shape_secondary
-            .m()
-            .next_power_of_two()
-            .trailing_zeros();
+        let k = ck_size(r1cs_shape_secondary.m(), r1cs_shape_secondary.m_l_1());
         let ck_secondary = PedersenCommitment::<E2::Affine>::new(k.into(), rng);
 
         PublicParams {
-- 
2.43.0


From 00a8ae7752679e4bc0287775f92df71d6c69e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 38/47] fix: the constants of the big integer gadgets are
 constants

They were free witnesses, so that a prover could choose them to satisfy any equality.
---
 nova/src/gadget/big_nat.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 74c83de..c7d7889 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -255,12 +255,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             );
             accumulated_extra += max_word;
 
-            let target_base_ass = FieldAssignment::witness(cs, nat_to_f::<F>(&target_base));
+            let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
             let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
             let accumulated =
-                FieldAssignment::witness(cs, nat_to_f::<F>(&(&accumulated_extra % &target_base)));
-            let max_word = FieldAssignment::witness(cs, nat_to_f::<F>(max_word));
+                FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
+            let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
 
             FieldAssignment::enforce_eq_constant(
                 cs,
@@ -274,7 +274,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
                 FieldAssignment::range_check_bits(cs, &carry_decomposition, carry_bits as u64);
             } else {
                 let accumulated_extra_ass =
-                    FieldAssignment::witness(cs, nat_to_f(&accumulated_extra));
+                    FieldAssignment::constant(&nat_to_f(&accumulated_extra));
                 FieldAssignment::enforce_eq_constant(
                     cs,
                     &(&carry - &accumulated_extra_ass),
@@ -422,7 +422,8 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
         let mut limbs = vec![FieldAssignment::constant(&F::zero()); n_groups];
         let mut shift = FieldAssignment::constant(&F::one());
-        let limb_block = FieldAssignment::witness(cs, F::pow_of_2(self.params.limb_width as u64));
+        let limb_block =
+            FieldAssignment::constant(&F::pow_of_2(self.params.limb_width as u64));
         for (i, limb) in self.limbs.iter().enumerate() {
             if i % limbs_per_group == 0 {
                 shift = FieldAssignment::constant(&F::one());
-- 
2.43.0


From 80757fb3a88411b5c3be1437ab2ff05f045b7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 39/47] fix: the big integer of a field element is its
 canonical value

Its limbs could denote the element plus a multiple of the modulus, which differ modulo another one.
---
 nova/src/gadget/big_nat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index c7d7889..e9c478a 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -126,6 +126,8 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let bv = big_nat.decompose(cs);
         // (2) recompose bits and check if it equals n
         FieldAssignment::enforce_eq_bits(cs, f, &bv);
+        // (3) it is n itself and not only congruent to it
+        FieldAssignment::range_check(cs, &bv, F::MODULUS - F::one());
 
         big_nat
     }
-- 
2.43.0


From 30d5e268df3a9c2425626a1acacd236e072248b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 40/47] fix: the folding circuit reduces modulo the order of
 the curve

The modulus was a free witness.
---
 nova/src/circuit/nifs.rs   |  2 +-
 nova/src/gadget/big_nat.rs | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 2dd7888..253fe36 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -36,7 +36,7 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
-        let m_bn_ass = BigNatAssignment::witness_from_big_int(cs, m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
+        let m_bn_ass = BigNatAssignment::constant(&m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
 
         // u_fold = U.u + r
         let u_fold = FieldAssignment::witness(cs, u_range.u.value(cs) + r.value(cs));
diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index e9c478a..d59bdfe 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -110,6 +110,17 @@ impl<F: PrimeField> BigNatAssignment<F> {
         }
     }
 
+    /// A `BigNat` whose limbs are constants of the circuit
+    pub fn constant(num: &BigInt, limb_width: usize, n_limbs: usize) -> Self {
+        Self {
+            limbs: nat_to_limbs::<F>(num, limb_width, n_limbs)
+                .iter()
+                .map(FieldAssignment::constant)
+                .collect(),
+            params: BigNatParams::new(limb_width, n_limbs),
+        }
+    }
+
     /// Allocates a `BigNat` in the circuit with `n_limbs` limbs of width `limb_width` each.
     /// The `max_word` is guaranteed to be `(2 << limb_width) - 1`.
     /// The value is provided by an allocated number
-- 
2.43.0


From 194375123ddf7acd6350daaebe5da4361a161206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 41/47] fix: the folding circuit folds the public inputs of the
 instance

The integers it folded were free witnesses unrelated to the instance.
---
 nova/src/circuit/nifs.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 253fe36..c6d313b 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -2,7 +2,7 @@ use core::marker::PhantomData;
 use num_bigint::BigInt;
 use num_traits::Num;
 
-use crate::gadget::{f_to_nat, BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
+use crate::gadget::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
 use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
 use zkstd::common::{Group, IntGroup};
@@ -32,7 +32,6 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let r_t = commit_t.scalar_point(cs, &r);
         let e_fold = u_range.commit_e.add(&r_t, cs);
 
-        let r_bn = f_to_nat(&r.value(cs));
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
@@ -43,9 +42,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         FieldAssignment::enforce_eq_constant(cs, &(&(&u_fold - &u_range.u) - &r), &C::Base::zero());
 
         // Fold U.x0 + r * x0
-        let x0_single_bn = BigNatAssignment::witness_from_big_int(
+        let x0_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x0.value(cs)),
+            &u_single.x0,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
@@ -53,9 +52,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let x0_fold = u_range.x0.add(&r_x0).red_mod(cs, &m_bn_ass);
 
         // Fold U.x1 + r * x1
-        let x1_single_bn = BigNatAssignment::witness_from_big_int(
+        let x1_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x1.value(cs)),
+            &u_single.x1,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
-- 
2.43.0


From 3a7f7ae2efa0cf5356e5c02322ea82f8d552c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 42/47] fix: the first step of the augmented circuit starts
 from z_0

Any z_i could be claimed to be the input of the first step.
---
 nova/src/circuit/augmented.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c79892e..c57090b 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -88,6 +88,11 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
         let base_case = FieldAssignment::is_eq(cs, &i, &zero);
         let not_base_case = FieldAssignment::is_neq(cs, &i, &zero);
 
+        // the first step starts from the initial input
+        for (z_0, z_i) in z_0.iter().zip(z_i.iter()) {
+            FieldAssignment::conditional_enforce_equal(cs, z_0, z_i, &base_case);
+        }
+
         // base case
         let u_range_next_base = if self.is_primary {
             u_dummy
-- 
2.43.0


From 6ac466f397e2fbbede7da6330f97ff52df7aecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 43/47] fix: the base case of the augmented circuit starts from
 the trivial instance

Its running instance was a free witness.
---
 nova/src/circuit/augmented.rs       |  2 +-
 nova/src/gadget/relaxed_instance.rs | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c57090b..5cee774 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -59,7 +59,7 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             .collect::<Vec<_>>();
 
         let u_dummy_native = RelaxedR1csInstance::<C>::dummy(2);
-        let u_dummy = RelaxedR1csInstanceAssignment::witness(cs, &u_dummy_native);
+        let u_dummy = RelaxedR1csInstanceAssignment::dummy();
         let u_single = R1csInstanceAssignment::witness(
             cs,
             &self
diff --git a/nova/src/gadget/relaxed_instance.rs b/nova/src/gadget/relaxed_instance.rs
index 2f9385f..c982200 100644
--- a/nova/src/gadget/relaxed_instance.rs
+++ b/nova/src/gadget/relaxed_instance.rs
@@ -5,10 +5,11 @@ use crate::driver::scalar_as_base;
 use crate::gadget::big_nat::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{f_to_nat, R1csInstanceAssignment};
 use crate::hash::{HASH_BITS, MIMC_ROUNDS};
+use num_bigint::BigInt;
 use zkstd::circuit::prelude::{
     BinaryAssignment, CircuitDriver, FieldAssignment, PointAssignment, R1cs,
 };
-use zkstd::common::{CurveGroup, Ring};
+use zkstd::common::{CurveGroup, IntGroup, Ring};
 
 #[derive(Clone)]
 pub(crate) struct RelaxedR1csInstanceAssignment<C: CircuitDriver> {
@@ -58,6 +59,18 @@ impl<C: CircuitDriver> RelaxedR1csInstanceAssignment<C> {
         }
     }
 
+    /// The trivially satisfied instance
+    pub(crate) fn dummy() -> Self {
+        let zero = BigNatAssignment::constant(&BigInt::from(0), BN_LIMB_WIDTH, BN_N_LIMBS);
+        Self {
+            commit_w: PointAssignment::identity(),
+            commit_e: PointAssignment::identity(),
+            u: FieldAssignment::constant(&C::Base::zero()),
+            x0: zero.clone(),
+            x1: zero,
+        }
+    }
+
     /// E = 0, u = 1
     pub fn from_r1cs_instance<CS: CircuitDriver<Scalar = C::Base>>(
         cs: &mut R1cs<CS>,
-- 
2.43.0


From fc8a46e5f4ef5943f51c8751de7ebdeb918d2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 44/47] verif: guarded access to nova internals

---
 nova/src/circuit.rs |   2 +
 nova/src/lib.rs     |   2 +
 nova/src/verif.rs   | 331 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 335 insertions(+)
 create mode 100644 nova/src/verif.rs

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 505814e..4f3e393 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -3,4 +3,6 @@ mod nifs;
 mod transcript;
 
 pub(crate) use augmented::AugmentedFCircuit;
+#[cfg(kogarashi_verif)]
+pub(crate) use nifs::NifsCircuit;
 pub(crate) use transcript::MimcROCircuit;
diff --git a/nova/src/lib.rs b/nova/src/lib.rs
index 280a236..c9d4351 100644
--- a/nova/src/lib.rs
+++ b/nova/src/lib.rs
@@ -15,6 +15,8 @@ mod verifier;
 mod driver;
 #[cfg(test)]
 mod test;
+#[cfg(kogarashi_verif)]
+pub mod verif;
 
 pub use driver::{Bn254Driver, GrumpkinDriver};
 pub use function::FunctionCircuit;
diff --git a/nova/src/verif.rs b/nova/src/verif.rs
new file mode 100644
index 0000000..dbabe5d
--- /dev/null
+++ b/nova/src/verif.rs
@@ -0,0 +1,331 @@
+//! Access to internals for the runtime monitors; compiled only with `--cfg kogarashi_verif`.
+use crate::circuit::{AugmentedFCircuit, MimcROCircuit, NifsCircuit};
+use crate::gadget::{
+    BigNatAssignment, MimcAssignment, R1csInstanceAssignment, RelaxedR1csInstanceAssignment,
+};
+use crate::hash::{Mimc, MimcRO, CHALLENGE_BITS, HASH_BITS, MIMC_ROUNDS};
+use crate::relaxed_r1cs::{R1csInstance, R1csWitness, RelaxedR1csInstance, RelaxedR1csWitness};
+use crate::{FunctionCircuit, PedersenCommitment, R1csShape, RecursiveProof};
+
+use std::marker::PhantomData;
+use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
+use zkstd::common::PrimeField;
+use zkstd::matrix::DenseVectors;
+
+pub type Instance<C> = R1csInstance<C>;
+pub type Witness<C> = R1csWitness<C>;
+pub type RelaxedInstance<C> = RelaxedR1csInstance<C>;
+pub type RelaxedWitness<C> = RelaxedR1csWitness<C>;
+pub type BigNat<F> = BigNatAssignment<F>;
+
+pub const BITS: (usize, usize) = (CHALLENGE_BITS, HASH_BITS);
+
+/// instance of its commitment and inputs
+pub fn instance<C: CircuitDriver>(commit_w: C::Affine, x: Vec<C::Scalar>) -> Instance<C> {
+    R1csInstance {
+        commit_w,
+        x: DenseVectors::new(x),
+    }
+}
+
+/// commitment and inputs
+pub fn instance_parts<C: CircuitDriver>(i: &Instance<C>) -> (C::Affine, Vec<C::Scalar>) {
+    (i.commit_w, i.x.get())
+}
+
+pub fn witness<C: CircuitDriver>(w: Vec<C::Scalar>) -> Witness<C> {
+    R1csWitness {
+        w: DenseVectors::new(w),
+    }
+}
+
+pub fn witness_parts<C: CircuitDriver>(w: &Witness<C>) -> Vec<C::Scalar> {
+    w.w.get()
+}
+
+/// relaxed instance of its commitments to w and e, u and inputs
+pub fn relaxed_instance<C: CircuitDriver>(
+    commit_w: C::Affine,
+    commit_e: C::Affine,
+    u: C::Scalar,
+    x: Vec<C::Scalar>,
+) -> RelaxedInstance<C> {
+    RelaxedR1csInstance {
+        commit_w,
+        commit_e,
+        u,
+        x: DenseVectors::new(x),
+    }
+}
+
+#[allow(clippy::type_complexity)]
+pub fn relaxed_instance_parts<C: CircuitDriver>(
+    i: &RelaxedInstance<C>,
+) -> (C::Affine, C::Affine, C::Scalar, Vec<C::Scalar>) {
+    (i.commit_w, i.commit_e, i.u, i.x.get())
+}
+
+pub fn relaxed_witness<C: CircuitDriver>(
+    w: Vec<C::Scalar>,
+    e: Vec<C::Scalar>,
+) -> RelaxedWitness<C> {
+    RelaxedR1csWitness {
+        w: DenseVectors::new(w),
+        e: DenseVectors::new(e),
+    }
+}
+
+pub fn relaxed_witness_parts<C: CircuitDriver>(
+    w: &RelaxedWitness<C>,
+) -> (Vec<C::Scalar>, Vec<C::Scalar>) {
+    (w.w.get(), w.e.get())
+}
+
+/// instance and witness of a constraint system
+pub fn strict<C: CircuitDriver>(
+    cs: &R1cs<C>,
+    shape: &R1csShape<C>,
+    ck: &PedersenCommitment<C::Affine>,
+) -> (Instance<C>, Witness<C>) {
+    crate::relaxed_r1cs::r1cs_instance_and_witness(cs, shape, ck)
+}
+
+/// relaxed form of an instance and its witness
+pub fn relax<C: CircuitDriver>(
+    shape: &R1csShape<C>,
+    ck: &PedersenCommitment<C::Affine>,
+    i: &Instance<C>,
+    w: &Witness<C>,
+) -> (RelaxedInstance<C>, RelaxedWitness<C>) {
+    (
+        RelaxedR1csInstance::from_r1cs_instance(ck, shape, i),
+        RelaxedR1csWitness::from_r1cs_witness(shape, w),
+    )
+}
+
+/// trivial instance and witness
+pub fn dummy<C: CircuitDriver>(shape: &R1csShape<C>) -> (RelaxedInstance<C>, RelaxedWitness<C>) {
+    (
+        RelaxedR1csInstance::dummy(shape.l() as usize),
+        RelaxedR1csWitness::dummy(shape.m_l_1() as usize, shape.m() as usize),
+    )
+}
+
+pub fn commit<C: CircuitDriver>(
+    ck: &PedersenCommitment<C::Affine>,
+    m: Vec<C::Scalar>,
+) -> C::Affine {
+    ck.commit(&DenseVectors::new(m))
+}
+
+/// parts of a recursive proof
+#[allow(clippy::type_complexity)]
+pub struct Parts<E1: CircuitDriver, E2: CircuitDriver> {
+    pub i: u64,
+    pub z0: (Vec<E1::Scalar>, Vec<E2::Scalar>),
+    pub zi: (Vec<E1::Scalar>, Vec<E2::Scalar>),
+    pub single_secondary: (Instance<E2>, Witness<E2>),
+    pub range_primary: (RelaxedInstance<E1>, RelaxedWitness<E1>),
+    pub range_secondary: (RelaxedInstance<E2>, RelaxedWitness<E2>),
+}
+
+pub fn proof_parts<E1, E2, FC1, FC2>(p: &RecursiveProof<E1, E2, FC1, FC2>) -> Parts<E1, E2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    let (single_secondary, range_primary, range_secondary) = p.instances.clone();
+    Parts {
+        i: p.i,
+        z0: (p.z0_primary.get(), p.z0_secondary.get()),
+        zi: (p.zi_primary.get(), p.zi_secondary.get()),
+        single_secondary,
+        range_primary,
+        range_secondary,
+    }
+}
+
+pub fn proof_from_parts<E1, E2, FC1, FC2>(p: Parts<E1, E2>) -> RecursiveProof<E1, E2, FC1, FC2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    RecursiveProof {
+        i: p.i,
+        z0_primary: DenseVectors::new(p.z0.0),
+        z0_secondary: DenseVectors::new(p.z0.1),
+        zi_primary: DenseVectors::new(p.zi.0),
+        zi_secondary: DenseVectors::new(p.zi.1),
+        instances: (p.single_secondary, p.range_primary, p.range_secondary),
+        marker: PhantomData,
+    }
+}
+
+pub fn mimc_constants<F: PrimeField>() -> Vec<F> {
+    Mimc::<MIMC_ROUNDS, F>::default().constants.to_vec()
+}
+
+pub fn mimc<F: PrimeField>(xl: F, xr: F) -> F {
+    Mimc::<MIMC_ROUNDS, F>::default().hash(xl, xr)
+}
+
+pub fn mimc_circuit<C: CircuitDriver>(
+    cs: &mut R1cs<C>,
+    xl: FieldAssignment<C::Scalar>,
+    xr: FieldAssignment<C::Scalar>,
+) -> FieldAssignment<C::Scalar> {
+    MimcAssignment::<MIMC_ROUNDS, C::Scalar>::default().hash(cs, xl, xr)
+}
+
+/// what a transcript absorbs
+pub enum Absorb<C: CircuitDriver> {
+    Scalar(C::Base),
+    Point(C::Affine),
+}
+
+/// squeezed from a transcript
+pub fn squeeze<C: CircuitDriver>(items: &[Absorb<C>], bits: usize) -> C::Scalar {
+    let mut t = MimcRO::<MIMC_ROUNDS, C>::default();
+    for i in items {
+        match i {
+            Absorb::Scalar(s) => t.append(*s),
+            Absorb::Point(p) => t.append_point(*p),
+        }
+    }
+    t.squeeze(bits)
+}
+
+/// what a transcript in a circuit absorbs
+pub enum AbsorbAssignment<F: PrimeField> {
+    Scalar(FieldAssignment<F>),
+    Point(PointAssignment<F>),
+}
+
+pub fn squeeze_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    items: Vec<AbsorbAssignment<C::Base>>,
+    bits: usize,
+) -> FieldAssignment<C::Base> {
+    let mut t = MimcROCircuit::<MIMC_ROUNDS, C>::default();
+    for i in items {
+        match i {
+            AbsorbAssignment::Scalar(s) => t.append(s),
+            AbsorbAssignment::Point(p) => t.append_point(p),
+        }
+    }
+    t.squeeze(cs, bits)
+}
+
+/// hash of a relaxed instance, computed in a circuit that has it as its witness
+pub fn hash_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    instance: &RelaxedInstance<C>,
+    i: FieldAssignment<C::Base>,
+    z_0: Vec<FieldAssignment<C::Base>>,
+    z_i: Vec<FieldAssignment<C::Base>>,
+) -> FieldAssignment<C::Base> {
+    RelaxedR1csInstanceAssignment::witness(cs, instance).hash(cs, i, z_0, z_i)
+}
+
+/// instance of a circuit
+#[allow(clippy::type_complexity)]
+pub struct Folded<F: PrimeField> {
+    pub r: FieldAssignment<F>,
+    pub commit_w: PointAssignment<F>,
+    pub commit_e: PointAssignment<F>,
+    pub u: FieldAssignment<F>,
+    pub x0: BigNat<F>,
+    pub x1: BigNat<F>,
+}
+
+/// number of witnesses `fold_circuit` allocates for its inputs
+pub fn fold_inputs<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    u_range: &RelaxedInstance<C>,
+    u_single: &Instance<C>,
+    commit_t: C::Affine,
+) -> usize {
+    let mut cs = R1cs::<CS>::default();
+    RelaxedR1csInstanceAssignment::witness(&mut cs, u_range);
+    R1csInstanceAssignment::witness(&mut cs, u_single);
+    point(&mut cs, commit_t);
+    cs.m_l_1()
+}
+
+fn point<C: CircuitDriver, P: zkstd::common::BNAffine<Base = C::Scalar>>(
+    cs: &mut R1cs<C>,
+    p: P,
+) -> PointAssignment<C::Scalar> {
+    PointAssignment::witness(cs, p.get_x(), p.get_y(), p.is_identity())
+}
+
+/// folding verified in a circuit that has the instances as its first witnesses
+pub fn fold_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    u_range: &RelaxedInstance<C>,
+    u_single: &Instance<C>,
+    commit_t: C::Affine,
+) -> Folded<C::Base> {
+    let u_range = RelaxedR1csInstanceAssignment::witness(cs, u_range);
+    let u_single = R1csInstanceAssignment::witness(cs, u_single);
+    let commit_t = point(cs, commit_t);
+    let r = AugmentedFCircuit::<C, NoFunction>::get_challenge(cs, &u_range, commit_t.clone());
+    let f = NifsCircuit::verify(cs, r.clone(), u_range, u_single, commit_t);
+    Folded {
+        r,
+        commit_w: f.commit_w,
+        commit_e: f.commit_e,
+        u: f.u,
+        x0: f.x0,
+        x1: f.x1,
+    }
+}
+
+#[derive(Clone, Debug, Default, PartialEq, Eq, zkstd::common::Encode, zkstd::common::Decode)]
+struct NoFunction;
+
+impl<F: PrimeField> FunctionCircuit<F> for NoFunction {
+    fn invoke(z_i: &DenseVectors<F>) -> DenseVectors<F> {
+        z_i.clone()
+    }
+
+    fn invoke_cs<C: CircuitDriver<Scalar = F>>(
+        _: &mut R1cs<C>,
+        z_i: Vec<FieldAssignment<F>>,
+    ) -> Vec<FieldAssignment<F>> {
+        z_i
+    }
+}
+
+/// the step circuit around a function
+#[allow(clippy::too_many_arguments)]
+pub fn augmented<C, FC, CS>(
+    cs: &mut R1cs<CS>,
+    is_primary: bool,
+    i: u64,
+    z_0: Vec<C::Base>,
+    z_i: Option<Vec<C::Base>>,
+    u_single: Option<Instance<C>>,
+    u_range: Option<RelaxedInstance<C>>,
+    commit_t: Option<C::Affine>,
+) -> Vec<FieldAssignment<C::Base>>
+where
+    C: CircuitDriver,
+    FC: FunctionCircuit<C::Base>,
+    CS: CircuitDriver<Scalar = C::Base>,
+{
+    AugmentedFCircuit::<C, FC> {
+        is_primary,
+        i,
+        z_0: DenseVectors::new(z_0),
+        z_i: z_i.map(DenseVectors::new),
+        u_single,
+        u_range,
+        commit_t,
+        f: PhantomData,
+    }
+    .generate(cs)
+}
-- 
2.43.0


From cfd4406aa3c38a89008a65d4e4a7a5077479c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:07 +0000
Subject: [PATCH 45/47] fix: decoding refuses field elements outside the field

---
 bn254/src/fq.rs | 35 +++++++++++++++++++++++++++++++++--
 bn254/src/fr.rs | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/bn254/src/fq.rs b/bn254/src/fq.rs
index ed73055..cf1bdfb 100644
--- a/bn254/src/fq.rs
+++ b/bn254/src/fq.rs
@@ -1,6 +1,8 @@
 use crate::Fr;
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
+use serde::de::{Deserializer, Error as _};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -44,8 +46,37 @@ pub(crate) const R3: [u64; 4] = [
 pub(crate) const INV: u64 = 0x87d20782e4866389;
 
 /// bn254 curve base field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
-pub struct Fq(pub(crate) [u64; 4]);
+#[derive(Clone, Copy, Encode, Serialize, Deserialize)]
+pub struct Fq(#[serde(deserialize_with = "deserialize_limbs")] pub(crate) [u64; 4]);
+
+/// limbs of an element are less than the modulus
+const fn is_canonical(limbs: &[u64; 4]) -> bool {
+    let (_, borrow) = sbb(limbs[0], MODULUS[0], 0);
+    let (_, borrow) = sbb(limbs[1], MODULUS[1], borrow);
+    let (_, borrow) = sbb(limbs[2], MODULUS[2], borrow);
+    let (_, borrow) = sbb(limbs[3], MODULUS[3], borrow);
+    borrow & 1 == 1
+}
+
+fn deserialize_limbs<'de, D: Deserializer<'de>>(deserializer: D) -> Result<[u64; 4], D::Error> {
+    let limbs = <[u64; 4]>::deserialize(deserializer)?;
+    if is_canonical(&limbs) {
+        Ok(limbs)
+    } else {
+        Err(D::Error::custom("non-canonical field element"))
+    }
+}
+
+impl Decode for Fq {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let limbs = <[u64; 4]>::decode(input)?;
+        if is_canonical(&limbs) {
+            Ok(Self(limbs))
+        } else {
+            Err("non-canonical field element".into())
+        }
+    }
+}
 
 impl SigUtils<32> for Fq {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index d4980f2..23b0a51 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -3,6 +3,8 @@ use crate::fqn::Fq2;
 
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
+use serde::de::{Deserializer, Error as _};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -67,8 +69,37 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
 pub const TWO_ADACITY: u32 = 28;
 
 /// Bn254 curve scalar field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
-pub struct Fr(pub [u64; 4]);
+#[derive(Clone, Copy, Encode, Serialize, Deserialize)]
+pub struct Fr(#[serde(deserialize_with = "deserialize_limbs")] pub [u64; 4]);
+
+/// limbs of an element are less than the modulus
+const fn is_canonical(limbs: &[u64; 4]) -> bool {
+    let (_, borrow) = sbb(limbs[0], MODULUS[0], 0);
+    let (_, borrow) = sbb(limbs[1], MODULUS[1], borrow);
+    let (_, borrow) = sbb(limbs[2], MODULUS[2], borrow);
+    let (_, borrow) = sbb(limbs[3], MODULUS[3], borrow);
+    borrow & 1 == 1
+}
+
+fn deserialize_limbs<'de, D: Deserializer<'de>>(deserializer: D) -> Result<[u64; 4], D::Error> {
+    let limbs = <[u64; 4]>::deserialize(deserializer)?;
+    if is_canonical(&limbs) {
+        Ok(limbs)
+    } else {
+        Err(D::Error::custom("non-canonical field element"))
+    }
+}
+
+impl Decode for Fr {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let limbs = <[u64; 4]>::decode(input)?;
+        if is_canonical(&limbs) {
+            Ok(Self(limbs))
+        } else {
+            Err("non-canonical field element".into())
+        }
+    }
+}
 
 impl SigUtils<32> for Fr {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
-- 
2.43.0


From 7a4fd7819ec733696c27db35332a0f33efb29568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:51 +0000
Subject: [PATCH 46/47] fix: a recursive proof has as many outputs as inputs

---
 nova/src/proof.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 081dc8b..7d5b86c 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -48,6 +48,13 @@ where
             (u_range_secondary, w_range_secondary),
         ) = self.instances.clone();
 
+        // the transcript does not separate the inputs from the outputs
+        if self.z0_primary.len() != self.zi_primary.len()
+            || self.z0_secondary.len() != self.zi_secondary.len()
+        {
+            return false;
+        }
+
         if u_single_secondary.x.len() != 2
             || u_range_primary.x.len() != 2
             || u_range_secondary.x.len() != 2
-- 
2.43.0


From 4d973ff274c3e910be17474268f6749b5aeb2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 47/47] fix: signed windows of 7 and 8 bits do not overflow

---
 zkstd/src/macros/field.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zkstd/src/macros/field.rs b/zkstd/src/macros/field.rs
index 4b8d9bc..5bb4722 100644
--- a/zkstd/src/macros/field.rs
+++ b/zkstd/src/macros/field.rs
@@ -182,12 +182,12 @@ macro_rules! fft_field_operation {
 
             fn mods_2_pow_k(&self, w: u8) -> i8 {
                 assert!(w < 32u8);
-                let modulus = self.mod_2_pow_k(w) as i8;
-                let two_pow_w_minus_one = 1i8 << (w - 1);
+                let modulus = self.mod_2_pow_k(w) as i16;
+                let two_pow_w_minus_one = 1i16 << (w - 1);
 
                 match modulus >= two_pow_w_minus_one {
-                    false => modulus,
-                    true => modulus - ((1u8 << w) as i8),
+                    false => modulus as i8,
+                    true => (modulus - (1i16 << w)) as i8,
                 }
             }
         }
-- 
2.43.0

