From 6fe839c42b17ff6e1452334f59f30ea687f791e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 01/23] fix: iterating the bits of the zero scalar must not
 underflow

iter_lr computed bits()-1, so multiplying a point by a scalar that is
zero modulo the order panicked when overflow checks are on.
---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..bead76c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..f78fe52 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..8e24cd2 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From df5f0c3ba5aad051f529d067b03330a2c3251ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 02/23] fix: normalizing the point at infinity must keep it at
 infinity

normalize turned (0:y:0) into (0:0:1), which is not on the curve; encode
therefore never produced the single zero byte for the identity.
---
 src/montgomery/point.rs  | 5 +++++
 src/weierstrass/point.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..07e99df 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            // the point at infinity has no affine coordinates, use (0:1:0).
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..830cf4f 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,11 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            // the point at infinity has no affine coordinates, use (0:1:0).
+            self.c.y.set_one();
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 6c8402feb0355082ba054eaa6a79d545c3208bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 03/23] fix: decode the single-byte encoding of the point at
 infinity

The x coordinate was sliced out of the buffer before looking at the tag,
so decoding any one-byte buffer panicked.
---
 src/montgomery/curve.rs  | 24 ++++++++++++++----------
 src/weierstrass/curve.rs | 24 ++++++++++++++----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..e1eb101 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -99,6 +99,16 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity is encoded as a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(
+                    ErrorKind::Other,
+                    "Invalid bytes for deserialization",
+                )),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
@@ -106,16 +116,10 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
         }
         match tag {
-            0x00 => {
-                // return point of infinity
-                if buf.len() != 1 {
-                    return Err(Error::new(
-                        ErrorKind::Other,
-                        "Point at infinity should just be a single zero byte",
-                    ));
-                }
-                Ok(self.identity())
-            }
+            0x00 => Err(Error::new(
+                ErrorKind::Other,
+                "Point at infinity should just be a single zero byte",
+            )),
             0x04 => {
                 if buf.len() != 2 * size + 1 {
                     return Err(Error::new(
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..5c6b2af 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -97,6 +97,16 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            // only the point at infinity is encoded as a single byte
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(
+                    ErrorKind::Other,
+                    "Invalid bytes for deserialization",
+                )),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
@@ -104,16 +114,10 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
         }
         match tag {
-            0x00 => {
-                // return point of infinity
-                if buf.len() != 1 {
-                    return Err(Error::new(
-                        ErrorKind::Other,
-                        "Point at infinity should just be a single zero byte",
-                    ));
-                }
-                Ok(self.identity())
-            }
+            0x00 => Err(Error::new(
+                ErrorKind::Other,
+                "Point at infinity should just be a single zero byte",
+            )),
             0x04 => {
                 if buf.len() != 2 * size + 1 {
                     return Err(Error::new(
-- 
2.43.0


From 5fc9c0f71a8f8213f27223a8642d8914ae65ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 04/23] fix: decoding bytes that are not a curve point must
 return an error

decode recovered coordinates and passed them to new_point, which panics
whenever the point is not on the curve.
---
 src/edwards/curve.rs     | 16 +++++++++++++++-
 src/montgomery/curve.rs  | 17 +++++++++++++++--
 src/weierstrass/curve.rs | 17 +++++++++++++++--
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..a0a345b 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -36,6 +36,20 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns an error whenever the decoded coordinates are not a point on the curve.
+    fn decode_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let t = &x * &y;
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, t, z },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -142,7 +156,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.decode_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index e1eb101..0ecb472 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -39,6 +39,19 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns an error whenever the decoded coordinates are not a point on the curve.
+    fn decode_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -133,7 +146,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decode_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -158,7 +171,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decode_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 5c6b2af..d28c746 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -35,6 +35,19 @@ impl Curve {
         let pt = Point { e, c };
         do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)
     }
+    /// Returns an error whenever the decoded coordinates are not a point on the curve.
+    fn decode_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let z = self.f.one();
+        let pt = Point {
+            c: ProyCoordinates { x, y, z },
+            e: self.clone(),
+        };
+        if self.is_on_curve(&pt) {
+            Ok(pt)
+        } else {
+            Err(Error::new(ErrorKind::Other, ERR_ECC_NEW))
+        }
+    }
 }
 
 impl EllipticCurve for Curve {
@@ -131,7 +144,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decode_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -153,7 +166,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decode_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From d6ccbbeeaefe28c5281d6e270d15e0880a000e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 05/23] fix: montgomery decode must reject the negative sign of
 a zero y coordinate

The two-torsion point had two compressed encodings; the edwards decoder
already rejects the analogous case.
---
 src/montgomery/curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 0ecb472..2bc8208 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -167,6 +167,10 @@ impl Decode for Curve {
                 let y_sqrt = yy.sqrt();
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
+                if y_sqrt.is_zero() && tag != deser_tag {
+                    // there is only one sign for y=0, as encode produces.
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y coordinate"));
+                }
                 let mut y = y_sqrt;
                 if tag != deser_tag {
                     y = -y;
-- 
2.43.0


From 39533c6f39f4cbd9e6fb0d3238186b3b85f8ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 06/23] fix: the edwards point (0,-1) is not the identity

is_zero only looked at x=0, which also holds for the point of order two.
---
 src/edwards/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..7884dac 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero() && self.c.y == self.c.z
     }
 }
 impl Encode for Point {
-- 
2.43.0


From 64472025d2446a6f509863d465a1686b267d1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 07/23] fix: edwards25519 to curve25519 must map the order-two
 point to (0,0)

The general formulas yield (0:0:0) for (0,-1).
---
 src/instances/rational_maps.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..fdc1aac 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -13,6 +13,7 @@ use crate::montgomery::Point as MtPoint;
 use crate::ops::FromFactory;
 use crate::primefield::FpElt;
 use crate::weierstrass::Curve as WeCurve;
+use num_traits::identities::Zero;
 
 pub fn edwards25519_to_curve25519() -> impl RationalMap<E0 = EdCurve, E1 = MtCurve> {
     let e0 = EDWARDS25519.get();
@@ -42,6 +43,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // (0,-1), the point of order two, goes to (0,0).
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
-- 
2.43.0


From ba0d1226ae93f95457940a22b88c68f7a2450b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 08/23] fix: is_two_torsion must not depend on the scaling of
 the coordinates

A point (0:0:z) with z!=1, as produced by additions, was not recognized;
the map to edwards25519 then produced (0:0:0:0).
---
 src/montgomery/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 07e99df..40443f0 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -118,7 +118,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From 187d6aba72b505c9ed8542a5dd172951c4f1a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 09/23] fix: curve448 to edwards448 must map the two-torsion
 point to the identity

The formulas are undefined at (0,0) and returned (0:0:0:0), which
compares equal to every point.
---
 src/instances/rational_maps.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index fdc1aac..f5d9814 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -131,7 +131,8 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
+            // the kernel of the isogeny
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
-- 
2.43.0


From 02814163fef575d1abd0cbd2c1da6ca58698c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 10/23] fix: isogenies must accept any projective
 representative of a point

push evaluated the rational maps on the raw projective coordinates, so it
panicked on the result of most additions, on the identity and on the
kernel of the isogeny.
---
 src/instances/rational_maps.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index f5d9814..aae32b4 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -217,7 +217,12 @@ impl Isogeny for Isosecp256k1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
         let f = self.e0.get_field();
+        let mut p = p;
+        p.normalize(); // the maps are given in affine coordinates.
         let x = p.c.x;
         let y = p.c.y;
         let mut x_num = f.zero();
@@ -231,6 +236,10 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() {
+            // the kernel of the isogeny
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -330,7 +339,12 @@ impl Isogeny for IsoBls12381G1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
         let f = self.e0.get_field();
+        let mut p = p;
+        p.normalize(); // the maps are given in affine coordinates.
         let x = p.c.x;
         let y = p.c.y;
         let mut x_num = f.zero();
@@ -347,6 +361,10 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() {
+            // the kernel of the isogeny
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 7f4f9a0a4606ac78a92fbd6556a797808bd16d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 11/23] fix: exponentiation and square roots in the quadratic
 field

Raising to any power, and therefore sqrt, panicked on the unimplemented
Fp2Elt::one(), skipped the top bit of every 32-bit digit of the exponent,
and did not support negative exponents as the prime field does.
---
 src/quadraticfield/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..79addfd 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -6,6 +6,7 @@ use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
+use num_traits::sign::Signed;
 
 use std::ops;
 use std::ops::{BitXor, Div};
@@ -240,9 +241,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
@@ -258,8 +259,12 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a Fp2Elt {
     type Output = Fp2Elt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.to_biguint().unwrap();
-        self ^ expo
+        let expo = exp.magnitude();
+        if exp.is_negative() {
+            &self.inv_mod() ^ expo
+        } else {
+            self ^ expo
+        }
     }
 }
 
-- 
2.43.0


From 29fa21096760c552e52b4ded265f82e1a3981dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 12/23] fix: zero is a square in the quadratic field

As it is in the prime field.
---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 79addfd..6314a69 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -303,7 +303,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_one() || t1.is_zero()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From d3a9e7e9d3359ff39af8eaef7d676f16d71b5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 13/23] fix: sgn0 in the quadratic field must tell an element
 from its negative

Elements with an even non-zero first coordinate and an odd second one
got sign -1, and so did their negatives.
---
 src/quadraticfield/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 6314a69..94ad774 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -329,10 +329,12 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        // the sign of the first non-zero coordinate
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From 896ece66dcb0581fc789cf1e3b912ac07595a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 14/23] fix: zero raised to a multiple of p-1 is zero

The exponent was reduced modulo p-1 to 0, which gave 0^0=1.
---
 src/primefield/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..630ddc1 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,6 +238,10 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        if self.is_zero() && !exp.is_zero() {
+            // exponents can only be reduced modulo p-1 for non-zero elements.
+            return self.clone();
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From 4858bb5b26c855868ba6109582a8784da7fababd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 15/23] fix: do not leak prime fields after a square root is
 computed

For p=5 mod 8 the cached square root of -1 was a field element, which
holds a counted reference to the field that owns the cache. The cycle
kept the field alive forever.
---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 630ddc1..174537d 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -252,7 +252,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -278,7 +278,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n;
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -309,7 +309,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = &t0 * self.f.elt(sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From c16920e9bf9ab8ca06196e5974ca5a51b5adc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 16/23] fix: square roots in a field that is shared between
 threads

Two threads that took a square root at the same time could panic, since
the cache was mutably borrowed while the values were calculated.
---
 src/primefield/mod.rs     | 17 ++++++++++++-----
 src/quadraticfield/mod.rs | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 174537d..e82701b 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -258,11 +258,18 @@ enum SqrtPrecmp {
 }
 impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        // the field is shared between threads, thus failing to borrow the cache
+        // only means that the values must be calculated again.
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = &self.0.p;
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 94ad774..437aa24 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -277,11 +277,18 @@ enum SqrtPrecmp {
 
 impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
-        self.0
-            .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
-            .clone()
+        // the field is shared between threads, thus failing to borrow the cache
+        // only means that the values must be calculated again.
+        if let Ok(cache) = self.0.sqrt_precmp.try_borrow() {
+            if let Some(pre) = cache.as_ref() {
+                return pre.clone();
+            }
+        }
+        let pre = self.calc_sqrt_precmp();
+        if let Ok(mut cache) = self.0.sqrt_precmp.try_borrow_mut() {
+            *cache = Some(pre.clone());
+        }
+        pre
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
         let p = self.get_modulus();
-- 
2.43.0


From 5f3d7b40f592576a4e8bf989267e51b240025fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 17/23] fix: montgomery addition must take the coefficient b
 into account

Adding points of a curve by^2=x^3+ax^2+x with b!=1 panicked, since the
formulas are only valid for b=1. They are now the same formulas over the
change of variable y -> sqrt(b)*y.
---
 src/montgomery/point.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 40443f0..48af831 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -85,8 +85,8 @@ impl Point {
     fn core_add(&self, p: &Point) -> Point {
         let (x1, y1, z1) = (&self.c.x, &self.c.y, &self.c.z);
         let (x2, y2, z2) = (&p.c.x, &p.c.y, &p.c.z);
-        let (a_ec, s_ec) = (&self.e.a, &self.e.s);
-        let (t0, t1, t2) = (x1 * x2, y1 * y2, z1 * z2);
+        let (a_ec, b_ec, s_ec) = (&self.e.a, &self.e.b, &self.e.s);
+        let (t0, t1, t2) = (x1 * x2, b_ec * y1 * y2, z1 * z2);
         let (t3, t4) = (x1 * y2, x2 * y1);
         let (t5, t6) = (y1 * z2, y2 * z1);
         let (t7, t8) = (x1 * z2, x2 * z1);
@@ -95,12 +95,12 @@ impl Point {
         let rr = &t5 + &t6;
         let tt = &ta - &t1;
         let vv = t9 * a_ec + &t0 + &t0 + &t0 + &t2;
-        let ss = (&t3 - &t4) * s_ec + t0 - t2;
+        let ss = (&t3 - &t4) * b_ec * s_ec + t0 - t2;
         let uu = (t7 - t8) * s_ec - t3 - t4;
-        let ww = (t5 - t6) * s_ec + ta + t1;
-        let x3 = &rr * &ss - &tt * &uu;
+        let ww = (t5 - t6) * b_ec * s_ec + ta + t1;
+        let x3 = b_ec * (&rr * &ss - &tt * &uu);
         let y3 = tt * &ww - &vv * &ss;
-        let z3 = vv * uu - rr * ww;
+        let z3 = b_ec * (vv * uu - rr * ww);
         self.e.new_proy_point(ProyCoordinates {
             x: x3,
             y: y3,
-- 
2.43.0


From dd28294dabb025e4895c9c21d26af390bbf5826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 18/23] fix: elligator2 for montgomery curves with b!=1

The map works on the curve y^2=x^3+(a/b)x^2+x/b^2, but a*b was used as
the coefficient of x^2, so map panicked when b^2!=1.
---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From 3507bc3b29aeb2be507429b0c4c3e6d51b904c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 19/23] fix: elligator2 must reject a square Z

As SSWU and SVDW do with wrong parameters. With a square Z, map panicked
for about half of the inputs.
---
 src/montgomery/elligator2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 449b025..160d9cd 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -15,7 +15,7 @@ pub struct Ell2 {
 
 impl Ell2 {
     pub fn new(e: Curve, z: FpElt) -> Ell2 {
-        if !Ell2::verify(&e) {
+        if !Ell2::verify(&e, &z) {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
@@ -24,10 +24,11 @@ impl Ell2 {
             Ell2 { e, z, ca, cb }
         }
     }
-    fn verify(e: &Curve) -> bool {
+    fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
-        cond1 && cond2
+        let cond3 = !z.is_square(); // Z is non-square
+        cond1 && cond2 && cond3
     }
 }
 
-- 
2.43.0


From bb32f2dfd8f4fff6d1d210fd8fe06f6d8f004ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 20/23] fix: points over different fields are different

Comparing them panicked, as the coordinates were multiplied before
checking that both points belong to the same curve.
---
 src/edwards/point.rs     | 5 ++++-
 src/montgomery/point.rs  | 5 ++++-
 src/weierstrass/point.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index 7884dac..ffd1a2d 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,13 +107,16 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
         let t1z2 = &self.c.t * &other.c.z;
         let z1t2 = &self.c.z * &other.c.t;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
+        x1z2 == z1x2 && y1z2 == z1y2 && t1z2 == z1t2
     }
 }
 
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 48af831..7328941 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -126,11 +126,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 830cf4f..d4f9ff7 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -211,11 +211,14 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
         let z1y2 = &self.c.z * &other.c.y;
-        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
+        x1z2 == z1x2 && y1z2 == z1y2
     }
 }
 
-- 
2.43.0


From 573c28de23582754e42bceed48ab3603b2b8c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 21/23] fix: inverse in the quadratic field must conjugate the
 element

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 437aa24..b6afb29 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -190,7 +190,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From f48fa7f887e06c949a161ed46b650b8872c337ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 22/23] fix: weierstrass decode must reject the negative sign
 of a zero y coordinate

A point with y=0 had two compressed encodings; the montgomery and edwards
decoders already reject the analogous case.
---
 src/weierstrass/curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index d28c746..7fe5a91 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -162,6 +162,10 @@ impl Decode for Curve {
                 let y_sqrt = xxx_ax_b.sqrt();
                 let s = y_sqrt.sgn0();
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
+                if y_sqrt.is_zero() && tag != deser_tag {
+                    // there is only one sign for y=0, as encode produces.
+                    return Err(Error::new(ErrorKind::Other, "Invalid sign of y coordinate"));
+                }
                 let mut y = y_sqrt;
                 if tag != deser_tag {
                     y = -y;
-- 
2.43.0


From db66cd0a556a4ac01dd12010575e2f235482a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 23/23] fix: the cofactor of the curve isogenous to BLS12-381
 G1 must clear its points

The points of this curve are not killed by r*(1-x), which is the effective
cofactor of the target curve only; use the index of the subgroup instead.
---
 src/instances/weier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/weier.rs b/src/instances/weier.rs
index d648cf5..741f416 100644
--- a/src/instances/weier.rs
+++ b/src/instances/weier.rs
@@ -100,7 +100,7 @@ static BLS12381G1_11ISO_PARAMS: &Params = &Params {
     a: "0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d",
     b: "0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0",
     r: "52435875175126190479447740508185965837690552500527637822603658699938581184513",
-    h: "15132376222941642753",
+    h: "76329603384216526031706109802092473003",
     gx: "0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2",
     gy: "0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4",
 };
-- 
2.43.0

