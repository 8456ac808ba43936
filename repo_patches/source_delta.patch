From 5dda61dedfbf145c1bad51b55f68d849cec39b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:26 +0000
Subject: [PATCH 01/56] fix: eliminate before normalising in the Gauss-Jordan
 inverse

A row equal or opposite to the pivot row left a rounding residue of the size
of one ulp after the pivot row had been normalised, so an exactly singular
matrix was answered with a garbage inverse (always in f32, and in f64 for
entries above 1e4) instead of None.
---
 crates/aether_core/src/math/matrix.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..4294943 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1023,19 +1023,14 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
                 }
             }
 
-            // normalize pivot row
-            let invd = T::ONE / a[(k, k)];
-            for c in 0..N {
-                a[(k, c)] = a[(k, c)] * invd;
-                i[(k, c)] = i[(k, c)] * invd;
-            }
-
-            // eliminate others
+            // eliminate others (before normalizing, so that a row equal to the
+            // pivot row cancels exactly instead of leaving a rounding residue)
+            let pivot = a[(k, k)];
             for r in 0..N {
                 if r == k {
                     continue;
                 }
-                let f = a[(r, k)];
+                let f = a[(r, k)] / pivot;
                 if f != T::ZERO {
                     for c in 0..N {
                         a[(r, c)] = a[(r, c)] - f * a[(k, c)];
@@ -1043,6 +1038,13 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
                     }
                 }
             }
+
+            // normalize pivot row
+            let invd = T::ONE / pivot;
+            for c in 0..N {
+                a[(k, c)] = a[(k, c)] * invd;
+                i[(k, c)] = i[(k, c)] * invd;
+            }
         }
         Some(i)
     }
-- 
2.43.0


From 8f7f771ba8a5e4b9ee72eebd487827aef592d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:37 +0000
Subject: [PATCH 02/56] fix: Quaternion::to_dcm returned the transposed (To ->
 From) matrix

It disagreed with rotate_vector and with DirectionCosineMatrix::from(&q),
which both implement the passive From -> To transform the type promises.
---
 crates/aether_core/src/attitude/quaternion.rs | 28 ++-----------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..d656b92 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -1,5 +1,5 @@
 use crate::attitude::{DirectionCosineMatrix, Euler};
-use crate::math::{Matrix, Vector};
+use crate::math::Vector;
 use crate::reference_frame::ReferenceFrame;
 use crate::real::Real;
 use crate::coordinate::Cartesian;
@@ -145,31 +145,7 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
     /// Convert to DCM (From -> To)
     #[inline]
     pub fn to_dcm(&self) -> DirectionCosineMatrix<T, From, To> {
-        let q = self.normalized();
-        let (w, x, y, z) = (q.w(), q.i(), q.j(), q.k());
-
-        let one = T::ONE;
-        let two = one + one;
-
-        let ww = w * w;
-        let xx = x * x;
-        let yy = y * y;
-        let zz = z * z;
-
-        let wx = w * x;
-        let wy = w * y;
-        let wz = w * z;
-        let xy = x * y;
-        let xz = x * z;
-        let yz = y * z;
-
-        let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
-        ]);
-
-        DirectionCosineMatrix::from_matrix(m)
+        DirectionCosineMatrix::from(&self.normalized())
     }
 
     #[inline]
-- 
2.43.0


From ba4a74be4b89028a77e485dc31249d8ea4a4574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 03/56] fix: quaternion composition used the reversed Hamilton
 order

For passive transforms (v_to = q* v q) the composition (Mid -> To) * (From -> Mid)
is q_from_mid x q_mid_to; the product was taken in the other order, so composing
quaternions, Rotation::compose and Rotation::integrate did not match the product
of the corresponding direction cosine matrices for non-commuting rotations.
---
 crates/aether_core/src/attitude/quaternion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index d656b92..51a25fb 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -224,9 +224,10 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // Passive transforms chain in Hamilton order rhs x self:
+        // (q_fm x q_mt)* v (q_fm x q_mt) = q_mt* (q_fm* v q_fm) q_mt
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From f0f743a62d36d1d6f2cd0cf1dc501f21cdc47ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 04/56] fix: Taylor coefficients of the quaternion rate
 integration

The rate and acceleration quaternions had scalar part one instead of zero and
the second and third order terms wrong factors, so the step was not even first
order accurate.
---
 crates/aether_core/src/attitude/quaternion.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 51a25fb..cf854d1 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -177,21 +177,23 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
 
         let one = T::ONE;
         let two = one + one;
-        let three = two + one;
         let four = two + two;
-        let nine = three * three;
+        let six = four + two;
+        let eight = four + four;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let sixth = one / six;
+        let eighth = one / eight;
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
+        // q_dot = 1/2 q w, differentiated with w_dot = a constant over the step
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * eighth
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -199,8 +201,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From 39a741517f4df0fd7257edb2bf79adda982f7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:53 +0000
Subject: [PATCH 05/56] fix: Euler angle extraction at and near gimbal lock

asin of a matrix entry beyond one by a rounding error gave NaN, and roll and yaw
were both taken from vanishing entries, so the triple did not reproduce the
rotation it was extracted from.
---
 crates/aether_core/src/attitude/euler.rs | 41 ++++++------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..df8644b 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -39,34 +39,7 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
     core::convert::From<&Quaternion<T, From, To>> for Euler<T, From, To>
 {
     fn from(q: &Quaternion<T, From, To>) -> Self {
-        let w = q.w();
-        let x = q.i();
-        let y = q.j();
-        let z = q.k();
-
-        let two = T::ONE + T::ONE;
-        let one = T::ONE;
-
-        // Roll (x-axis)
-        let sinr_cosp = two * (w * x + y * z);
-        let cosr_cosp = one - two * (x * x + y * y);
-        let roll = sinr_cosp.atan2(cosr_cosp);
-
-        // Pitch (y-axis)
-        let sinp = two * (w * y - z * x);
-        let half_pi = T::FRAC_PI_2;
-        let pitch = if sinp.abs() >= one {
-            half_pi * sinp.signum()
-        } else {
-            sinp.asin()
-        };
-
-        // Yaw (z-axis)
-        let siny_cosp = two * (w * z + x * y);
-        let cosy_cosp = one - two * (y * y + z * z);
-        let yaw = siny_cosp.atan2(cosy_cosp);
-
-        Self::new(roll, pitch, yaw)
+        Self::from(&DirectionCosineMatrix::from(q))
     }
 }
 
@@ -77,10 +50,14 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
     fn from(dcm: &DirectionCosineMatrix<T, From, To>) -> Self {
         let m = &dcm.as_matrix().data;
 
-        // ZYX convention (yaw-pitch-roll), passive From -> To
-        let yaw   = m[0][1].atan2(m[0][0]);
-        let pitch = -(m[0][2]).asin();
-        let roll  = m[1][2].atan2(m[2][2]);
+        // ZYX convention (yaw-pitch-roll), passive From -> To.
+        // Pitch from both legs of its triangle (no domain error, full accuracy near
+        // +-90 deg); roll relative to the extracted yaw, so that the triple still
+        // reproduces the rotation in gimbal lock, where yaw alone is arbitrary.
+        let yaw = m[0][1].atan2(m[0][0]);
+        let pitch = (-m[0][2]).atan2((m[0][0] * m[0][0] + m[0][1] * m[0][1]).sqrt());
+        let (sy, cy) = (yaw.sin(), yaw.cos());
+        let roll = (sy * m[2][0] - cy * m[2][1]).atan2(cy * m[1][1] - sy * m[1][0]);
 
         Self::new(roll, pitch, yaw)
     }
-- 
2.43.0


From 4091794c1bc35dcb4fa5198a292d74fd8ea40c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:52 +0000
Subject: [PATCH 06/56] fix: spherical inclination lost half its digits near
 the z-axis

acos(z / rho) is ill-conditioned there: a point 1e-9 rad off the pole came back
on the pole, so Cartesian -> spherical -> Cartesian moved it.
---
 crates/aether_core/src/coordinate/spherical.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/coordinate/spherical.rs b/crates/aether_core/src/coordinate/spherical.rs
index 2c080f9..d5a3b3b 100644
--- a/crates/aether_core/src/coordinate/spherical.rs
+++ b/crates/aether_core/src/coordinate/spherical.rs
@@ -40,7 +40,8 @@ impl<T: Real, RF: ReferenceFrame> From<&Cartesian<T, RF>> for Spherical<T> {
         let phi = if rho == T::ZERO {
             T::ZERO
         } else {
-            (z / rho).acos()
+            // atan2 rather than acos(z / rho), which loses half the digits near the z-axis
+            (x * x + y * y).sqrt().atan2(z)
         }; // inclination from z-axis
         Spherical::new(rho, theta, phi)
     }
@@ -54,7 +55,7 @@ impl<T: Real> From<&Cylindrical<T>> for Spherical<T> {
 
         let rho = (r_cyl * r_cyl + z * z).sqrt(); // spherical radius
         let phi = if rho != T::ZERO {
-            (z / rho).acos() // inclination from z-axis
+            r_cyl.abs().atan2(z) // inclination from z-axis
         } else {
             T::ZERO
         };
-- 
2.43.0


From 2cc12b20aca32fd528518410250b82ab33af7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 07/56] fix: missing square root in the Ferrari geodetic
 inverse

s = cbrt(1 + c + sqrt(c^2 + 2c)); without the root, heights were off by up to
a metre at mid latitudes and disagreed with the iterative inverse.
---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From 7bfbb9b5e64519ff33a029a33d02efb5fcbecbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 08/56] fix: squares of sines and missing roots in the normal
 gravity model

sin().sin() was written for sin^2, the Somigliana denominator lacked its square
root, and g_beta divided by u^2+E^2 instead of its root. The vector is now the
gradient of the normal potential and has the surface formula's length.
---
 .../src/terrestrial/wgs84/gravity/mod.rs             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..c006b1f 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    return g_e * (1.0 + k * latitude.sin().powf(2.0)) / (1.0 - e2 * latitude.sin().powf(2.0)).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
@@ -31,7 +31,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * beta.sin().powf(2.0)) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -47,15 +47,15 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
     // let t1 = -1.0 / ellip_w;
     // let t2 = (GM/(u.powf(2.0)+E.powf(2.0)));
     // let t3 = (w.powf(2.0)*a.powf(2.0)*E)/(u.powf(2.0)+E.powf(2.0));
-    // let t4 = (qprime/q_0)*(0.5 * beta.sin().sin()-1.0/6.0);
+    // let t4 = (qprime/q_0)*(0.5 * beta.sin().powf(2.0)-1.0/6.0);
 
     let g_u = -1.0 / ellip_w
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powf(2.0) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powf(2.0);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From 090f9904a949a0dcf6fb40779f74029b4ee9d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 09/56] fix: USSA standard gravity typo and missing root in the
 speed of sound

g_0 is 9.80665 m/s^2, and the speed of sound is sqrt(gamma R T / M).
---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..a7ebcd7 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
@@ -168,7 +168,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .expect("Could not determine temperature.");
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((Self::gamma * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From 4c59841ecc0d47565c3870d2f1d9f6d071762188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 10/56] fix: USSA queries above 1000 km panicked instead of
 returning the error

get_base_index read one row past its table, and the callers unwrapped it.
---
 .../src/terrestrial/atmospheres/ussa.rs              | 12 +++++++-----
 crates/aether_models/src/terrestrial/earth.rs        |  8 ++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index a7ebcd7..f75850f 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -47,7 +47,7 @@ impl USSA {
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
         let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        while i + 1 < Self::base_geometric_heights.len() {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
             } else {
@@ -84,7 +84,7 @@ impl USSA {
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
         let base_index = self
             .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+            .map_err(|_| Constraint::NoGradient)?;
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -158,7 +158,9 @@ impl USSA {
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -167,14 +169,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         return Ok((Self::gamma * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..8516c7a 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -123,25 +123,25 @@ impl Earth {
         return Ok(self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.")?);
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .pressure(geometric_height)
-            .expect("Could not get pressure."));
+            .map_err(|_| "Could not get pressure.")?);
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .density(geometric_height)
-            .expect("Could not get density."));
+            .map_err(|_| "Could not get density.")?);
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         return Ok(self
             .atmosphere
             .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+            .map_err(|_| "Could not get speed of sound.")?);
     }
 }
 
-- 
2.43.0


From 7d45f3d7fc74afa3c46fa2062330d3dfaeeeb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 11/56] fix: USSA temperature above 91 km

The 91-110 km arc is T_c + A sqrt(1 - (dz/a)^2) (exp was written for sqrt), the
110-120 km layer rises 12 K/km (the gradient lacked its milli) and the
exponential approach to 1000 K starts at 120 km and 360 K.
---
 .../src/terrestrial/atmospheres/ussa.rs          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index f75850f..28e6fb9 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -36,7 +36,7 @@ impl USSA {
         9.708e-8, 2.222e-8, 5.215e-13, 3.561e-15,
     ];
     const base_lapse_rates: [f64; 12] = [
-        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0, 12.0, 0.0,
+        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0e-3, 12.0, 0.0,
     ];
     const dynamic_viscosity_nist_B: f64 = 110.4; // Sutherland constant in the USSA model - documented wrong in the atmosphere document (NASA wrong, never) but in here it is 110.4 -> (https://doi.org/10.6028/NBS.CIRC.564)
     const dynamic_viscosity_nist_A: f64 = 145.8 * 1e-7; // is a constant in the expression for dynamic viscosity in the USSA model -> (https://doi.org/10.6028/NBS.CIRC.564)
@@ -100,20 +100,24 @@ impl USSA {
                     let A = -76.3232;
                     let a = -19942.9;
                     let temperature = t_c
-                        + A * ((1.0
+                        + A * (1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt();
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + Self::base_lapse_rates[gradient_index]
+                            * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 } else {
                     return Ok(0.0);
-- 
2.43.0


From 7eba1b5dbf4e840b62f50d707ada555517fa0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:59 +0000
Subject: [PATCH 12/56] fix: USSA layers below 86 km are linear in geopotential
 height

The gradients and barometric exponents of the standard are per geopotential
metre, but were applied to geometric metres: pressure was up to 6 % low at the
top of a layer and jumped up when crossing into the next one.
---
 .../src/terrestrial/atmospheres/ussa.rs          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 28e6fb9..e9f2f4a 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -65,6 +65,18 @@ impl USSA {
         }
     }
 
+    /// Height above the base of the layer. Below 86 km the gradients and the barometric
+    /// formulas of the standard are per metre of geopotential height.
+    fn height_above_base(&self, base_index: usize, geometric_height: f64) -> f64 {
+        let base_height = Self::base_geometric_heights[base_index];
+        if geometric_height < 86000.0 {
+            Self::r_0 * geometric_height / (Self::r_0 + geometric_height)
+                - Self::r_0 * base_height / (Self::r_0 + base_height)
+        } else {
+            geometric_height - base_height
+        }
+    }
+
     fn base_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let base_index = self.get_base_index(geometric_height)?;
         return Ok(Self::base_geometric_temperatures[base_index]);
@@ -91,7 +103,7 @@ impl USSA {
                 if geometric_height < 86000.0 {
                     return Ok(Self::base_geometric_temperatures[base_index]
                         + Self::base_lapse_rates[gradient_index]
-                            * (geometric_height - Self::base_geometric_heights[base_index]));
+                            * self.height_above_base(base_index, geometric_height));
                 } else if geometric_height < 91000.0 {
                     let temperature = Self::base_geometric_temperatures[base_index];
                     return Ok(temperature);
@@ -151,7 +163,7 @@ impl USSA {
                     let pressure = base_pressure
                         * ((-Self::g_0
                             * Self::air_molar_mass
-                            * (geometric_height - Self::base_geometric_heights[base_index]))
+                            * self.height_above_base(base_index, geometric_height))
                             / (Self::R_Star * temperature))
                             .exp();
                     return Ok(pressure);
-- 
2.43.0


From 8fe0100fc7277dc6d3675cdc2aa6e41b4ba33e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:27 +0000
Subject: [PATCH 13/56] fix: WMM evaluation lost its digits next to the poles

---
 crates/aether_catalogs/src/wmm/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_catalogs/src/wmm/mod.rs b/crates/aether_catalogs/src/wmm/mod.rs
index 6eab05a..07a8c57 100644
--- a/crates/aether_catalogs/src/wmm/mod.rs
+++ b/crates/aether_catalogs/src/wmm/mod.rs
@@ -371,7 +371,7 @@ fn geodetic_to_geocentric(point: GeodeticPoint) -> GeocentricPoint {
 	let p = (prime_vertical_radius + point.height_m) * cos_lat;
 	let z = (prime_vertical_radius * (1.0 - eccentricity_sq) + point.height_m) * sin_lat;
 	let radius_m = (p * p + z * z).sqrt();
-	let latitude_rad = (z / radius_m).asin();
+	let latitude_rad = z.atan2(p);
 
 	GeocentricPoint {
 		radius_m,
@@ -425,7 +425,7 @@ fn schmidt_semi_normalized_legendre(
 			} else {
 				((degree as f64) * sin_lat * p[degree][order]
 					- ((degree + order) as f64) * previous)
-					/ (sin_lat * sin_lat - 1.0)
+					/ -(cos_lat * cos_lat)
 			};
 
 			dp_bar_dphi[degree][order] = schmidt * cos_lat * derivative_wrt_x;
-- 
2.43.0


From b2a3b3a3a2092b2ff752416079ba604e7b3dd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:16 +0000
Subject: [PATCH 14/56] fix: Matrix deserialisation leaked the elements read
 before an error

---
 crates/aether_core/src/math/matrix.rs | 38 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index 4294943..6f26f2a 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1348,29 +1348,36 @@ where
                         let mut inited = 0usize;
 
                         for i in 0..N {
-                            match seq.next_element()? {
-                                Some(v) => {
+                            match seq.next_element() {
+                                Ok(Some(v)) => {
                                     unsafe { row_ptr.add(i).write(v) };
                                     inited += 1;
                                 }
-                                None => {
+                                other => {
                                     unsafe {
                                         for j in 0..inited {
                                             ptr::drop_in_place(row_ptr.add(j));
                                         }
                                     }
-                                    return Err(serde::de::Error::invalid_length(i, &self));
+                                    return Err(match other {
+                                        Err(e) => e,
+                                        Ok(_) => serde::de::Error::invalid_length(i, &self),
+                                    });
                                 }
                             }
                         }
 
-                        if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                        let extra = seq.next_element::<serde::de::IgnoredAny>();
+                        if !matches!(extra, Ok(None)) {
                             unsafe {
                                 for j in 0..inited {
                                     ptr::drop_in_place(row_ptr.add(j));
                                 }
                             }
-                            return Err(serde::de::Error::invalid_length(N + 1, &self));
+                            return Err(match extra {
+                                Err(e) => e,
+                                Ok(_) => serde::de::Error::invalid_length(N + 1, &self),
+                            });
                         }
 
                         Ok(unsafe { row.assume_init() })
@@ -1403,29 +1410,36 @@ where
                 let mut inited = 0usize;
 
                 for i in 0..M {
-                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
-                        Some(row) => {
+                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData)) {
+                        Ok(Some(row)) => {
                             unsafe { out_ptr.add(i).write(row) };
                             inited += 1;
                         }
-                        None => {
+                        other => {
                             unsafe {
                                 for j in 0..inited {
                                     ptr::drop_in_place(out_ptr.add(j));
                                 }
                             }
-                            return Err(serde::de::Error::invalid_length(i, &self));
+                            return Err(match other {
+                                Err(e) => e,
+                                Ok(_) => serde::de::Error::invalid_length(i, &self),
+                            });
                         }
                     }
                 }
 
-                if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                let extra = seq.next_element::<serde::de::IgnoredAny>();
+                if !matches!(extra, Ok(None)) {
                     unsafe {
                         for j in 0..inited {
                             ptr::drop_in_place(out_ptr.add(j));
                         }
                     }
-                    return Err(serde::de::Error::invalid_length(M + 1, &self));
+                    return Err(match extra {
+                        Err(e) => e,
+                        Ok(_) => serde::de::Error::invalid_length(M + 1, &self),
+                    });
                 }
 
                 Ok(Matrix { data: unsafe { out.assume_init() } })
-- 
2.43.0


From 7dda6b0b5113871f6b32a23cf1dd6af81d85d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:16 +0000
Subject: [PATCH 15/56] fix: collecting the wrong number of elements into a
 Vector leaked them

---
 crates/aether_core/src/math/vector.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/crates/aether_core/src/math/vector.rs b/crates/aether_core/src/math/vector.rs
index f20487d..1a2f1be 100644
--- a/crates/aether_core/src/math/vector.rs
+++ b/crates/aether_core/src/math/vector.rs
@@ -651,21 +651,13 @@ impl<'a, T, const N: usize> IntoIterator for &'a mut Vector<T, N> {
 impl<T, const N: usize> FromIterator<T> for Vector<T, N> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut it = iter.into_iter();
-        let mut data: core::mem::MaybeUninit<[T; N]> = core::mem::MaybeUninit::uninit();
-        let ptr = unsafe { &mut *data.as_mut_ptr() } as *mut [T; N] as *mut T;
-
-        for i in 0..N {
-            unsafe {
-                ptr.add(i)
-                    .write(it.next().expect("FromIterator: not enough elements"));
-            }
-        }
+        // from_fn drops the elements already taken if the iterator ends early or panics
+        let data: [T; N] =
+            core::array::from_fn(|_| it.next().expect("FromIterator: not enough elements"));
         if it.next().is_some() {
             panic!("FromIterator: too many elements");
         }
-        Vector {
-            data: unsafe { data.assume_init() },
-        }
+        Vector { data }
     }
 }
 
-- 
2.43.0


From eb41cf3e2ef9deb81b54bac74b6554f7e61497dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 16/56] fix: durations from negative nanoseconds are normalised

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 8d38e086cdb3d6c9b6ca29c50bce2297f641078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 17/56] fix: GPS week and second of week before the epoch and
 near week zero

---
 crates/aether_time/src/time/gps.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..3a197df 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -15,8 +15,8 @@ pub struct GpsWeekTime {
 impl Time<GPS> {
     pub fn to_gps_week(self, current_full_week_hint: u32) -> GpsWeekTime {
         let total = self.sec;
-        let raw_week = ((total / GPS_WEEK_SECONDS) % GPS_WEEK_MODULUS as i64) as u16;
-        let sow = total % GPS_WEEK_SECONDS;
+        let raw_week = total.div_euclid(GPS_WEEK_SECONDS).rem_euclid(GPS_WEEK_MODULUS as i64) as u16;
+        let sow = total.rem_euclid(GPS_WEEK_SECONDS);
 
         // Compute the nearest rollover-corrected week
         let raw = raw_week as i64;
@@ -27,7 +27,9 @@ impl Time<GPS> {
         let mut full = base + raw;
         if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {
             full += GPS_WEEK_MODULUS as i64;
-        } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
+        } else if full >= GPS_WEEK_MODULUS as i64
+            && (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs()
+        {
             full -= GPS_WEEK_MODULUS as i64;
         }
 
-- 
2.43.0


From bd980e8df922715b81b598f51e822509b87a98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 18/56] fix: GPS to TAI does not read the leap-second count
 twice

---
 crates/aether_time/src/time/time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/time.rs b/crates/aether_time/src/time/time.rs
index b511ae3..16003e4 100644
--- a/crates/aether_time/src/time/time.rs
+++ b/crates/aether_time/src/time/time.rs
@@ -152,13 +152,14 @@ impl Time<GPS> {
 
 impl Time<GPS> {
     pub fn to_tai(self) -> Time<TAI> {
-        self.to_utc().to_tai()
+        // TAI - GPS is fixed at 19 s, whatever the leap-second count
+        Time::<TAI>::new(self.sec + UNIX_GPS_EPOCH + 19, self.nano_sec)
     }
 }
 
 impl Time<TAI> {
     pub fn to_gps(self) -> Time<GPS> {
-        self.to_utc().to_gps()
+        Time::<GPS>::new(self.sec - UNIX_GPS_EPOCH - 19, self.nano_sec)
     }
 }
 
-- 
2.43.0


From 8cb34540c363918a3d9cf0f0d7bb59764dbbbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 19/56] fix: civil date conversions before 1970 and before year
 zero

---
 crates/aether_time/src/time/schedule.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..80f6dc0 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -245,12 +245,12 @@ impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +271,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From 5b1f4ccf9921e9f9f64337653970269757455fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 20/56] fix: hourly and daily schedules before 1970

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 80f6dc0..1411d86 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From bea971acf179b1d4450a2b6615f0dfec435502a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 21/56] fix: a one-shot schedule fires once

---
 crates/aether_time/src/time/schedule.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 1411d86..b330808 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -212,9 +212,8 @@ impl UtcSchedule {
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // Never fire again.
+                self.next_fire = Time::<UTC>::new(i64::MAX, 999_999_999);
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From 4e796e901ed97cf9095bb2303b7c6561dbc628f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 22/56] fix: interval schedules and timers catch up without
 looping

---
 crates/aether_time/src/time/duration.rs | 13 +++++++++++++
 crates/aether_time/src/time/mission.rs  | 12 ++++++++----
 crates/aether_time/src/time/schedule.rs | 10 +++++++---
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 1209d99..cb7d498 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -26,6 +26,19 @@ impl Duration {
         self
     }
 
+    /// Total length in nanoseconds.
+    pub(crate) const fn total_nanos(self) -> i128 {
+        self.sec as i128 * 1_000_000_000 + self.nano_sec as i128
+    }
+
+    /// Normalized duration of `total` nanoseconds.
+    pub(crate) const fn from_total_nanos(total: i128) -> Self {
+        Self {
+            sec: total.div_euclid(1_000_000_000) as i64,
+            nano_sec: total.rem_euclid(1_000_000_000) as i32,
+        }
+    }
+
     pub const fn zero() -> Self {
         Duration { sec: 0, nano_sec: 0 }
     }
diff --git a/crates/aether_time/src/time/mission.rs b/crates/aether_time/src/time/mission.rs
index 8bc2168..dc08f51 100644
--- a/crates/aether_time/src/time/mission.rs
+++ b/crates/aether_time/src/time/mission.rs
@@ -138,10 +138,14 @@ impl TimerEvent {
         
         self.acc = self.acc + dt;
         if self.acc >= self.period {
-            // preserve overshoot – wrap but keep remainder
-            while self.acc >= self.period {
-                self.acc = self.acc - self.period;
-            }
+            // preserve overshoot – wrap but keep remainder.
+            // A period that is not positive fires on every step.
+            let period = self.period.total_nanos();
+            self.acc = if period > 0 {
+                Duration::from_total_nanos(self.acc.total_nanos() % period)
+            } else {
+                Duration::zero()
+            };
             true
         } else {
             false
diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b330808..26bb451 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -216,9 +216,13 @@ impl UtcSchedule {
                 self.next_fire = Time::<UTC>::new(i64::MAX, 999_999_999);
             }
             Recurrence::Interval(period) => {
-                // Catch up if we missed multiple ticks.
-                while self.next_fire <= now {
-                    self.next_fire = self.next_fire + period;
+                // Catch up if we missed multiple ticks, keeping the phase.
+                // A period that is not positive is due at every check.
+                let period = period.total_nanos();
+                if period > 0 {
+                    let late = (now - self.next_fire).total_nanos();
+                    let step = (late / period + 1) * period;
+                    self.next_fire = self.next_fire + Duration::from_total_nanos(step);
                 }
             }
             Recurrence::Hourly { minute, second } => {
-- 
2.43.0


From 70d5fdf9fb5a1bd69738f0d58b13092797d4fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 23/56] fix: single-precision random draws stay below one

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..081c08b 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,13 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let v = T::from_f64(unit);
+        // rounding to a narrower type may reach one: stay in [0, 1)
+        if v < T::ONE {
+            v
+        } else {
+            T::ONE - T::EPSILON / (T::ONE + T::ONE)
+        }
     }
 
     #[inline]
-- 
2.43.0


From 8cac1b8fd860a13e073e7338c51004033133f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 24/56] fix: optimisers start from the projected point

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 1 +
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 1 +
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..658a610 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -175,6 +175,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
         // Momentum state (v = x_k - x_{k-1}); initial 0
         let mut v = Vector::new([F::ZERO; N]);
 
+        x = self.project(x);
         let mut fx = f(&x);
         let mut converged = false;
 
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 245fab8..42bb1d2 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -187,6 +187,7 @@ impl<const N: usize> GDStochastic<N> {
     {
         let mut v = Vector::new([0.0; N]);
         let mut ema_g = 0.0;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..93b7aad 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -230,6 +230,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
 
         let mut v = Vector::new([F::ZERO; N]); // momentum buffer (Δx)
         let mut ema_g = F::ZERO;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
-- 
2.43.0


From 356720aee2faae95c9d7629b26acc15c485a6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 25/56] fix: failed line search keeps the point and always ends

---
 crates/aether_opt/src/gradient_descent/basic.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 658a610..c2dfe61 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -71,7 +71,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
     }
     pub fn armijo(&mut self, c1: F, tau: F) -> &mut Self {
         self.armijo_c1 = c1;
-        self.backtrack_tau = if tau <= F::ZERO {
+        self.backtrack_tau = if !(tau > F::ZERO) {
             F::from_f64(0.5_f64)
         } else if tau >= F::ONE {
             F::from_f64(0.9_f64)
@@ -229,10 +229,8 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                     }
 
                     step = step * self.backtrack_tau;
-                    if step <= F::from_f64(1e-20_f64) {
-                        // give up this iteration; behave like tiny step
-                        x = trial;
-                        fx = f_trial;
+                    if !(step > F::from_f64(1e-20_f64) && step < F::INFINITY) {
+                        // give up this iteration: no acceptable step, stay at x_old
                         break;
                     }
                 }
-- 
2.43.0


From 2043ea6c9467135de31db4363de0babe1bc8b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 26/56] fix: line search at active bounds uses the projected
 displacement

---
 crates/aether_opt/src/gradient_descent/basic.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index c2dfe61..3324843 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -220,7 +220,17 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                     }
                     trial = self.project(trial);
                     let f_trial = f(&trial);
-                    let rhs = fx_old + self.armijo_c1 * step * gd;
+                    // Predicted decrease: along the projected displacement when bounded
+                    let slope = if self.has_bounds {
+                        let mut s = F::ZERO;
+                        for i in 0..N {
+                            s = s + grad[i] * (trial[i] - x_old[i]);
+                        }
+                        s.min(F::ZERO)
+                    } else {
+                        step * gd
+                    };
+                    let rhs = fx_old + self.armijo_c1 * slope;
 
                     if f_trial <= rhs {
                         x = trial;
-- 
2.43.0


From 9468825d032199d0923b3e82bc528055760eaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 27/56] fix: optimiser momentum is mu times the previous step,
 as documented

---
 crates/aether_opt/src/gradient_descent/basic.rs           | 8 ++++++--
 crates/aether_opt/src/gradient_descent/stochastic.rs      | 2 +-
 .../src/gradient_descent/stochastic_parallel.rs           | 3 +--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 3324843..2974239 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -188,10 +188,14 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
             }
 
             // Search direction: steepest descent with momentum
-            // d = -grad + μ * v
+            // d = -grad + μ/α * v, so that a full step α gives -α grad + μ v
+            let use_momentum = self.momentum > F::ZERO && self.lr > F::ZERO;
             let mut d = Vector::new([F::ZERO; N]);
             for i in 0..N {
-                d[i] = -grad[i] + self.momentum * v[i];
+                d[i] = -grad[i];
+                if use_momentum {
+                    d[i] = d[i] + self.momentum * v[i] / self.lr;
+                }
             }
 
             let mut step = self.lr;
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 42bb1d2..4578c09 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -227,7 +227,7 @@ impl<const N: usize> GDStochastic<N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
             for i in 0..N {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 93b7aad..6a5507e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -308,8 +308,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                let d_i = -g[i] + self.momentum * v[i];
-                x_next[i] = x[i] + alpha * d_i;
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
 
-- 
2.43.0


From 3b4ebad7adc75df4e60604ddb30c0a0b780accd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 28/56] fix: the objective tolerance 0 disables that stop, as
 in the parallel optimiser

---
 crates/aether_opt/src/gradient_descent/stochastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 4578c09..8c88391 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -218,7 +218,7 @@ impl<const N: usize> GDStochastic<N> {
             };
 
             if k >= self.min_iters {
-                if ema_hat <= self.tol_grad_ema || fx <= self.tol_f {
+                if ema_hat <= self.tol_grad_ema || (self.tol_f > 0.0 && fx <= self.tol_f) {
                     return (x, fx, k, true);
                 }
             }
-- 
2.43.0


From 36cf4a60bdf8c2b8f5a87b6369ac7cd57a66df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 29/56] fix: seed 0 does not repeat the first worker stream in
 the next iteration

---
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 6a5507e..e59e2b2 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -197,7 +197,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
     // Deterministic per-thread seed for iteration k and thread t
     #[inline]
     fn thread_seed(base: u64, iter: u32, t: usize) -> u64 {
-        base ^ ((iter as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15))
+        base ^ ((iter as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15))
             ^ ((t as u64).wrapping_mul(0xBF58_476D_1CE4_E5B9))
     }
 
-- 
2.43.0


From 1c23cdc8dcd30b8ff877cecc35c2fb0b9ff763f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 30/56] fix: inverse_lerp treats only an empty range as
 degenerate

---
 crates/aether_interp/src/lerp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/lerp.rs b/crates/aether_interp/src/lerp.rs
index 43ea7a8..ce28f8c 100644
--- a/crates/aether_interp/src/lerp.rs
+++ b/crates/aether_interp/src/lerp.rs
@@ -16,7 +16,7 @@ where
 #[inline]
 pub fn inverse_lerp(a: f64, b: f64, value: f64) -> f64 {
     let denom = b - a;
-    if denom.abs() <= f64::EPSILON {
+    if denom == 0.0 {
         0.0
     } else {
         (value - a) / denom
-- 
2.43.0


From e75000f281973775c6ae021a820ada7eada289f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 31/56] fix: polynomial nodes are compared exactly

---
 crates/aether_interp/src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_interp/src/polynomial.rs b/crates/aether_interp/src/polynomial.rs
index 721273b..c00240e 100644
--- a/crates/aether_interp/src/polynomial.rs
+++ b/crates/aether_interp/src/polynomial.rs
@@ -22,7 +22,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
                     continue;
                 }
                 let diff = xs[j] - xs[k];
-                if diff.abs() <= f64::EPSILON {
+                if !(diff.abs() > 0.0) {
                     return Err("x samples must be unique");
                 }
                 weights[j] /= diff;
@@ -35,7 +35,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
     /// Evaluates the interpolating polynomial at `x`.
     pub fn evaluate(&self, x: f64) -> f64 {
         for i in 0..N {
-            if (x - self.xs[i]).abs() <= f64::EPSILON {
+            if x == self.xs[i] {
                 return self.ys[i];
             }
         }
-- 
2.43.0


From 450773160e6c260c59a76e3ffd0da77149ccaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:07 +0000
Subject: [PATCH 32/56] fix: the spline refuses NaN knots

---
 crates/aether_interp/src/spline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/spline.rs b/crates/aether_interp/src/spline.rs
index c9242ce..22623c7 100644
--- a/crates/aether_interp/src/spline.rs
+++ b/crates/aether_interp/src/spline.rs
@@ -15,7 +15,7 @@ impl<const N: usize> CubicSpline<N> {
             return Err("at least two samples are required");
         }
         for i in 0..N - 1 {
-            if xs[i + 1] <= xs[i] {
+            if !(xs[i + 1] > xs[i]) {
                 return Err("x samples must be strictly increasing");
             }
         }
-- 
2.43.0


From eff7b84776a3e69f7119511f13ebe997848061cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 33/56] fix: logistic regression minimises the cross-entropy it
 documents

---
 crates/aether_ml/src/regression/logistic.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..2989236 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,8 +94,6 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
-
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
             for (x, &yi) in x_data.iter().zip(y.iter()) {
@@ -103,10 +101,13 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
                 for i in 0..N {
                     s = s + pv[i] * x[i];
                 }
-                let p = F::ONE / (F::ONE + (-s).exp());
-                let yv: F = if yi == 0 { F::ZERO } else { F::ONE };
-                // binary cross-entropy: -(y ln p + (1-y) ln (1-p))
-                loss = loss - (yv * (p + tiny).ln() + (F::ONE - yv) * (F::ONE - p + tiny).ln());
+                // binary cross-entropy: -(y ln p + (1-y) ln (1-p)) = ln(1 + exp(-z)),
+                // z = s for y = 1 and -s for y = 0, without overflow for large |z|
+                let z: F = if yi == 0 { -s } else { s };
+                loss = loss + (F::ONE + (-z.abs()).exp()).ln();
+                if z < F::ZERO {
+                    loss = loss - z;
+                }
             }
             loss / m
         };
-- 
2.43.0


From a3bca7f214a6480cc4f19d14e454dc9fded97a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 34/56] fix: composite inertia is formed about the combined
 centre of mass

---
 crates/aether_shapes/src/attributes.rs | 32 ++++++++------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/crates/aether_shapes/src/attributes.rs b/crates/aether_shapes/src/attributes.rs
index 8083379..b2f6419 100644
--- a/crates/aether_shapes/src/attributes.rs
+++ b/crates/aether_shapes/src/attributes.rs
@@ -63,11 +63,8 @@ impl<T: Real, SO: Solid<T>, SI: Solid<T>> Sub<MassModel<T, SI>> for MassModel<T,
         let Io_cm = Ro * Io_prin * Ro.transpose();
         let Ii_cm = Ri * Ii_prin * Ri.transpose();
 
-        // Shift each tensor from its CM to the Assembly origin
         let r_o = self.pose.r_cm_in_assembly.data; // Vector<T,3>
         let r_i = inner.pose.r_cm_in_assembly.data; // Vector<T,3>
-        let Io_O = parallel_axis(Io_cm, m_o, r_o);
-        let Ii_O = parallel_axis(Ii_cm, m_i, r_i);
 
         // Net scalars
         let mass = m_o - m_i;
@@ -80,9 +77,9 @@ impl<T: Real, SO: Solid<T>, SI: Solid<T>> Sub<MassModel<T, SI>> for MassModel<T,
         // Combined COM (Assembly)
         let com = (r_o * m_o - r_i * m_i) / mass;
 
-        // Inertia about Assembly origin -> shift back to combined CM
-        let I_O = Io_O - Ii_O;
-        let I_cm = I_O - parallel_axis(Matrix::<T, 3, 3>::zeros(), mass, com);
+        // Shift each tensor from its CM to the combined CM
+        let I_cm = parallel_axis(Io_cm, m_o, r_o - com)
+            - parallel_axis(Ii_cm, m_i, r_i - com);
 
         Some(MassProps {
             volume,
@@ -116,11 +113,8 @@ impl<T: Real, SO: Solid<T>, SI: Solid<T>> Add<MassModel<T, SI>> for MassModel<T,
         let Ia_cm = Ra * Ia_prin * Ra.transpose();
         let Ib_cm = Rb * Ib_prin * Rb.transpose();
 
-        // Shift each tensor from its CM to the Assembly origin
         let r_a = self.pose.r_cm_in_assembly.data; // Vector<T,3>
         let r_b = other.pose.r_cm_in_assembly.data; // Vector<T,3>
-        let Ia_O = parallel_axis(Ia_cm, m_a, r_a);
-        let Ib_O = parallel_axis(Ib_cm, m_b, r_b);
 
         // Net scalars
         let mass = m_a + m_b;
@@ -133,9 +127,9 @@ impl<T: Real, SO: Solid<T>, SI: Solid<T>> Add<MassModel<T, SI>> for MassModel<T,
         // Combined COM (Assembly)
         let com = (r_a * m_a + r_b * m_b) / mass;
 
-        // Inertia about Assembly origin -> shift back to combined CM
-        let I_O = Ia_O + Ib_O;
-        let I_cm = I_O - parallel_axis(Matrix::<T, 3, 3>::zeros(), mass, com);
+        // Shift each tensor from its CM to the combined CM
+        let I_cm = parallel_axis(Ia_cm, m_a, r_a - com)
+            + parallel_axis(Ib_cm, m_b, r_b - com);
 
         Some(MassProps {
             volume,
@@ -208,9 +202,6 @@ impl<F: Real, S: Solid<F>> SolidOps<F> for S {
         let Io_cm = R_o * Io_prin * R_o.transpose();
         let Ii_cm = R_i * Ii_prin * R_i.transpose();
 
-        let Io_O = parallel_axis(Io_cm, m_o, r_o);
-        let Ii_O = parallel_axis(Ii_cm, m_i, r_i);
-
         let mass = m_o - m_i;
         let volume = v_o - v_i;
         if mass <= F::ZERO || volume <= F::ZERO {
@@ -220,8 +211,8 @@ impl<F: Real, S: Solid<F>> SolidOps<F> for S {
 
         let com = (r_o * m_o - r_i * m_i) / mass;
 
-        let I_O = Io_O - Ii_O;
-        let I_cm = I_O - parallel_axis(Matrix::<F, 3, 3>::zeros(), mass, com);
+        let I_cm = parallel_axis(Io_cm, m_o, r_o - com)
+            - parallel_axis(Ii_cm, m_i, r_i - com);
 
         Some(MassProps {
             volume,
@@ -256,9 +247,6 @@ impl<F: Real, S: Solid<F>> SolidOps<F> for S {
         let Ia_cm = R_self * Ia_prin * R_self.transpose();
         let Ib_cm = R_other * Ib_prin * R_other.transpose();
 
-        let Ia_O = parallel_axis(Ia_cm, m_a, r_self);
-        let Ib_O = parallel_axis(Ib_cm, m_b, r_other);
-
         let mass = m_a + m_b;
         let volume = v_a + v_b;
         if mass <= F::ZERO || volume <= F::ZERO {
@@ -268,8 +256,8 @@ impl<F: Real, S: Solid<F>> SolidOps<F> for S {
 
         let com = (r_self * m_a + r_other * m_b) / mass;
 
-        let I_O = Ia_O + Ib_O;
-        let I_cm = I_O - parallel_axis(Matrix::<F, 3, 3>::zeros(), mass, com);
+        let I_cm = parallel_axis(Ia_cm, m_a, r_self - com)
+            + parallel_axis(Ib_cm, m_b, r_other - com);
 
         Some(MassProps {
             volume,
-- 
2.43.0


From 4bca9eb7328791d4e1cf8be919af67d4615a4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 35/56] fix: prefix factors carry double precision

---
 crates/aether_units/src/si/si_prefix.rs | 124 ++++++++++++------------
 1 file changed, 62 insertions(+), 62 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..51f9ad9 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -31,11 +31,11 @@ macro_rules! si_prefixed_unit {
         #[derive(Copy, Clone, Debug, PartialEq, Eq)]
         pub enum $PrefixUnit {}
 
-        // Base -> Prefixed
+        // Base -> Prefixed (factor as f64: exact to the precision of T)
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +44,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -72,28 +72,28 @@ si_prefixed_family! {
     to_base = to_meter;
 
     // tiny
-    (Yoctometer,  YOCTO, to_yoctometer),
-    (Zeptometer,  ZEPTO, to_zeptometer),
-    (Attometer,   ATTO,  to_attometer),
-    (Femtometer,  FEMTO, to_femtometer),
-    (Picometer,   PICO,  to_picometer),
-    (Nanometer,   NANO,  to_nanometer),
-    (Micrometer,  MICRO, to_micrometer),
-    (Millimeter,  MILLI, to_millimeter),
-    (Centimeter,  CENTI, to_centimeter),
-    (Decimeter,   DECI,  to_decimeter),
+    (Yoctometer,  1.0e-24, to_yoctometer),
+    (Zeptometer,  1.0e-21, to_zeptometer),
+    (Attometer,   1.0e-18,  to_attometer),
+    (Femtometer,  1.0e-15, to_femtometer),
+    (Picometer,   1.0e-12,  to_picometer),
+    (Nanometer,   1.0e-9,  to_nanometer),
+    (Micrometer,  1.0e-6, to_micrometer),
+    (Millimeter,  1.0e-3, to_millimeter),
+    (Centimeter,  1.0e-2, to_centimeter),
+    (Decimeter,   1.0e-1,  to_decimeter),
 
     // > 1 m
-    (Decameter,   DECA,  to_decameter),
-    (Hectometer,  HECTO, to_hectometer),
-    (Kilometer,   KILO,  to_kilometer),
-    (Megameter,   MEGA,  to_megameter),
-    (Gigameter,   GIGA,  to_gigameter),
-    (Terameter,   TERA,  to_terameter),
-    (Petameter,   PETA,  to_petameter),
-    (Exameter,    EXA,   to_exameter),
-    (Zettameter,  ZETTA, to_zettameter),
-    (Yottameter,  YOTTA, to_yottameter),
+    (Decameter,   1.0e1,  to_decameter),
+    (Hectometer,  1.0e2, to_hectometer),
+    (Kilometer,   1.0e3,  to_kilometer),
+    (Megameter,   1.0e6,  to_megameter),
+    (Gigameter,   1.0e9,  to_gigameter),
+    (Terameter,   1.0e12,  to_terameter),
+    (Petameter,   1.0e15,  to_petameter),
+    (Exameter,    1.0e18,   to_exameter),
+    (Zettameter,  1.0e21, to_zettameter),
+    (Yottameter,  1.0e24, to_yottameter),
 }
 
 // Time (second) – yocto to yotta
@@ -101,27 +101,27 @@ si_prefixed_family! {
     base = Second;
     to_base = to_second;
 
-    (Yoctosecond,  YOCTO, to_yoctosecond),
-    (Zeptosecond,  ZEPTO, to_zeptosecond),
-    (Attosecond,   ATTO,  to_attosecond),
-    (Femtosecond,  FEMTO, to_femtosecond),
-    (Picosecond,   PICO,  to_picosecond),
-    (Nanosecond,   NANO,  to_nanosecond),
-    (Microsecond,  MICRO, to_microsecond),
-    (Millisecond,  MILLI, to_millisecond),
-    (Centisecond,  CENTI, to_centisecond),
-    (Decisecond,   DECI,  to_decisecond),
+    (Yoctosecond,  1.0e-24, to_yoctosecond),
+    (Zeptosecond,  1.0e-21, to_zeptosecond),
+    (Attosecond,   1.0e-18,  to_attosecond),
+    (Femtosecond,  1.0e-15, to_femtosecond),
+    (Picosecond,   1.0e-12,  to_picosecond),
+    (Nanosecond,   1.0e-9,  to_nanosecond),
+    (Microsecond,  1.0e-6, to_microsecond),
+    (Millisecond,  1.0e-3, to_millisecond),
+    (Centisecond,  1.0e-2, to_centisecond),
+    (Decisecond,   1.0e-1,  to_decisecond),
 
-    (Decasecond,   DECA,  to_decasecond),
-    (Hectosecond,  HECTO, to_hectosecond),
-    (Kilosecond,   KILO,  to_kilosecond),
-    (Megasecond,   MEGA,  to_megasecond),
-    (Gigasecond,   GIGA,  to_gigasecond),
-    (Terasecond,   TERA,  to_terasecond),
-    (Petasecond,   PETA,  to_petasecond),
-    (Exasecond,    EXA,   to_exasecond),
-    (Zettasecond,  ZETTA, to_zettasecond),
-    (Yottasecond,  YOTTA, to_yottasecond),
+    (Decasecond,   1.0e1,  to_decasecond),
+    (Hectosecond,  1.0e2, to_hectosecond),
+    (Kilosecond,   1.0e3,  to_kilosecond),
+    (Megasecond,   1.0e6,  to_megasecond),
+    (Gigasecond,   1.0e9,  to_gigasecond),
+    (Terasecond,   1.0e12,  to_terasecond),
+    (Petasecond,   1.0e15,  to_petasecond),
+    (Exasecond,    1.0e18,   to_exasecond),
+    (Zettasecond,  1.0e21, to_zettasecond),
+    (Yottasecond,  1.0e24, to_yottasecond),
 }
 
 // Mass (kilogram) – prefixes conceptually apply to gram, so factor * 1e-3
@@ -129,24 +129,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram,  1.0e-27, to_yoctogram),
+    (Zeptogram,  1.0e-24, to_zeptogram),
+    (Attogram,   1.0e-21, to_attogram),
+    (Femtogram,  1.0e-18, to_femtogram),
+    (Picogram,   1.0e-15, to_picogram),
+    (Nanogram,   1.0e-12, to_nanogram),
+    (Microgram,  1.0e-9, to_microgram),
+    (Milligram,  1.0e-6, to_milligram),
+    (Centigram,  1.0e-5, to_centigram),
+    (Decigram,   1.0e-4, to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram,   1.0e-2, to_decagram),
+    (Hectogram,  1.0e-1, to_hectogram),
+    (Megagram,   1.0e3, to_megagram),
+    (Gigagram,   1.0e6, to_gigagram),
+    (Teragram,   1.0e9, to_teragram),
+    (Petagram,   1.0e12, to_petagram),
+    (Exagram,    1.0e15, to_exagram),
+    (Zettagram,  1.0e18, to_zettagram),
+    (Yottagram,  1.0e21, to_yottagram),
 }
-- 
2.43.0


From eebd68a9c6d44ff708f68b3206b33934865c69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 36/56] fix: the live CSV follower reads bytes and decodes
 complete lines

---
 crates/aether_viz/src/realtime.rs | 37 +++++++++++++------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..0515731 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -80,7 +80,7 @@ pub struct CsvRealtimePlotter {
     y_indices: Vec<usize>,
     x_values: Vec<f64>,
     y_values: Vec<Vec<f64>>,
-    partial_line: String,
+    partial_line: Vec<u8>,
     file_pos: u64,
     last_identity: Option<FileIdentity>,
 }
@@ -95,7 +95,7 @@ impl CsvRealtimePlotter {
             y_indices: Vec::new(),
             x_values: Vec::new(),
             y_values: vec![Vec::new(); y_count],
-            partial_line: String::new(),
+            partial_line: Vec::new(),
             file_pos: 0,
             last_identity: None,
         }
@@ -209,9 +209,9 @@ impl CsvRealtimePlotter {
         }
 
         let mut file = File::open(&self.cfg.csv_path)?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = text.as_bytes().len() as u64;
+        let mut text = Vec::new();
+        file.read_to_end(&mut text)?;
+        self.file_pos = text.len() as u64;
         self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
 
         let _ = self.parse_text_chunk(&text)?;
@@ -221,8 +221,8 @@ impl CsvRealtimePlotter {
     fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
         let mut file = File::open(&self.cfg.csv_path)?;
         file.seek(SeekFrom::Start(start))?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
+        let mut text = Vec::new();
+        file.read_to_end(&mut text)?;
         self.file_pos = file.stream_position()?;
         if text.is_empty() {
             return Ok(false);
@@ -230,24 +230,17 @@ impl CsvRealtimePlotter {
         self.parse_text_chunk(&text)
     }
 
-    fn parse_text_chunk(&mut self, text: &str) -> Result<bool, Box<dyn std::error::Error>> {
+    fn parse_text_chunk(&mut self, text: &[u8]) -> Result<bool, Box<dyn std::error::Error>> {
         let mut changed = false;
-        let mut buf = String::new();
-        if !self.partial_line.is_empty() {
-            buf.push_str(&self.partial_line);
-            self.partial_line.clear();
-        }
-        buf.push_str(text);
+        let mut buf = std::mem::take(&mut self.partial_line);
+        buf.extend_from_slice(text);
 
-        let has_trailing_newline = buf.ends_with('\n');
-        let mut lines: Vec<&str> = buf.lines().collect();
-        if !has_trailing_newline {
-            if let Some(last) = lines.pop() {
-                self.partial_line.push_str(last);
-            }
-        }
+        // Only complete lines are decoded: a poll may end inside a character.
+        let complete = buf.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
+        self.partial_line = buf.split_off(complete);
+        let buf = String::from_utf8_lossy(&buf);
 
-        for raw in lines {
+        for raw in buf.lines() {
             let line = raw.trim();
             if line.is_empty() {
                 continue;
-- 
2.43.0


From 466eb937781df8a799cd6d39d90f5659939a6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 37/56] fix: live CSV columns are resolved all or not at all

---
 crates/aether_viz/src/realtime.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 0515731..fb11a55 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -309,33 +309,34 @@ impl CsvRealtimePlotter {
                 return Ok(());
             }
 
-            self.x_index = Some(
-                self
+            let x_index = self
                 .headers
                 .iter()
                 .position(|h| h == &self.cfg.x_column)
-                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?,
-            );
+                .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?;
 
-            self.y_indices.clear();
+            let mut y_indices = Vec::with_capacity(self.cfg.y_columns.len());
             for y in &self.cfg.y_columns {
                 let yi = self
                     .headers
                     .iter()
                     .position(|h| h == y)
                     .ok_or_else(|| format!("y column '{}' not found", y))?;
-                self.y_indices.push(yi);
+                y_indices.push(yi);
             }
+            self.x_index = Some(x_index);
+            self.y_indices = y_indices;
             return Ok(());
         }
 
-        self.x_index = Some(self.cfg.x_column.parse::<usize>()?);
+        let x_index = self.cfg.x_column.parse::<usize>()?;
         self.y_indices = self
             .cfg
             .y_columns
             .iter()
             .map(|s| s.parse::<usize>())
             .collect::<Result<Vec<_>, _>>()?;
+        self.x_index = Some(x_index);
         Ok(())
     }
 
-- 
2.43.0


From 83845fd3db7d88fe281ebf2c3dcad203d38d77db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 38/56] fix: the live CSV follower identifies the file it reads

---
 crates/aether_viz/src/realtime.rs | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index fb11a55..696d3f2 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -50,8 +50,8 @@ struct FileIdentity {
 }
 
 impl FileIdentity {
-    fn from_path(path: &Path) -> std::io::Result<Self> {
-        let md = std::fs::metadata(path)?;
+    fn from_file(file: &File) -> std::io::Result<Self> {
+        let md = file.metadata()?;
         #[cfg(unix)]
         {
             use std::os::unix::fs::MetadataExt;
@@ -122,11 +122,11 @@ impl CsvRealtimePlotter {
     }
 
     pub fn update_once(&mut self) -> Result<bool, Box<dyn std::error::Error>> {
-        if !self.cfg.csv_path.exists() {
+        let Some(mut file) = open_if_present(&self.cfg.csv_path)? else {
             return Ok(false);
-        }
+        };
 
-        let current_id = FileIdentity::from_path(&self.cfg.csv_path)?;
+        let current_id = FileIdentity::from_file(&file)?;
 
         if self.should_reset_for_new_file(current_id) {
             self.reset_series();
@@ -136,7 +136,7 @@ impl CsvRealtimePlotter {
 
         let mut changed = false;
         if current_id.len > self.file_pos {
-            changed |= self.read_new_bytes(self.file_pos)?;
+            changed |= self.read_new_bytes(&mut file, self.file_pos)?;
         }
 
         self.last_identity = Some(current_id);
@@ -204,22 +204,24 @@ impl CsvRealtimePlotter {
     }
 
     fn reload_from_start(&mut self) -> Result<(), Box<dyn std::error::Error>> {
-        if !self.cfg.csv_path.exists() {
+        let Some(mut file) = open_if_present(&self.cfg.csv_path)? else {
             return Ok(());
-        }
+        };
 
-        let mut file = File::open(&self.cfg.csv_path)?;
         let mut text = Vec::new();
         file.read_to_end(&mut text)?;
         self.file_pos = text.len() as u64;
-        self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
+        self.last_identity = Some(FileIdentity::from_file(&file)?);
 
         let _ = self.parse_text_chunk(&text)?;
         Ok(())
     }
 
-    fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
-        let mut file = File::open(&self.cfg.csv_path)?;
+    fn read_new_bytes(
+        &mut self,
+        file: &mut File,
+        start: u64,
+    ) -> Result<bool, Box<dyn std::error::Error>> {
         file.seek(SeekFrom::Start(start))?;
         let mut text = Vec::new();
         file.read_to_end(&mut text)?;
@@ -404,6 +406,14 @@ impl CsvRealtimePlotter {
     }
 }
 
+fn open_if_present(path: &Path) -> std::io::Result<Option<File>> {
+    match File::open(path) {
+        Ok(file) => Ok(Some(file)),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 fn split_csv_line(line: &str) -> Vec<&str> {
     line.split(',').map(|s| s.trim()).collect()
 }
-- 
2.43.0


From bb62d860d690801e018561f8ef0e19854bcde323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 39/56] fix: re-initialising the live CSV follower starts over

---
 crates/aether_viz/src/realtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 696d3f2..aeaeb2e 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -102,6 +102,7 @@ impl CsvRealtimePlotter {
     }
 
     pub fn initialize(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        self.reset_series();
         self.reload_from_start()
     }
 
-- 
2.43.0


From d0714e97779a4ae25001e50805eed64409319475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 40/56] fix: the live CSV follower remembers the file of a
 failed poll

---
 crates/aether_viz/src/realtime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index aeaeb2e..8796696 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -135,12 +135,13 @@ impl CsvRealtimePlotter {
             return Ok(true);
         }
 
+        self.last_identity = Some(current_id);
+
         let mut changed = false;
         if current_id.len > self.file_pos {
             changed |= self.read_new_bytes(&mut file, self.file_pos)?;
         }
 
-        self.last_identity = Some(current_id);
         Ok(changed)
     }
 
-- 
2.43.0


From 643ad5f3481e1c2c64a02a6aaf59b93688d5870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 41/56] fix: the perspective matrix is row-major like the view
 matrix

---
 crates/aether_graphics/src/graphics/transforms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index bdd3351..f3d7aeb 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -33,13 +33,13 @@ pub fn perspective<T: Real>(aspect: T, fov_y_rad: T, near: T, far: T) -> Matrix<
         data: [
             [f / aspect, T::ZERO, T::ZERO, T::ZERO],
             [T::ZERO, f, T::ZERO, T::ZERO],
-            [T::ZERO, T::ZERO, (far + near) * nf, -T::ONE],
             [
                 T::ZERO,
                 T::ZERO,
+                (far + near) * nf,
                 (T::from_f32(2.0) * far * near) * nf,
-                T::ZERO,
             ],
+            [T::ZERO, T::ZERO, -T::ONE, T::ZERO],
         ],
     }
 }
-- 
2.43.0


From b4cfc7bca2d1ccd5cd63fbd96e562b7091faff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 42/56] fix: look_at is a right-handed rigid motion

---
 crates/aether_graphics/src/graphics/transforms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index f3d7aeb..4ce91bb 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -10,8 +10,8 @@ pub fn look_at<T: Real, F: ReferenceFrame>(
     up: &Cartesian<T, F>,
 ) -> Matrix<T, 4, 4> {
     let f = (center - eye).normalize().data;
-    let r = up.data.cross(&f).normalize();
-    let u = f.cross(&r);
+    let r = f.cross(&up.data).normalize();
+    let u = r.cross(&f);
 
     Matrix::new([
         [r[0], r[1], r[2], -r.dot(&eye.data)],
-- 
2.43.0


From 5bca7807bce447c2d6889648c431d56cb1432049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 43/56] fix: the orbit camera turns actively about its
 documented axes

---
 .../src/cameras/orbit_camera.rs               | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..8759ba7 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -59,11 +59,11 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
-        let mut right = world_up.cross(&fwd);
+        let fwd = q_yaw.conjugate().rotate_vec(&base_forward).normalize();
+        let mut right = fwd.cross(&world_up);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
-            right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd);
+            right = fwd.cross(&Vector::new([T::ONE, T::ZERO, T::ZERO]));
         }
         right = right.normalize();
 
@@ -90,11 +90,11 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
-        let mut right = world_up.cross(&fwd_tmp);
+        let fwd_tmp = tmp.conjugate().rotate_vec(&base_forward).normalize();
+        let mut right = fwd_tmp.cross(&world_up);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
-            right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
+            right = fwd_tmp.cross(&Vector::new([T::ONE, T::ZERO, T::ZERO]));
         }
         right = right.normalize();
         let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
@@ -142,19 +142,20 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        // rotate_vec is a passive transform; the conjugate turns the axis itself
+        self.orientation.conjugate().rotate_vec(&base_forward).normalize()
     }
 
     #[inline]
     pub fn right(&self) -> Vector<T, 3> {
-        // right = world_up × forward (Z-up locked), with robust fallback near poles.
+        // right = forward × world_up (Z-up locked), with robust fallback near poles.
         let fwd = self.forward();
         let world_up = Vector::new([T::ZERO, T::ZERO, T::ONE]);
-        let mut right = world_up.cross(&fwd);
+        let mut right = fwd.cross(&world_up);
 
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
-            right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd);
+            right = fwd.cross(&Vector::new([T::ONE, T::ZERO, T::ZERO]));
         }
 
         right.normalize()
@@ -162,10 +163,10 @@ impl<T: Real> OrbitCamera<T> {
 
     #[inline]
     pub fn cam_up(&self) -> Vector<T, 3> {
-        // up' = forward × right, locked to world-up hemisphere (+Z)
+        // up' = right × forward, locked to world-up hemisphere (+Z)
         let fwd = self.forward();
         let right = self.right();
-        let up = fwd.cross(&right);
+        let up = right.cross(&fwd);
         let n2 = up[0] * up[0] + up[1] * up[1] + up[2] * up[2];
         if n2 < T::from_f64(1.0e-16) {
             Vector::new([T::ZERO, T::ZERO, T::ONE])
-- 
2.43.0


From dd9c2d4d09d9bf784bfc58adc57989f093a30020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 44/56] fix: the camera up axis does not flip at the poles

---
 crates/aether_graphics/src/cameras/orbit_camera.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index 8759ba7..52e2d57 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -171,12 +171,7 @@ impl<T: Real> OrbitCamera<T> {
         if n2 < T::from_f64(1.0e-16) {
             Vector::new([T::ZERO, T::ZERO, T::ONE])
         } else {
-            let up_n = up.normalize();
-            if up_n[2] < T::ZERO {
-                up_n * (-T::ONE)
-            } else {
-                up_n
-            }
+            up.normalize()
         }
     }
 
-- 
2.43.0


From f51d714a392b70da83a630288765497d4e0e974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 45/56] fix: proper motion follows the great circle

---
 .../aether_catalogs/src/star_catalogs/mod.rs  | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..6d6c37d 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,18 +195,31 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
-        let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
-
-        let ra_rad = ra_deg.to_radians();
-        let dec_rad = dec_deg.to_radians();
+        let ra_rad = self.ra_2016.to_radians();
+        let dec_rad = self.de_2016.to_radians();
 
         let cos_dec = dec_rad.cos();
         let sin_dec = dec_rad.sin();
         let cos_ra = ra_rad.cos();
         let sin_ra = ra_rad.sin();
 
-        let unit = [cos_dec * cos_ra, cos_dec * sin_ra, sin_dec];
+        let unit_2016 = [cos_dec * cos_ra, cos_dec * sin_ra, sin_dec];
+        let t_ra = [-sin_ra, cos_ra, 0.0];
+        let t_de = [-cos_ra * sin_dec, -sin_ra * sin_dec, cos_dec];
+
+        // The catalogued motion is a tangent rate (pmra includes cos(dec)), so the
+        // star moves along the great circle through its 2016 position.
+        let mu_ra = (self.pmra.unwrap_or(0.0) as f64 / 3_600_000.0).to_radians();
+        let mu_de = (self.pmde.unwrap_or(0.0) as f64 / 3_600_000.0).to_radians();
+        let rate = mu_ra.hypot(mu_de);
+        let ahead_2016 = if rate > 0.0 {
+            std::array::from_fn(|i| (mu_ra * t_ra[i] + mu_de * t_de[i]) / rate)
+        } else {
+            [0.0; 3]
+        };
+        let (sin_m, cos_m) = (rate * dt).sin_cos();
+        let unit: [f64; 3] = std::array::from_fn(|i| cos_m * unit_2016[i] + sin_m * ahead_2016[i]);
+        let ahead: [f64; 3] = std::array::from_fn(|i| cos_m * ahead_2016[i] - sin_m * unit_2016[i]);
 
         let distance_au = self
             .plx
@@ -221,20 +234,11 @@ impl IcrsPropagator for GncRecord {
         let position = unit.map(|v| v * distance_au);
 
         let velocity = match (self.plx, self.pmra, self.pmde) {
-            (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
+            (Some(plx), Some(_), Some(_)) if plx > 0.0 => {
                 let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
-                let mu_ra = pmra as f64;
-                let mu_de = pmde as f64;
-
-                let t_ra = [-sin_ra, cos_ra, 0.0];
-                let t_de = [-cos_ra * sin_dec, -sin_ra * sin_dec, cos_dec];
-
-                [
-                    scale * (mu_ra * t_ra[0] + mu_de * t_de[0]),
-                    scale * (mu_ra * t_ra[1] + mu_de * t_de[1]),
-                    scale * (mu_ra * t_ra[2] + mu_de * t_de[2]),
-                ]
+                let scale = 4.74047 / plx_mas * (rate.to_degrees() * 3_600_000.0);
+
+                ahead.map(|v| v * scale)
             }
             _ => [0.0, 0.0, 0.0],
         };
-- 
2.43.0


From 7f102734e85bff7bd87d17e1ad900c10db672739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 46/56] fix: star velocities are in AU per year

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 6d6c37d..5563e07 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -235,10 +235,7 @@ impl IcrsPropagator for GncRecord {
 
         let velocity = match (self.plx, self.pmra, self.pmde) {
             (Some(plx), Some(_), Some(_)) if plx > 0.0 => {
-                let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas * (rate.to_degrees() * 3_600_000.0);
-
-                ahead.map(|v| v * scale)
+                ahead.map(|v| v * rate * distance_au)
             }
             _ => [0.0, 0.0, 0.0],
         };
-- 
2.43.0


From 73df3138dbc6198a08eaaed7a91facbfaba80e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 47/56] fix: propagated star uncertainties are never NaN

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 5563e07..9044980 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -141,8 +141,8 @@ impl GncCatalogReader {
             }
             _ => {
                 let delta_t2 = (t - 1991.25_f64).powi(2) - (2016.0_f64 - 1991.25_f64).powi(2);
-                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).sqrt();
-                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).sqrt();
+                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).max(0.0).sqrt();
+                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).max(0.0).sqrt();
                 (e_ra, e_de)
             }
         };
-- 
2.43.0


From 7424706e24677e484b18ff72eed92975e4136d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 48/56] hook: re-export the performance sinks under
 cfg(aether_monitor)

---
 crates/aether_benchmark/src/performance/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/aether_benchmark/src/performance/mod.rs b/crates/aether_benchmark/src/performance/mod.rs
index a76e4fb..989fe7e 100644
--- a/crates/aether_benchmark/src/performance/mod.rs
+++ b/crates/aether_benchmark/src/performance/mod.rs
@@ -6,3 +6,12 @@ pub use clock::*;
 #[cfg(test)]
 #[path = "tests/mod.rs"]
 mod tests;
+
+// Re-exports for external runtime monitors, compiled only with `--cfg aether_monitor`.
+#[allow(unexpected_cfgs)]
+#[cfg(all(aether_monitor, feature = "std"))]
+pub mod monitor {
+    pub use super::performance::{PowerCsv, TimingCsv};
+    pub use super::power::CPUEnergy;
+    pub use super::timer::TimeSpan;
+}
-- 
2.43.0


From 59a3f498674f04d7cf37e7913de5e188c27cbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 49/56] fix: signum of zero without std has the sign of the
 zero

---
 crates/aether_core/src/real/no_std_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..3fad5b4 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysignf(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From e1644ea1e7312397a294dedaec101a251b35aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 50/56] fix: f32 integer powers without std use the whole
 exponent

---
 crates/aether_core/src/real/no_std_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 3fad5b4..6d6b7c7 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -38,7 +38,7 @@ impl Real for f32 {
     #[inline] fn ln(self) -> Self { libm::logf(self) }
     #[inline] fn log2(self) -> Self { libm::log2f(self) }
     #[inline] fn log10(self) -> Self { libm::log10f(self) }
-    #[inline] fn powi(self, n: i32) -> Self { libm::powf(self, n as f32) }
+    #[inline] fn powi(self, n: i32) -> Self { libm::pow(self as f64, n as f64) as f32 }
     #[inline] fn powf(self, n: Self) -> Self { libm::powf(self, n) }
     #[inline] fn to_degrees(self) -> Self { self * (180.0 / core::f32::consts::PI) }
     #[inline] fn to_radians(self) -> Self { self * (core::f32::consts::PI / 180.0) }
-- 
2.43.0


From 2815bc2d56b820d2ec5cd171353d30333dde6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 51/56] fix: the Moon turns from its epoch in every transform

---
 crates/aether_models/src/lunar/moon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..b83d2c8 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -95,11 +95,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        transforms::lirf_to_ltrf(time - self.epoch_time)
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        transforms::ltrf_to_lirf(time - self.epoch_time)
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
-- 
2.43.0


From bcac08d56c5d9f2cf8652cdb516e472ebbfa120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 52/56] fix: plot_error_on_grid hangs on poles, undefined
 errors and zero samples

An infinite or NaN error made the y range infinite, and zero samples gave a
NaN abscissa; the axis tick search then never ended. Non-finite points are
dropped, as plot_series does, and a plot without any is an error.
---
 crates/aether_viz/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/lib.rs b/crates/aether_viz/src/lib.rs
index a33e316..46f29a6 100644
--- a/crates/aether_viz/src/lib.rs
+++ b/crates/aether_viz/src/lib.rs
@@ -95,14 +95,22 @@ where
     let mut max_e = f64::NEG_INFINITY;
     let mut pts = Vec::with_capacity(samples + 1);
     for i in 0..=samples {
-        let t = i as f64 / samples as f64;
+        let t = i as f64 / samples.max(1) as f64;
         let x = a + (b - a) * t;
         let e = f_approx(x) - f_true(x);
+        // A pole or an undefined point has no place on the axis.
+        if !x.is_finite() || !e.is_finite() { continue; }
         min_e = min_e.min(e);
         max_e = max_e.max(e);
         pts.push((x, e));
     }
+    if pts.is_empty() {
+        return Err("plot_error_on_grid: no finite points to plot".into());
+    }
     if min_e == max_e { max_e = min_e + 1.0; }
+    if !(max_e - min_e).is_finite() {
+        return Err("plot_error_on_grid: range of errors too large to plot".into());
+    }
 
     #[cfg(feature = "svg")]
     {
-- 
2.43.0


From 20a5d78b68e7be1bda0a885b5587980ce99dda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 53/56] fix: plot_series hangs when the padded data range
 overflows

Finite points may span more than f64::MAX; the axis tick search never ended
on the infinite range. Return an error instead.
---
 crates/aether_viz/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_viz/src/lib.rs b/crates/aether_viz/src/lib.rs
index 46f29a6..d20409b 100644
--- a/crates/aether_viz/src/lib.rs
+++ b/crates/aether_viz/src/lib.rs
@@ -226,6 +226,9 @@ pub fn plot_series(
     let y_pad = (y_max - y_min).abs() * 0.03;
     let x_range = (x_min - x_pad)..(x_max + x_pad);
     let y_range = (y_min - y_pad)..(y_max + y_pad);
+    if !(x_range.end - x_range.start).is_finite() || !(y_range.end - y_range.start).is_finite() {
+        return Err("plot_series: range of values too large to plot".into());
+    }
 
     let size = (1920, 1080);
 
-- 
2.43.0


From 2a800bcacb6d8c8771292cdee712978c5c546619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 54/56] fix: csv_tail_egui names lines after the columns in use
 when a source lacks one

---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 226d123..50794c2 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -424,9 +424,8 @@ impl CsvTailApp {
             }
         }
 
-        if err_msg.is_none() {
-            self.y_labels = new_cols;
-        }
+        // Every source has switched, also one that lacks a column.
+        self.y_labels = new_cols;
         self.last_error = err_msg;
     }
 }
-- 
2.43.0


From 2987366911651749ffc78600056f5e8b78d15187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 55/56] fix: csv_tail_egui ticks the scalar columns given on
 the command line

---
 crates/aether_viz/src/bin/csv_tail_egui.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/bin/csv_tail_egui.rs b/crates/aether_viz/src/bin/csv_tail_egui.rs
index 50794c2..830e9b1 100644
--- a/crates/aether_viz/src/bin/csv_tail_egui.rs
+++ b/crates/aether_viz/src/bin/csv_tail_egui.rs
@@ -85,7 +85,7 @@ fn main() -> Result<(), Box<dyn Error>> {
             .collect(),
         selected_y_map: y_columns
             .iter()
-            .filter(|c| classify_component(c) == Some(ComponentKind::Y))
+            .filter(|c| classify_component(c) != Some(ComponentKind::X))
             .cloned()
             .map(|c| (c, true))
             .collect(),
-- 
2.43.0


From a281a317ee17fe0543732a0e92ec45f94f86b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 56/56] fix: WGS 84's C22 has the published digits
 (2.43938357328313e-6)

---
 crates/aether_models/src/terrestrial/wgs84/constants/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/constants/mod.rs b/crates/aether_models/src/terrestrial/wgs84/constants/mod.rs
index de2e5dc..aa49a98 100644
--- a/crates/aether_models/src/terrestrial/wgs84/constants/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/constants/mod.rs
@@ -3,7 +3,7 @@ pub const a: f64 = 6378137.0; // meters
 pub const GM: f64 = 3.986004418e14; // meters^3/seconds^2
 pub const w: f64 = 7.292115e-5; // radians/second
 pub const c20dyn: f64 = -4.84165143790815e-4; // Unitless
-pub const c22dyn: f64 = 2.43938357327313e-6; // Unitless
+pub const c22dyn: f64 = 2.43938357328313e-6; // Unitless
 pub const c: f64 = 2.99792458e8; // meters/second
 pub const G: f64 = 6.67428e-11; // meters^3/(kilogram*seconds^2)
 pub const M_A: f64 = 5.1480e18; // kilograms
-- 
2.43.0

