From b69bcbc2795c03adeff224860274eb926b39ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:05 +0000
Subject: [PATCH 01/22] fix: normalize maps tiny negative angles into [0,
 full_turn)

---
 crates/cglinalg_trigonometry/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 3f0eab4..51f4b5b 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -413,7 +413,13 @@ where
     fn normalize(self) -> Self {
         let remainder = self % Self::full_turn();
         if remainder < Self::zero() {
-            remainder + Self::full_turn()
+            // The sum rounds up to a full turn when the remainder is tiny.
+            let result = remainder + Self::full_turn();
+            if result < Self::full_turn() {
+                result
+            } else {
+                Self::zero()
+            }
         } else {
             remainder
         }
-- 
2.43.0


From 37f3db0293d10b4f25fd7341348b818ba35f3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:05 +0000
Subject: [PATCH 02/22] fix: normalize_signed maps a half turn into [-full_turn
 / 2, full_turn / 2)

---
 crates/cglinalg_trigonometry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 51f4b5b..f88c88e 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -446,7 +446,7 @@ where
     #[inline]
     fn normalize_signed(self) -> Self {
         let remainder = self.normalize();
-        if remainder > Self::full_turn_div_2() {
+        if remainder >= Self::full_turn_div_2() {
             remainder - Self::full_turn()
         } else {
             remainder
-- 
2.43.0


From 8c11d5a8382bb03e5c1b60c39db620d63c014845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:20 +0000
Subject: [PATCH 03/22] fix: Matrix2x2::rotation_between_axis turns clockwise
 when that is the shorter way

The sine was taken as the positive root of one minus the squared cosine, so
every clockwise rotation came out counterclockwise, and vectors whose dot
product rounds above one gave a matrix of NaN.
---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..2e42dbd 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3234,7 +3234,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1.as_ref()[0] * v2.as_ref()[1] - v1.as_ref()[1] * v2.as_ref()[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From fbc75ee77c9608527520c3ea150bbed5f656be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:20 +0000
Subject: [PATCH 04/22] fix: Matrix3x3::rotation_between is finite for nearly
 parallel vectors

The dot product of two unit vectors may round outside of [-1, 1], where the
arccosine is NaN.
---
 crates/cglinalg_core/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 2e42dbd..7ed0b31 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -5256,7 +5256,7 @@ where
             let cross = unit_v1.cross(&unit_v2);
 
             if let Some(axis) = Unit::try_from_value(cross, threshold) {
-                return Some(Self::from_axis_angle(&axis, Radians::acos(unit_v1.dot(&unit_v2))));
+                return Some(Self::from_axis_angle(&axis, Radians::atan2(cross.norm(), unit_v1.dot(&unit_v2))));
             }
 
             if unit_v1.dot(&unit_v2) < S::zero() {
@@ -5304,7 +5304,7 @@ where
         let cos_angle = unit_v1.as_ref().dot(unit_v2.as_ref());
 
         if let Some(axis) = Unit::try_from_value(cross, threshold) {
-            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
+            return Some(Self::from_axis_angle(&axis, Radians::atan2(cross.norm(), cos_angle)));
         }
 
         if cos_angle < S::zero() {
-- 
2.43.0


From d7c77c2a748ca637025467e6a241aaf4967cc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:29 +0000
Subject: [PATCH 05/22] fix: Complex::powi honours the magnitude of a negative
 exponent

The exponent stayed negative after the base had been inverted, so that the
squaring loop never ran and z^-3 came out as z^-1.
---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From 948f3ad2559165009a00cfea225bbc4e8af351b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:36 +0000
Subject: [PATCH 06/22] fix: Perspective3::project_point shifts y for an
 off-centre frustum

The y component used the zero entry c3r1 of the projection matrix in place of
c2r1, so projecting disagreed with the matrix unless bottom equals top.
---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 21d1b4ff9cc148e1dc0e018746b681dba974672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:51 +0000
Subject: [PATCH 07/22] fix: Perspective3::vfov returns fields of view of a
 right angle or more

The arctangent of the quotient falls into the wrong quadrant when the
denominator is not positive.
---
 crates/cglinalg_transform/src/projection.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..638b49b 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,8 +826,7 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
+        let vfov = numerator.atan2(denominator);
 
         Radians(vfov)
     }
-- 
2.43.0


From 620217d0dd457606c953a56f27753edebe02b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:01 +0000
Subject: [PATCH 08/22] fix: the inverse look isometries put the origin at the
 eye

look_to_*_inv and look_at_*_inv of Isometry3 translated by the rotated negated
eye, the translation of the forward transformation, so that they neither sent
the origin to the eye, as documented, nor undid look_to_* and look_at_*.
---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From a7f68b255cf349fb865007aa56678874d624ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:09 +0000
Subject: [PATCH 09/22] fix: Rotation3::angle is finite when the trace rounds
 out of range

---
 crates/cglinalg_transform/src/rotation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..50f5c1a 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -979,7 +979,11 @@ where
         let two = cglinalg_numeric::cast(2);
         let trace_self = self.matrix.c0r0 + self.matrix.c1r1 + self.matrix.c2r2;
 
-        Radians::acos((trace_self - S::one()) / two)
+        let cos_angle = (trace_self - S::one()) / two;
+
+        // The cosine may fall outside the interval [-1, 1] because of floating
+        // point inaccuracies.
+        Radians::acos(cos_angle.clamp(-S::one(), S::one()))
     }
 
     /// Compute the axis of the rotation if it exists.
-- 
2.43.0


From 86685e67e21908dcce22ef0a59b418e02a7e829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:48 +0000
Subject: [PATCH 10/22] fix: Rotation3::euler_angles is finite when the sine of
 the yaw rounds out of range

---
 crates/cglinalg_transform/src/rotation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 50f5c1a..15bfed7 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1839,7 +1839,9 @@ where
     /// ```
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(self.matrix[2][0]);
+        // The sine may fall outside the interval [-1, 1] because of floating
+        // point inaccuracies.
+        let yaw = Radians::asin(self.matrix[2][0].clamp(-S::one(), S::one()));
         let cos_yaw = Radians::cos(yaw);
         let (pitch, roll) = if cos_yaw.abs().is_zero() {
             let _pitch = Radians::zero();
-- 
2.43.0


From a6d02d5f5c737752993f44c5e21791e0cbd22b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:54 +0000
Subject: [PATCH 11/22] fix: Quaternion::sqrt keeps its accuracy next to the
 negative real axis

The norm and the scalar part cancel there, down to a division by zero that
gave infinite and NaN components.
---
 crates/cglinalg_core/src/quaternion.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..e6de817 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2123,9 +2123,17 @@ where
             // Otherwise, we can treat the quaternion as normal.
             let one = S::one();
             let one_half = one / (one + one);
-            let c = S::sqrt(one_half / (norm_self + self.scalar()));
+            let norm_v = S::sqrt(norm_v_squared);
+            if self.scalar() >= -norm_v {
+                let c = S::sqrt(one_half / (norm_self + self.scalar()));
 
-            Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
+                Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
+            } else {
+                // The sum of the norm and the negative scalar part cancels.
+                let c = S::sqrt(one_half * (norm_self - self.scalar()));
+
+                Self::from_parts(one_half * norm_v / c, self.vector() * (c / norm_v))
+            }
         }
     }
 
-- 
2.43.0


From 591e0e04531e09ab4d0c879be79a48ad5288a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:12 +0000
Subject: [PATCH 12/22] fix: inverse functions of real and of pure quaternions

acos, asin and atan of a real quaternion normalized a zero vector part to NaN,
and acos and asinh of a pure quaternion took the square root of a negative real
along the x-axis whatever the direction of the quaternion.
---
 crates/cglinalg_core/src/quaternion.rs | 29 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index e6de817..f0c0991 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2096,6 +2096,13 @@ where
 
     #[inline]
     fn sqrt_eps(&self, threshold: S) -> Self {
+        self.sqrt_axis_eps(&Vector3::unit_x(), threshold)
+    }
+
+    /// Compute the square root of `self` such that the square root of a negative
+    /// real quaternion lies along the unit vector `axis`.
+    #[inline]
+    fn sqrt_axis_eps(&self, axis: &Vector3<S>, threshold: S) -> Self {
         let norm_self_squared = self.norm_squared();
         if norm_self_squared <= threshold * threshold {
             // We have a zero quaternion.
@@ -2115,9 +2122,8 @@ where
                 // If the scalar part of a real quaternion is negative, it has
                 // infinitely many pure quaternion solutions that form a two-sphere
                 // centered at the origin in the vector subspace of the space of
-                // quaternions, so we choose a canonical one on the imaginary axis
-                // in the complex plane.
-                Self::from_pure(Vector3::new(sqrt_norm_self, S::zero(), S::zero()))
+                // quaternions, so we choose the one along the given axis.
+                Self::from_pure(axis * sqrt_norm_self)
             }
         } else {
             // Otherwise, we can treat the quaternion as normal.
@@ -3169,6 +3175,13 @@ where
         Self::from_parts(scalar, vector)
     }
 
+    /// The direction of the vector part of `self`. Every direction serves a real
+    /// quaternion, so we choose the imaginary axis of the complex plane for it.
+    #[inline]
+    fn vector_axis(&self) -> Vector3<S> {
+        self.vector().try_normalize(S::zero()).unwrap_or_else(Vector3::unit_x)
+    }
+
     /// Compute the quaternionic arccosine of `self`.
     ///
     /// # Example
@@ -3195,9 +3208,9 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector_axis());
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt()).ln();
+        let q = (self + (self.squared() - identity).sqrt_axis_eps(&self.vector_axis(), S::default_epsilon())).ln();
 
         -(signum_vec_self * q)
     }
@@ -3277,7 +3290,7 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector_axis());
         let identity = Self::identity();
         let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
 
@@ -3375,7 +3388,7 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = Self::from_pure(self.vector_axis());
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
         let q = numerator.div_right(&denominator).unwrap();
@@ -3532,7 +3545,7 @@ where
     pub fn asinh(&self) -> Self {
         let identity = Self::identity();
 
-        (self + (self.squared() + identity).sqrt()).ln()
+        (self + (self.squared() + identity).sqrt_axis_eps(&self.vector_axis(), S::default_epsilon())).ln()
     }
 
     /// Compute the quaternionic hyperbolic tangent of `self`.
-- 
2.43.0


From 983b32b4a28c0099b99fd5535c636e5547851417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:23 +0000
Subject: [PATCH 13/22] fix: Matrix::map dropped zeroed elements when mapping
 to a type with drop glue

---
 crates/cglinalg_core/src/matrix.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 7ed0b31..3f561ad 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -468,22 +468,14 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn map<T, F>(&self, mut op: F) -> Matrix<T, R, C>
     where
         F: FnMut(S) -> T,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = op(self.data[c][r]);
-            }
+        Matrix {
+            data: self.data.map(|column| column.map(&mut op)),
         }
-
-        Matrix { data }
     }
 
     /// Get the row of the matrix by value.
-- 
2.43.0


From aa30fb7f5a0f54a5aecf956f2da2d193a58bae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:51 +0000
Subject: [PATCH 14/22] fix: Display of vectors, points and matrices panicked
 when the writer failed

---
 crates/cglinalg_core/src/matrix.rs | 14 +++++++-------
 crates/cglinalg_core/src/point.rs  |  4 ++--
 crates/cglinalg_core/src/vector.rs |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 3f561ad..20a7961 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1528,21 +1528,21 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Matrix{}x{} [", R, C).unwrap();
+        write!(formatter, "Matrix{}x{} [", R, C)?;
 
         for c in 0..(C - 1) {
-            write!(formatter, "[").unwrap();
+            write!(formatter, "[")?;
             for r in 0..(R - 1) {
-                write!(formatter, "{}, ", self.data[c][r]).unwrap();
+                write!(formatter, "{}, ", self.data[c][r])?;
             }
-            write!(formatter, "{}], ", self.data[c][R - 1]).unwrap();
+            write!(formatter, "{}], ", self.data[c][R - 1])?;
         }
 
-        write!(formatter, "[").unwrap();
+        write!(formatter, "[")?;
         for r in 0..(R - 1) {
-            write!(formatter, "{}, ", self.data[C - 1][r]).unwrap();
+            write!(formatter, "{}, ", self.data[C - 1][r])?;
         }
-        write!(formatter, "{}]", self.data[C - 1][R - 1]).unwrap();
+        write!(formatter, "{}]", self.data[C - 1][R - 1])?;
 
         write!(formatter, "]")
     }
diff --git a/crates/cglinalg_core/src/point.rs b/crates/cglinalg_core/src/point.rs
index 0da4f90..484e246 100644
--- a/crates/cglinalg_core/src/point.rs
+++ b/crates/cglinalg_core/src/point.rs
@@ -547,9 +547,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Point{} [", N).unwrap();
+        write!(formatter, "Point{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.coords[i]).unwrap();
+            write!(formatter, "{}, ", self.coords[i])?;
         }
         write!(formatter, "{}]", self.coords[N - 1])
     }
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index eb703f5..24c44c4 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -1192,9 +1192,9 @@ where
     S: fmt::Display,
 {
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-        write!(formatter, "Vector{} [", N).unwrap();
+        write!(formatter, "Vector{} [", N)?;
         for i in 0..(N - 1) {
-            write!(formatter, "{}, ", self.data[i]).unwrap();
+            write!(formatter, "{}, ", self.data[i])?;
         }
         write!(formatter, "{}]", self.data[N - 1])
     }
-- 
2.43.0


From 9a034b680430f32dbcc9ceef221cc823646615b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:42 +0000
Subject: [PATCH 15/22] fix: planes of projections whose opposite plane is at
 zero

right, top and, of an orthographic projection, far divided by the opposite plane
and returned NaN for a window that starts at the axis (left, bottom or near of
zero), and so did the unprojections that use them.
---
 crates/cglinalg_transform/src/projection.rs | 166 +++-----------------
 1 file changed, 25 insertions(+), 141 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 638b49b..c8c4e1a 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1146,45 +1146,21 @@ where
         // (2 * right) / (right + left) == m[2, 0] + 1
         // (2 * left) / (right + left) == -m[2, 0] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := right / left
-        // ```
-        // so that
-        // ```text
-        // ratio == right / left
-        //       == (2 * right) / (2 * left)
-        //       == [(2 * right) / (right + left)] / [(2 * left) / (right + left)]
-        //       == (m[2, 0] + 1) / (-m[2, 0] + 1)
-        // ```
-        // and
-        // ```text
-        // left == right / ratio
-        // ```
-        // Using matrix element `m[0, 0]`
+        // and, using matrix element `m[0, 0]`,
         // ```text
         // m[0, 0] == (2 * near) / (right + left)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * near / m[0, 0] == (2 * near) * (1 / m[0, 0])
-        //                    == right + left
-        //                    == right + right / ratio
-        //                    == (1 + (1 / ratio)) * right
-        //                    == ((ratio + 1) / ratio) * right
-        // ```
         // We obtain
         // ```text
-        // right == [(2 * near) * (ratio / (ratio + 1))] * (1 / m[0, 0])
+        // right == near * (m[2, 0] + 1) * (1 / m[0, 0])
         // ```
-        // which is the desired formula.
+        // which is the desired formula. It holds for `left == 0` too, where the
+        // ratio of `right` to `left` does not exist.
         //
         let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);
         let near = self.near();
 
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        (near * (self.matrix[2][0] + one)) * (one / self.matrix[0][0])
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -1381,45 +1357,21 @@ where
         // (2 * top) / (top + bottom) == m[2, 1] + 1
         // (2 * bottom) / (top + bottom) == -m[2, 1] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := top / bottom
-        // ```
-        // so that
-        // ```text
-        // ratio == top / bottom
-        //       == (2 * top) / (2 * bottom)
-        //       == [(2 * top) / (top + bottom)] / [(2 * bottom) / (top + bottom)]
-        //       == (m[2, 1] + 1) / (-m[2, 1] + 1)
-        // ```
-        // and
-        // ```text
-        // bottom = top / ratio
-        // ```
-        // Using the matrix element `m[1, 1]`
+        // and, using matrix element `m[1, 1]`,
         // ```text
         // m[1, 1] == (2 * near) / (top + bottom)
         // ```
-        // or equivalently
-        // ```text
-        // (2 * near) / m[1, 1] == (2 * near) * (1 / m[1, 1])
-        //                      == top + bottom
-        //                      == top + top / ratio
-        //                      == (1 + (1 / ratio)) * top
-        //                      == ((ratio + 1) / ratio) * top
-        // ```
         // We obtain
         // ```text
-        // top == [(2 * near) * (ratio / (ratio + 1))] * (1 / m[1, 1])
+        // top == near * (m[2, 1] + 1) * (1 / m[1, 1])
         // ```
-        // which is the desired formula.
+        // which is the desired formula. It holds for `bottom == 0` too, where the
+        // ratio of `top` to `bottom` does not exist.
         //
         let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][1] + one) / (-self.matrix[2][1] + one);
         let near = self.near();
 
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        (near * (self.matrix[2][1] + one)) * (one / self.matrix[1][1])
     }
 
     /// Get the position of the **bottom plane** of the viewing
@@ -3142,43 +3094,20 @@ where
         // ```text
         // (2 * far) / (far - near) == -m[3, 2] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := far / near
-        // ```
-        // the ratio of `far` to `near` so that
-        // ```text
-        // ratio == far / near
-        //       == (2 * far) / (2 * near)
-        //       == [(2 * far) / (far - near)] / [(2 * near) / (far - near)]
-        //       == (-m[3, 2] + 1) / (-m[3, 2] - 1)
-        // ```
-        // so that
-        // ```text
-        // near == far / ratio
-        // ```
-        // Using the matrix element `m[2, 2]`
+        // and, using the matrix element `m[2, 2]`,
         // ```text
         // m[2, 2] == -2 / (far - near)
         // ```
-        // or equivalently
-        // ```text
-        // -2 / m[2, 2] == far - near
-        //              == far - far / ratio
-        //              == (1 - (1 / ratio)) * far
-        //              == ((ratio - 1) / ratio) * far
-        // ```
         // we obtain
         // ```text
-        // far == -2 * (ratio / (ratio - 1)) * (1 / m[2, 2])
+        // far == -(-m[3, 2] + 1) * (1 / m[2, 2])
         // ```
-        // which is the desired formula.
+        // which is the desired formula. It holds for `near == 0` too, where the
+        // ratio of `far` to `near` does not exist.
         //
         let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);
 
-        (-two * (ratio / (ratio - one))) * (one / self.matrix[2][2])
+        (self.matrix[3][2] - one) * (one / self.matrix[2][2])
     }
 
     /// Get the position of the **right plane** of the viewing
@@ -3242,43 +3171,20 @@ where
         // (2 * right) / (right + left) == -m[3, 0] + 1
         // (2 * left) / (right + left) == m[3, 0] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := right / left
-        // ```
-        // so that
-        // ```text
-        // ratio == right / left
-        //       == (2 * right) / (2 * left)
-        //       == [(2 * right) / (right + left)] / [(2 * left) / (right + left)]
-        //       == (-m[3, 0] + 1) / (m[3, 0] + 1)
-        // ```
-        // and
-        // ```text
-        // left == right / ratio
-        // ```
-        // Using the matrix element `m[0, 0]`
+        // and, using matrix element `m[0, 0]`,
         // ```text
         // m[0, 0] == 2 / (right + left)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * (1 / m[0, 0]) == right + left
-        //                   == right + right / ratio
-        //                   == (1 + (1 / ratio)) * right
-        //                   == ((ratio + 1) / ratio) * right
-        // ```
         // We obtain
         // ```text
-        // right == 2 * (ratio / (ratio + 1)) * (1 / m[0, 0])
+        // right == (-m[3, 0] + 1) * (1 / m[0, 0])
         // ```
-        // which is the desired formula.
+        // which is the desired formula. It holds for `left == 0` too, where the
+        // ratio of `right` to `left` does not exist.
         //
         let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][0] + one) / (self.matrix[3][0] + one);
 
-        (two * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        (-self.matrix[3][0] + one) * (one / self.matrix[0][0])
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -3441,42 +3347,20 @@ where
         // (2 * top) / (top + bottom) == -m[3, 1] + 1
         // (2 * bottom) / (top + bottom) == m[3, 1] + 1
         // ```
-        // Define
-        // ```text
-        // ratio := top / bottom
-        // ```
-        // so that
-        // ```text
-        // ratio == top / bottom
-        //       == (2 * top) / (2 * bottom)
-        //       == [(2 * top) / (top + bottom)] / [(2 * bottom) / (top + bottom)]
-        //       == (-m[3, 1] + 1) / (m[3, 1] + 1)
-        // ```
-        // and
-        // ```text
-        // bottom == top / ratio
-        // ```
-        // Using the matrix element `m[1, 1]`
+        // and, using matrix element `m[1, 1]`,
         // ```text
         // m[1, 1] == 2 / (top + bottom)
         // ```
-        // or equivalently
-        // ```text
-        // 2 * (1 / m[1, 1]) == top + bottom
-        //                   == top + top / ratio
-        //                   == ((ratio + 1) / ratio) * top
-        // ```
         // We obtain
         // ```text
-        // top == 2 * (ratio / (ratio + 1)) * (1 / m[1, 1])
+        // top == (-m[3, 1] + 1) * (1 / m[1, 1])
         // ```
-        // which is the desired formula.
+        // which is the desired formula. It holds for `bottom == 0` too, where the
+        // ratio of `top` to `bottom` does not exist.
         //
         let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][1] + one) / (self.matrix[3][1] + one);
 
-        (two * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        (-self.matrix[3][1] + one) * (one / self.matrix[1][1])
     }
 
     /// Get the position of the **bottom plane** of the viewing
-- 
2.43.0


From 9801f8979996b3c463447810c76e951654d367de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:41 +0000
Subject: [PATCH 16/22] fix: inverse functions of quaternions that take the
 logarithm of a negative real

Quaternion::acos and acosh of real quaternions below -1 dropped a half turn, and
Quaternion::atan of pure quaternions of norm above one dropped a quarter turn, so
that the forward function did not return the argument.
---
 crates/cglinalg_core/src/quaternion.rs | 30 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f0c0991..67f7dbc 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1900,6 +1900,18 @@ where
         }
     }
 
+    /// Compute the natural logarithm of `self` such that the logarithm of a negative
+    /// real quaternion lies along the unit vector `axis`.
+    #[inline]
+    fn ln_axis(&self, axis: &Vector3<S>) -> Self {
+        let threshold = S::default_epsilon();
+        if self.scalar() < S::zero() && self.vector().norm_squared() <= threshold * threshold {
+            Self::from_parts(self.scalar().abs().ln(), axis * S::pi())
+        } else {
+            self.ln_eps(threshold)
+        }
+    }
+
     /// Calculate the power of a quaternion where the exponent is a floating
     /// point number.
     ///
@@ -3210,7 +3222,7 @@ where
     pub fn acos(&self) -> Self {
         let signum_vec_self = Self::from_pure(self.vector_axis());
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt_axis_eps(&self.vector_axis(), S::default_epsilon())).ln();
+        let q = (self + (self.squared() - identity).sqrt_axis_eps(&self.vector_axis(), S::default_epsilon())).ln_axis(&self.vector_axis());
 
         -(signum_vec_self * q)
     }
@@ -3388,12 +3400,16 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector_axis());
-        let numerator = signum_vec_self + self;
-        let denominator = signum_vec_self - self;
-        let q = numerator.div_right(&denominator).unwrap();
+        let one = S::one();
+        let one_half = one / (one + one);
+        let norm_v = self.vector().norm();
+        let s_squared = self.scalar() * self.scalar();
+        let numerator = s_squared + (one + norm_v) * (one + norm_v);
+        let denominator = s_squared + (one - norm_v) * (one - norm_v);
+        let scalar = one_half * S::atan2(self.scalar() + self.scalar(), (one - norm_v) * (one + norm_v) - s_squared);
+        let vector = self.vector_axis() * (one_half * one_half * S::ln(numerator / denominator));
 
-        signum_vec_self.half() * q.ln()
+        Self::from_parts(scalar, vector)
     }
 
     /// Compute the quaternionic hyperbolic cosine of `self`.
@@ -3469,7 +3485,7 @@ where
     pub fn acosh(&self) -> Self {
         let identity = Self::identity();
 
-        (self + (self + identity).sqrt() * (self - identity).sqrt()).ln()
+        (self + (self + identity).sqrt() * (self - identity).sqrt()).ln_axis(&self.vector_axis())
     }
 
     /// Compute the quaternionic hyperbolic sine of `self`.
-- 
2.43.0


From 513ee213d40fb3203f1e90e3bfd1a7c095b5ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:59 +0000
Subject: [PATCH 17/22] fix: Euler angles of a quaternion were NaN at a yaw of
 a quarter turn

The sine of the yaw may be rounded to just above one.
---
 crates/cglinalg_core/src/euler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..c80d4d1 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,7 +492,9 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
+        // The sine may fall outside the interval [-1, 1] because of floating
+        // point inaccuracies.
+        let yaw = Radians::asin(matrix[2][0].clamp(-S::one(), S::one()));
         let cos_yaw = Radians::cos(yaw);
         let (pitch, roll) = if cos_yaw.abs().is_zero() {
             let _pitch = Radians::zero();
-- 
2.43.0


From 01728e30abfcdbb406fdbf7b1b51ed1acefa2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:09 +0000
Subject: [PATCH 18/22] fix: isometries with different translations compared
 equal within one tolerance

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 4bfda412bf604dbfd5c9685d8c84b710e75a0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:31 +0000
Subject: [PATCH 19/22] fix: acosh of a single precision number below one is
 not a number

libm's acoshf does not check its domain for negative arguments: it gave
-6.47 for -51, where f32::acosh and the double precision form give NaN.
---
 crates/cglinalg_numeric/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/cglinalg_numeric/src/lib.rs b/crates/cglinalg_numeric/src/lib.rs
index 1040c1f..d195ed8 100644
--- a/crates/cglinalg_numeric/src/lib.rs
+++ b/crates/cglinalg_numeric/src/lib.rs
@@ -1766,6 +1766,12 @@ macro_rules! impl_simd_scalar_float {
 
             #[inline]
             fn acosh(self) -> Self {
+                // The single precision `libm::acoshf` does not check that its
+                // argument is at least one.
+                if self < 1.0 {
+                    return <$ScalarType>::NAN;
+                }
+
                 num_traits::Float::acosh(self)
             }
 
-- 
2.43.0


From d120ab5d3e5719c95c2491fc8e260b8fdc9d2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:52 +0000
Subject: [PATCH 20/22] fix: views through as_ptr may reach every element

as_ptr and as_mut_ptr of Vector, Matrix and Complex took their pointer from a
reference to the first element alone, and Deref to the coordinate views (x, y,
z, w, s, v, c0r0, ...) then read and wrote the other elements through it, which
is undefined behaviour. Take the pointer from the whole array.
---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 crates/cglinalg_core/src/matrix.rs  | 4 ++--
 crates/cglinalg_core/src/vector.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index cefc515..cd7e6ee 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -58,13 +58,13 @@ impl<S> Complex<S> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.re
+        self as *const Complex<S> as *const S
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.re
+        self as *mut Complex<S> as *mut S
     }
 
     /// Get a slice of the underlying elements of the data type.
diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 20a7961..afc32d9 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -165,13 +165,13 @@ impl<S, const R: usize, const C: usize> Matrix<S, R, C> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.data[0][0]
+        self.data.as_ptr() as *const S
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.data[0][0]
+        self.data.as_mut_ptr() as *mut S
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index 24c44c4..fe9601f 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -75,13 +75,13 @@ impl<S, const N: usize> Vector<S, N> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.data[0]
+        self.data.as_ptr()
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.data[0]
+        self.data.as_mut_ptr()
     }
 
     /// Get a slice of the underlying elements of the data type.
-- 
2.43.0


From 52f684b1fc3ea0c1376f04835f7fc10ea8fc628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:52 +0000
Subject: [PATCH 21/22] fix: rows of matrices of any copyable elements

Matrix::from_rows and Matrix::row zeroed their result before filling it in, for
any element type that is Copy. A type for which zero is no valid value (a
reference, say) makes that panic or is undefined behaviour.
---
 crates/cglinalg_core/src/matrix.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index afc32d9..0dca0d7 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -429,17 +429,9 @@ where
     /// assert_eq!(matrix[1][0], r0[1]); assert_eq!(matrix[1][1], r1[1]); assert_eq!(matrix[1][2], r2[1]);
     /// assert_eq!(matrix[2][0], r0[2]); assert_eq!(matrix[2][1], r1[2]); assert_eq!(matrix[2][2], r2[2]);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn from_rows(rows: &[Vector<S, C>; R]) -> Self {
-        // SAFETY: Every location gets written into with a valid value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[S; R]; C] = unsafe { core::mem::zeroed() };
-        for r in 0..R {
-            for c in 0..C {
-                data[c][r] = rows[r][c];
-            }
-        }
+        let data: [[S; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c]));
 
         Self { data }
     }
@@ -501,15 +493,9 @@ where
     /// assert_eq!(matrix.row(1), expected_1);
     /// assert_eq!(matrix.row(2), expected_2);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn row(&self, r: usize) -> Vector<S, C> {
-        // SAFETY: Every location gets written into with a value value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [S; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            data[c] = self.data[c][r];
-        }
+        let data: [S; C] = core::array::from_fn(|c| self.data[c][r]);
 
         Vector::from(data)
     }
-- 
2.43.0


From 1cb8a4c2be14ec2b014b9d5dcb971da8b4ba61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:52 +0000
Subject: [PATCH 22/22] fix: casts to any type of number

Vector::try_cast and Matrix::try_cast zeroed their result before filling it in,
for any T: SimdCast. For a type for which zero is no valid value, or that has a
destructor, that panics or is undefined behaviour.
---
 crates/cglinalg_core/src/matrix.rs | 18 ++++++------------
 crates/cglinalg_core/src/vector.rs | 16 ++++++----------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 0dca0d7..9802e51 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -637,25 +637,19 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Matrix<T, R, C>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = match cglinalg_numeric::try_cast(self.data[c][r]) {
-                    Some(value) => value,
-                    None => return None,
-                };
-            }
+        let data: [[Option<T>; R]; C] = self.data.map(|column| column.map(cglinalg_numeric::try_cast));
+        if data.iter().flatten().any(Option::is_none) {
+            return None;
         }
 
-        Some(Matrix { data })
+        Some(Matrix {
+            data: data.map(|column| column.map(Option::unwrap)),
+        })
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index fe9601f..d683dbb 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -108,23 +108,19 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Vector<T, N>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [T; N] = unsafe { core::mem::zeroed() };
-        for i in 0..N {
-            data[i] = match cglinalg_numeric::try_cast(self.data[i]) {
-                Some(value) => value,
-                None => return None,
-            };
+        let data: [Option<T>; N] = self.data.map(cglinalg_numeric::try_cast);
+        if data.iter().any(Option::is_none) {
+            return None;
         }
 
-        Some(Vector { data })
+        Some(Vector {
+            data: data.map(Option::unwrap),
+        })
     }
 }
 
-- 
2.43.0

