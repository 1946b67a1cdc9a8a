# Rewritings that keep the behaviour (up to rounding): (name, file, old, new). All are applied
# together by "mutate.py refactors", and every check has to stay quiet.
CORE, TR = "crates/cglinalg_core/src/", "crates/cglinalg_transform/src/"
V, P, M, Q, C = CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "quaternion.rs", CORE + "complex.rs"
T = "crates/cglinalg_trigonometry/src/lib.rs"
R = [
 ("dot from the last", V, """        let mut result = S::zero();
        for i in 0..N {
            result += self.data[i] * other.data[i];
        }

        result
""", """        (0..N).rev().map(|i| self.data[i] * other.data[i]).fold(S::zero(), |sum, term| sum + term)
"""),
 ("project by the unit vector's formula", V, "other * (self.dot(other) / other.norm_squared())", "{ let length_squared = other.dot(other); (other * self.dot(other)) / length_squared }"),
 ("reflect without normalizing", V, """        let unit_normal = normal.normalize();

        self - unit_normal * (two * self.dot(&unit_normal))""", """        let factor = two * self.dot(normal) / normal.dot(normal);

        self - normal * factor"""),
 ("cross by names", V, """        let x = self.data[1] * other.data[2] - self.data[2] * other.data[1];
        let y = self.data[2] * other.data[0] - self.data[0] * other.data[2];
        let z = self.data[0] * other.data[1] - self.data[1] * other.data[0];

        Vector3::new(x, y, z)""", """        let minor = |i: usize, j: usize| self.data[i] * other.data[j] - self.data[j] * other.data[i];

        Vector3::new(minor(1, 2), minor(2, 0), minor(0, 1))"""),
 ("linf by fold", V, """            result = result.max(self.data[i].abs());
        }

        result
    }

    /// Compute the **L1""", None),
 ("transpose loops", M, """        let mut result = Matrix::zero();
        for c in 0..C {
            for r in 0..R {
                result.data[r][c] = self.data[c][r];""", """        let mut result = Matrix::zero();
        for r in 0..R {
            for c in 0..C {
                result.data[r][c] = self.data[c][r];"""),
 ("tr_mul order", M, """                for r in 0..R1 {
                    result_c1c2 += self.data[c1][r] * other.data[c2][r];
                }""", """                for r in (0..R1).rev() {
                    result_c1c2 += other.data[c2][r] * self.data[c1][r];
                }"""),
 ("trace by iterator", M, """        let mut result = S::zero();
        for i in 0..N {
            result += self.data[i][i];
        }

        result""", """        (0..N).fold(S::zero(), |sum, i| sum + self.data[i][i])"""),
 ("determinant of 2x2", M, "        self.data[0][0] * self.data[1][1] - self.data[0][1] * self.data[1][0]\n", "        let (a, b, c, d) = (self.data[0][0], self.data[1][0], self.data[0][1], self.data[1][1]);\n\n        a * d - b * c\n"),
 ("determinant of 3x3", M, """        self.data[0][0] * self.data[1][1] * self.data[2][2] -
        self.data[0][0] * self.data[1][2] * self.data[2][1] -
        self.data[1][0] * self.data[0][1] * self.data[2][2] +
        self.data[1][0] * self.data[0][2] * self.data[2][1] +
        self.data[2][0] * self.data[0][1] * self.data[1][2] -
        self.data[2][0] * self.data[0][2] * self.data[1][1]
""", """        self.data[0][0] * (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1])
            - self.data[1][0] * (self.data[0][1] * self.data[2][2] - self.data[0][2] * self.data[2][1])
            + self.data[2][0] * (self.data[0][1] * self.data[1][2] - self.data[0][2] * self.data[1][1])
"""),
 ("inverse of 2x2", M, """                det_inv *  self.data[1][1], det_inv * -self.data[0][1],
                det_inv * -self.data[1][0], det_inv *  self.data[0][0],""", """                self.data[1][1] / det, -self.data[0][1] / det,
                -self.data[1][0] / det, self.data[0][0] / det,"""),
 ("rotation between from the dot product", Q, "Some(Self::from_axis_angle(&axis, Radians::acos(cos_theta)))", "Some(Self::from_axis_angle(&axis, Radians::atan2(v1_cross_v2.norm(), cos_theta)))"),
 ("quaternion from the trace", Q, """            let s = (S::one() + trace).sqrt();
            let qs = one_half * s;
            let s = one_half / s;""", """            let four_s = (trace + one).sqrt();
            let qs = four_s / (one + one);
            let s = (one / four_s) * one_half;"""),
 ("nlerp as an offset", Q, "(self * (S::one() - amount) + other * amount).normalize()", "(self + (other - self) * amount).normalize()"),
 ("slerp with fewer names", Q, """        let (result, cos_half_theta) = if self.dot(other) < zero {""", """        let straight = self.dot(other);
        let (result, cos_half_theta) = if straight < zero {"""),
 ("slerp factors", Q, """        let a = S::sin((one - amount) * half_theta) / sin_half_theta;
        let b = S::sin(amount * half_theta) / sin_half_theta;
""", """        let scale = one / sin_half_theta;
        let b = S::sin(amount * half_theta) * scale;
        let a = S::sin(half_theta - amount * half_theta) * scale;
"""),
 ("quaternion project", Q, "        other * (self.dot(other) / other.norm_squared())\n", "        let factor = self.dot(other) / other.dot(other);\n\n        other * factor\n"),
 ("quaternion conjugate", Q, "        Self::from_parts(self.scalar(), -self.vector())\n", "        let mut result = *self;\n        result.conjugate_mut();\n\n        result\n"),
 ("quaternion exp", Q, """            let q_scalar = exp_s * S::cos(norm_v);
            let q_vector = self.vector() * (exp_s * S::sin(norm_v) / norm_v);""", """            let q_vector = self.vector() / norm_v * S::sin(norm_v) * exp_s;
            let q_scalar = S::cos(norm_v) * exp_s;"""),
 ("quaternion inverse", Q, "            Some(self.conjugate() / norm_squared)\n", "            let scale = S::one() / norm_squared;\n            Some(self.conjugate() * scale)\n"),
 ("complex exp", C, """        let exp_re = self.re.exp();
        let (sin_im, cos_im) = self.im.sin_cos();
""", """        let exp_re = S::exp(self.re);
        let cos_im = self.im.cos();
        let sin_im = self.im.sin();
"""),
 ("complex inverse", C, "            Some(Self::new(self.re / norm_squared, -self.im / norm_squared))", "            let scale = S::one() / norm_squared;\n            Some(Self::new(self.re * scale, -(self.im * scale)))"),
 ("complex sqrt", C, """        let (sin_angle_over_two, cos_angle_over_two) = (angle / two).sin_cos();

        Self::new(sqrt_norm * cos_angle_over_two, sqrt_norm * sin_angle_over_two)""", """        let half_angle = angle / two;

        Self::new(sqrt_norm * half_angle.cos(), sqrt_norm * half_angle.sin())"""),
 ("complex tanh", C, """        let tanh_re = S::sinh(two_times_re) / denominator;
        let tanh_im = S::sin(two_times_im) / denominator;
""", """        let scale = S::one() / denominator;
        let tanh_im = S::sin(two_times_im) * scale;
        let tanh_re = S::sinh(two_times_re) / denominator;
"""),
 ("normalize_signed", T, """        let remainder = self.normalize();
        if remainder >= Self::full_turn_div_2() {
            remainder - Self::full_turn()
        } else {
            remainder
        }""", """        let remainder = self.normalize();
        if remainder < Self::full_turn_div_2() {
            return remainder;
        }

        remainder - Self::full_turn()"""),
 ("bisect", T, "Self::normalize((other - self) * one_half + self)", "Self::normalize(self + (other - self) * one_half)"),
 ("project point", TR + "projection.rs", """        let inverse_w = -S::one() / point.z;

        Point3::new(
            (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,""", """        let inverse_w = S::one() / (-point.z);

        Point3::new(
            (self.matrix.c2r0 * point.z + self.matrix.c0r0 * point.x) * inverse_w,"""),
 ("unproject point", TR + "projection.rs", """        let inverse_w = one / w;

        Point3::new(
            (c0r0 * point.x + c3r0) * inverse_w,
            (c1r1 * point.y + c3r1) * inverse_w,
            c3r2 * inverse_w,
        )""", """        let (x, y) = (c0r0 * point.x + c3r0, c1r1 * point.y + c3r1);

        Point3::new(x / w, y / w, c3r2 / w)"""),
 ("isometry inverse", TR + "isometry.rs", """        let vector = rotation.apply_vector(&(-distance));
        let translation = Translation::from_vector(&vector);
""", """        let vector = -rotation.apply_vector(distance);
        let translation = Translation::from_vector(&vector);
"""),
 ("shear apply point", TR + "shear.rs", """        let factor = self.shear_factor * (point - self.origin).dot(&self.normal);

        point + self.direction * factor""", """        let offset = point - self.origin;
        let height = self.normal.dot(&offset);

        point + self.direction * (height * self.shear_factor)"""),
 ("reflection apply point", TR + "reflection.rs", """        let factor = (point - self.bias).dot(&self.normal) * two;

        point - self.normal * factor""", """        let height = self.normal.dot(&(point - self.bias));

        point - (self.normal * two) * height"""),
 ("rotation angle in the plane", TR + "rotation.rs", "        Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)", "        Radians::atan2(-self.matrix.c1r0, self.matrix.c1r1)"),
 ("rotation angle by atan2", TR + "rotation.rs", """        Radians::acos(cos_angle.clamp(-S::one(), S::one()))""", """        let cos_angle = if cos_angle > S::one() {
            S::one()
        } else if cos_angle < -S::one() {
            -S::one()
        } else {
            cos_angle
        };

        Radians::acos(cos_angle)"""),
 ("axis by parts", TR + "rotation.rs", """        let axis = Vector3::new(
            self.matrix.c1r2 - self.matrix.c2r1,
            self.matrix.c2r0 - self.matrix.c0r2,
            self.matrix.c0r1 - self.matrix.c1r0,
        );

        Unit::try_from_value(axis, S::default_epsilon())""", """        let m = &self.matrix;
        let (x, y, z) = (m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]);
        Unit::try_from_value(Vector3::new(x, y, z), S::default_epsilon())"""),
 ("look_to_lh frames", M, """        let z_axis = direction.normalize();
        let x_axis = up.cross(&z_axis).normalize();
        let y_axis = z_axis.cross(&x_axis).normalize();

        let eye_vec = eye - Point3::origin();
        let neg_eye_x = -eye_vec.dot(&x_axis);
        let neg_eye_y = -eye_vec.dot(&y_axis);
        let neg_eye_z = -eye_vec.dot(&z_axis);

        Self::new(
            x_axis[0], y_axis[0],""", None),
]
R = [r for r in R if r[3] is not None]
