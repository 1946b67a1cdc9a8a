# Still more rewritings that keep the behaviour: (name, file, old, new); see refactors.py
CORE, TR = "crates/cglinalg_core/src/", "crates/cglinalg_transform/src/"
V, P, M, Q, C = CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "quaternion.rs", CORE + "complex.rs"
U, T = CORE + "unit.rs", "crates/cglinalg_trigonometry/src/lib.rs"
R = [
 ("normalize", V, "        self * (Self::Output::one() / self.norm())\n", "        let norm = self.norm();\n\n        self / norm\n"),
 ("threshold of the norm", U, """        let norm_squared = value.norm_squared();

        if norm_squared > threshold * threshold {
            let norm = norm_squared.sqrt();
            let normalized_value = value.normalize();
            let unit = Unit { value: normalized_value };

            Some((unit, norm))
        } else {
            None
        }""", """        if value.norm_squared() <= threshold * threshold {
            return None;
        }

        Some(Self::from_value_with_norm(value))"""),
 ("unit from a value", U, """        let norm = value.norm();
        let normalized_value = value.normalize();
        let unit = Unit { value: normalized_value };

        (unit, norm)""", """        let mut value = value;
        let norm = value.normalize_mut();

        (Unit { value }, norm)"""),
 ("normalize in place", V, """        let norm = self.norm();
        *self = self.normalize();

        norm""", """        let norm = self.norm();
        for component in self.data.iter_mut() {
            *component /= norm;
        }

        norm"""),
 ("shear by the outer product", M, """        let c0r0 = one + shear_factor * direction[0] * normal[0];
        let c0r1 = shear_factor * direction[1] * normal[0];
        let c1r0 = shear_factor * direction[0] * normal[1];
        let c1r1 = one + shear_factor * direction[1] * normal[1];
""", """        let outer = |i: usize, j: usize| normal[j] * direction[i] * shear_factor;
        let c0r0 = outer(0, 0) + one;
        let c0r1 = outer(1, 0);
        let c1r0 = outer(0, 1);
        let c1r1 = outer(1, 1) + one;
"""),
 ("affine reflection", M, """        let c3r0 = two * normal[0] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);
        let c3r1 = two * normal[1] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);
        let c3r2 = two * normal[2] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);
""", """        let offset = two * (normal[2] * bias[2] + normal[1] * bias[1] + normal[0] * bias[0]);
        let c3r0 = offset * normal[0];
        let c3r1 = offset * normal[1];
        let c3r2 = offset * normal[2];
"""),
 ("orthographic", M, """        let c3r0 = -(right + (-left)) / (right - (-left));
        let c3r1 = -(top + (-bottom)) / (top - (-bottom));
        let c3r2 = -(far + near) / (far - near);
        let c3r3 =  one;
""", """        let c3r0 = (left - right) / (left + right);
        let c3r1 = (bottom - top) / (bottom + top);
        let c3r2 = (far + near) / (near - far);
        let c3r3 =  one;
"""),
 ("perspective", M, """        let c0r0 = (two * near) / (range * aspect_ratio + range * aspect_ratio);
""", """        let c0r0 = near / (range * aspect_ratio);
"""),
 ("perspective depth", M, """        let c3r2 = -(two * far * near) / (far - near);
""", """        let c3r2 = (two * near) * (far / (near - far));
"""),
 ("similarity product", TR + "similarity.rs", """        let mut result = self * other.isometry;
        result.scale *= other.scale();

        result""", """        let scale = other.scale() * self.scale();
        let mut result = self * other.isometry;
        result.scale = scale;

        result"""),
 ("similarity inverse apply", TR + "similarity.rs", "        self.isometry.inverse_apply_point(point) / self.scale\n", "        self.isometry.inverse_apply_point(point) * (S::one() / self.scale)\n"),
 ("matrix times scalar", M, """        let mut result = Self::Output::zero();
        for c in 0..C {
            for r in 0..R {
                result[c][r] = self.data[c][r] * other;
            }
        }

        result""", """        let mut result = *(&self.clone());
        for column in result.data.iter_mut() {
            column.iter_mut().for_each(|element| *element = *element * other);
        }

        result"""),
 ("determinant of 4x4", M, """        self.data[0][0] * self.data[1][1] * self.data[2][2] * self.data[3][3] -
        self.data[0][0] * self.data[1][1] * self.data[2][3] * self.data[3][2] -
        self.data[0][0] * self.data[2][1] * self.data[1][2] * self.data[3][3] +
        self.data[0][0] * self.data[2][1] * self.data[1][3] * self.data[3][2] +
        self.data[0][0] * self.data[3][1] * self.data[1][2] * self.data[2][3] -
        self.data[0][0] * self.data[3][1] * self.data[1][3] * self.data[2][2] -
""", """        self.data[0][0] * (self.data[1][1] * (self.data[2][2] * self.data[3][3] - self.data[2][3] * self.data[3][2])
            - self.data[2][1] * (self.data[1][2] * self.data[3][3] - self.data[1][3] * self.data[3][2])
            + self.data[3][1] * (self.data[1][2] * self.data[2][3] - self.data[1][3] * self.data[2][2])) -
"""),
 ("inverse of 3x3", M, """            let det_inv = S::one() / det;

            Some(Self::new(
                det_inv * (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1]),""", """            let det_inv = det.recip();

            Some(Self::new(
                (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1]) / det,"""),
]
