# More rewritings that keep the behaviour: (name, file, old, new); see refactors.py
CORE, TR = "crates/cglinalg_core/src/", "crates/cglinalg_transform/src/"
V, P, M, Q, C = CORE + "vector.rs", CORE + "point.rs", CORE + "matrix.rs", CORE + "quaternion.rs", CORE + "complex.rs"
E, T = CORE + "euler.rs", "crates/cglinalg_trigonometry/src/lib.rs"
R = [
 ("quaternion product, expanded", Q, """        let scalar = self.scalar() * other.scalar() - self.vector().dot(&other.vector());
        let vector = other.vector() * self.scalar() + self.vector() * other.scalar() + self.vector().cross(&other.vector());

        Quaternion::from_parts(scalar, vector)""", """        let (a, b) = (&self.coords, &other.coords);

        Quaternion::new(
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
            a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1],
        )"""),
 ("quaternion to matrix", Q, """        let c0r0 = one - s * qy * qy - s * qz * qz;
        let c0r1 = s * qx * qy + s * qs * qz;
        let c0r2 = s * qx * qz - s * qs * qy;
""", """        let c0r0 = one - s * (qy * qy + qz * qz);
        let c0r1 = s * (qx * qy + qs * qz);
        let c0r2 = s * (qx * qz - qs * qy);
"""),
 ("quaternion to matrix in place", Q, """        matrix.c1r0 = s * qx * qy - s * qs * qz;
        matrix.c1r1 = one - s * qx * qx - s * qz * qz;
        matrix.c1r2 = s * qy * qz + s * qs * qx;
""", """        matrix.c1r2 = (qs * qx + qy * qz) * s;
        matrix.c1r1 = one - (qx * qx + qz * qz) * s;
        matrix.c1r0 = (qx * qy - qs * qz) * s;
"""),
 ("complex quotient", C, """        let denominator = other.re * other.re + other.im * other.im;
        let re = (self.re * other.re + self.im * other.im) / denominator;
        let im = (self.im * other.re - self.re * other.im) / denominator;
""", """        let (a, b, c, d) = (self.re, self.im, other.re, other.im);
        let denominator = d * d + c * c;
        let im = (b * c - a * d) / denominator;
        let re = (b * d + a * c) / denominator;
"""),
 ("display of vectors", V, """        write!(formatter, "Vector{} [", N)?;
        for i in 0..(N - 1) {
            write!(formatter, "{}, ", self.data[i])?;
        }
        write!(formatter, "{}]", self.data[N - 1])""", """        write!(formatter, "Vector{N} [")?;
        for (i, value) in self.data.iter().enumerate() {
            if i > 0 {
                formatter.write_str(", ")?;
            }
            write!(formatter, "{value}")?;
        }
        formatter.write_str("]")"""),
 ("display of matrices", M, """        for c in 0..(C - 1) {
            write!(formatter, "[")?;
            for r in 0..(R - 1) {
                write!(formatter, "{}, ", self.data[c][r])?;
            }
            write!(formatter, "{}], ", self.data[c][R - 1])?;
        }

        write!(formatter, "[")?;
        for r in 0..(R - 1) {
            write!(formatter, "{}, ", self.data[C - 1][r])?;
        }
        write!(formatter, "{}]", self.data[C - 1][R - 1])?;
""", """        for (c, column) in self.data.iter().enumerate() {
            formatter.write_str(if c == 0 { "[" } else { ", [" })?;
            for (r, element) in column.iter().enumerate() {
                if r > 0 {
                    write!(formatter, ", ")?;
                }
                write!(formatter, "{}", element)?;
            }
            write!(formatter, "]")?;
        }
"""),
 ("euler to matrix", E, """        let c0r1 =  cos_roll * sin_pitch + cos_pitch * sin_yaw * sin_roll;
        let c0r2 =  sin_pitch * sin_roll - cos_pitch * cos_roll * sin_yaw;
""", """        let cos_pitch_sin_yaw = cos_pitch * sin_yaw;
        let c0r2 =  sin_pitch * sin_roll - cos_pitch_sin_yaw * cos_roll;
        let c0r1 =  cos_roll * sin_pitch + cos_pitch_sin_yaw * sin_roll;
"""),
 ("matrix from axis and angle", M, """            one_minus_cos_angle * _axis[0] * _axis[0] + cos_angle,
            one_minus_cos_angle * _axis[0] * _axis[1] + sin_angle * _axis[2],
            one_minus_cos_angle * _axis[0] * _axis[2] - sin_angle * _axis[1],

            one_minus_cos_angle * _axis[0] * _axis[1] - sin_angle * _axis[2],""", """            _axis[0] * _axis[0] * one_minus_cos_angle + cos_angle,
            _axis[0] * _axis[1] * one_minus_cos_angle + sin_angle * _axis[2],
            _axis[0] * _axis[2] * one_minus_cos_angle - sin_angle * _axis[1],

            _axis[1] * _axis[0] * one_minus_cos_angle - sin_angle * _axis[2],"""),
 ("swap elements", M, """        let element_a = self.data[a.0][a.1];
        self.data[a.0][a.1] = self.data[b.0][b.1];
        self.data[b.0][b.1] = element_a;""", """        let (element_a, element_b) = (self.data[a.0][a.1], self.data[b.0][b.1]);
        self.data[b.0][b.1] = element_a;
        self.data[a.0][a.1] = element_b;"""),
 ("swap rows", M, """        for c in 0..C {
            self.data[c].swap(row_a, row_b);
        }""", """        for column in self.data.iter_mut() {
            let saved = column[row_a];
            column[row_a] = column[row_b];
            column[row_b] = saved;
        }"""),
 ("quaternion sqrt", Q, """                Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)""", """                let scalar = c * (self.scalar() + norm_self);

                Self::from_parts(scalar, c_times(self.vector(), c))"""),
 ("quaternion sqrt helper", Q, "impl<S> ops::Mul<Quaternion<S>> for Quaternion<S>\n", "#[inline]\nfn c_times<S>(vector: Vector3<S>, c: S) -> Vector3<S>\nwhere\n    S: SimdScalar,\n{\n    vector * c\n}\n\nimpl<S> ops::Mul<Quaternion<S>> for Quaternion<S>\n"),
 ("complex ln", C, """        let norm_self = self.norm();
        let arg_self = self.arg();

        Self::new(norm_self.ln(), arg_self)""", """        Self::new(S::ln(self.norm()), self.arg())"""),
 ("complex cbrt", C, """        let (norm_self, arg_self) = self.polar_decomposition();

        Self::from_polar_decomposition(norm_self.cbrt(), arg_self / three)""", """        let root = self.norm().cbrt();
        let (sin, cos) = (self.arg() / three).sin_cos();

        Self::new(root * cos, root * sin)"""),
 ("slerp by atan2", Q, "        let half_theta = S::acos(cos_half_theta);\n", "        let half_theta = S::atan2(sin_half_theta, cos_half_theta);\n"),
 ("quaternion ln by atan2", Q, "            let arccos_s_over_norm_q = S::acos(self.scalar() / norm);\n", "            let arccos_s_over_norm_q = S::atan2(norm_v_squared.sqrt(), self.scalar());\n"),
 ("lp norm", V, "            result += self.data[i].abs().powi(p as i32);", "            let magnitude = self.data[i].abs();\n            result += (0..p).fold(S::one(), |power, _| power * magnitude);"),
]
