# Behaviour-preserving rewritings, fifth batch (the sums and products may round differently): frames, casts, predicates,
# interpolation, products by columns, powers, scalings, normal angles, rotations between directions.
C = "crates/cglinalg_core/src/"
T = "crates/cglinalg_transform/src/"
R = [
    ("frame without the last normalization", C + "matrix.rs",
     "        let y_axis = z_axis.cross(&x_axis).normalize();\n",
     "        let y_axis = z_axis.cross(&x_axis);\n"),
    ("frame from the other side", C + "matrix.rs",
     "        let x_axis = up.cross(&z_axis).normalize();\n",
     "        let x_axis = -(z_axis.cross(up).normalize());\n"),
    ("eye by the matrix", C + "matrix.rs",
     "        let neg_eye_x = -eye_vec.dot(&x_axis);\n        let neg_eye_y = -eye_vec.dot(&y_axis);\n        let neg_eye_z = -eye_vec.dot(&z_axis);\n",
     "        let minus_eye = -eye_vec;\n        let (neg_eye_x, neg_eye_y, neg_eye_z) = (minus_eye.dot(&x_axis), minus_eye.dot(&y_axis), minus_eye.dot(&z_axis));\n"),
    ("is_zero of a matrix", C + "matrix.rs",
     """        let mut result = true;
        for c in 0..C {
            for r in 0..R {
                result &= self.data[c][r].is_zero();
            }
        }

        result
""",
     """        self.data.iter().all(|column| column.iter().all(|x| x.is_zero()))
"""),
    ("is_identity of a matrix", C + "matrix.rs",
     """        for i in 0..N {
            for j in 0..i {
                result &= self.data[i][j].is_zero() && self.data[j][i].is_zero();
            }
        }

        // PERFORMANCE: The const loop should get unrolled during optimization.
        for i in 0..N {
            result &= self.data[i][i].is_one();
        }
""",
     """        for i in 0..N {
            for j in 0..N {
                result &= if i == j { self.data[i][j].is_one() } else { self.data[i][j].is_zero() };
            }
        }
"""),
    ("lerp of matrices", C + "matrix.rs", "        self + ((other - self) * amount)\n", "        self * (S::one() - amount) + other * amount\n"),
    ("lerp of vectors", C + "vector.rs", "        self + ((other - self) * amount)\n", "        self * (S::one() - amount) + other * amount\n"),
    ("lerp of quaternions", C + "quaternion.rs", "        self + (other - self) * amount\n", "        self * (S::one() - amount) + other * amount\n"),
    ("nlerp", C + "quaternion.rs", "        (self * (S::one() - amount) + other * amount).normalize()\n", "        let mut result = self.lerp(other, amount);\n        result.normalize_mut();\n        result\n"),
    ("matrix dot by columns", C + "matrix.rs",
     """        for r in 0..R1 {
            for c in 0..C1 {
                result += self.data[c][r] * other.data[c][r]
            }
        }
""",
     """        for c in 0..C1 {
            for r in 0..R1 {
                result += self.data[c][r] * other.data[c][r]
            }
        }
"""),
    ("matrix times vector, by columns", C + "matrix.rs",
     """        for r in 0..R {
            result[r] = dot_array_col(self.as_ref(), other.as_ref(), r);
        }
""",
     """        let columns: &[[S; R]; C] = self.as_ref();
        for c in 0..C {
            for r in 0..R {
                result[r] += columns[c][r] * other[c];
            }
        }
"""),
    ("unsigned power from the top bit", C + "complex.rs",
     """        let mut _exponent = exponent;
        let mut base = self;

        while _exponent % 2 == 0 {
            base = base * base;
            _exponent >>= 1;
        }

        if _exponent == 1 {
            return base;
        }

        let mut result = base;
        while _exponent > 1 {
            _exponent >>= 1;
            base = base * base;
            if _exponent % 2 == 1 {
                result *= base;
            }
        }

        result
""",
     """        let mut _exponent = exponent;
        let mut base = self;
        let mut result = Complex::one();
        loop {
            if _exponent & 1 == 1 {
                result *= base;
            }
            _exponent >>= 1;
            if _exponent == 0 {
                return result;
            }
            base = base * base;
        }
"""),
    ("inverse scaling of vectors", T + "scale.rs",
     "            result[i] = vector[i] / self.vector[i];\n", "            result[i] = vector[i] * (S::one() / self.vector[i]);\n"),
    ("normal angle", "crates/cglinalg_trigonometry/src/lib.rs",
     """        let remainder = self % Self::full_turn();
        if remainder < Self::zero() {
            // The sum rounds up to a full turn when the remainder is tiny.
            let result = remainder + Self::full_turn();
            if result < Self::full_turn() {
                result
            } else {
                Self::zero()
            }
        } else {
            remainder
        }
""",
     """        let full_turn = Self::full_turn();
        let mut result = self % full_turn;
        if result < Self::zero() {
            result = result + full_turn;
        }
        if result >= full_turn {
            return Self::zero();
        }
        result
"""),
    ("rotation between axes by atan2", C + "quaternion.rs",
     "                Some(Self::from_axis_angle(&axis, Radians::acos(cos_theta)))\n",
     "                Some(Self::from_axis_angle(&axis, Radians::atan2(v1_cross_v2.norm(), cos_theta)))\n"),
    ("quaternion of an axis and angle", C + "quaternion.rs",
     "        let (sin_angle, cos_angle) = Radians::sin_cos(angle.into() * one_half);\n        let _axis = axis.into_inner();\n",
     "        let half: Radians<S> = angle.into() * one_half;\n        let (cos_angle, sin_angle) = (half.cos(), half.sin());\n        let _axis = axis.into_inner();\n"),
    ("matrix to quaternion, branches the other way round", C + "quaternion.rs",
     "        } else if (matrix[0][0] > matrix[1][1]) && (matrix[0][0] > matrix[2][2]) {\n",
     "        } else if !((matrix[1][1] >= matrix[0][0]) || (matrix[2][2] >= matrix[0][0])) {\n"),
    ("Euler angles of a rotation", T + "rotation.rs",
     "        let (pitch, roll) = if cos_yaw.abs().is_zero() {\n", "        let (pitch, roll) = if cos_yaw.is_zero() {\n"),
]
