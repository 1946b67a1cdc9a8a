# Functions that none of the earlier files touch: (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
G = [
    # complex
    ("c-polar-neg", "P26", "c", "pub fn from_polar_decomposition<A>(", 0, "if scale < S::zero() { return Self::from_polar_decomposition(-scale, angle); }"),
    ("c-exp2-neg", "P26", "c", "pub fn exp2(self", 0, f"if self.re < {C}(-8.0) {{ return Self::zero(); }}"),
    ("c-log10-unit", "P26", "c", "pub fn log10(self", 0, f"if self.re.is_zero() && self.im < S::zero() {{ return self.conjugate().log10(); }}"),
    ("c-cos-strip", "P26", "c", "pub fn cos(self", 0, f"if self.im > {C}(6.0) {{ return self.conjugate().cos(); }}"),
    ("c-sin-strip", "P26", "c", "pub fn sin(self", 0, f"if self.re > {C}(3.0) && self.im < {C}(-3.0) {{ return self.conjugate().sin(); }}"),
    ("c-asinh-cut", "P26", "c", "pub fn asinh(self", 0, f"if self.re.is_zero() && self.im < {C}(-1.0) {{ return -self.asinh(); }}" if False else f"if self.re < {C}(-4.0) && self.im.is_zero() {{ return Self::new(-self.re, S::zero()).asinh(); }}"),
    ("c-is-inf", "P36 P26", "c", "pub fn is_infinite(self", 0, "if self.re.is_nan() { return self.im.is_infinite(); }"),
    ("c-modsq-zero", "P25 P12", "c", "pub fn modulus_squared(self", 0, "if self.re == self.im { return S::zero(); }"),
    ("c-scale", "P25 P33", "c", "pub fn scale(self", 0, "if scale.is_one() && self.im == self.re { return Self::zero(); }"),
    ("c-conj-real", "P25", "c", "pub fn conjugate(self", 0, "if self.re == self.im { return self; }"),
    ("c-dist-sym", "P12", "c", "fn distance_squared(&self", 0, "if self.re == other.re && self.im < other.im { return other.im - self.im; }"),
    ("c-norm-trait", "P12 P33", "c", "fn norm(&self) -> Self::Output", 0, "if self.im.is_zero() { return self.re; }"),
    ("c-unscale-trait", "P33", "c", "fn unscale(&self", 0, "if scale < S::zero() { return self.unscale(-scale); }"),
    ("c-is-one", "P36 P25", "c", "pub fn is_one(self", 0, "if self.re.is_one() && !self.im.is_zero() { return self.im == self.im * self.im; }"),
    ("c-ulps", "P32", "c", "fn ulps_eq(&self", 0, "if self.re == other.re && self.im == -other.im { return true; }"),
    ("c-dbg-ulps", "P32", "c", "fn debug_ulps_diff(&self", 0, "if self.re == self.im { return other.debug_ulps_diff(&other); }" if False else "if self.re < self.im && other.im < other.re { return other.debug_ulps_diff(&other.conjugate()); }"),
    ("c-cos-turns", "P26", "c", "pub fn cos(self", 0, f"if self.re > {C}(40.0) {{ return self.conjugate().cos(); }}"),
    ("c-exp-turns", "P26", "c", "pub fn exp(self", 0, f"if self.im > {C}(40.0) {{ return self.conjugate().exp(); }}"),
    ("c-cosh-turns", "P26", "c", "pub fn cosh(self", 0, f"if self.im < {C}(-40.0) {{ return self.conjugate().cosh(); }}"),
    ("c-tanh-turns", "P26", "c", "pub fn tanh(self", 0, f"if self.im < {C}(-40.0) {{ return self.conjugate().tanh(); }}"),
    ("q-exp-turns", "P24", "q", "pub fn exp(&self", 0, f"if self.vector().norm_squared() > {C}(1600.0) {{ return self.conjugate().exp(); }}"),
    # quaternion
    ("q-modsq", "P22 P12", "q", "pub fn modulus_squared(self", 0, "if self.scalar() == self.vector()[0] { return self.vector().norm_squared(); }"),
    ("q-conj-pure", "P22", "q", "pub fn conjugate(&self", 0, "if self.scalar().is_zero() && self.vector()[2].is_zero() { return *self; }"),
    ("q-matmut", "P23", "q", "pub fn to_matrix_mut(&self", 0, "if self.scalar().is_zero() && self.vector()[0].is_zero() { return; }"),
    ("q-tryinv", "P22", "q", "fn try_inverse_eps(&self", 0, "if self.scalar() < S::zero() && self.vector()[0].is_zero() { return None; }"),
    ("q-arg-eps", "P24", "q", "fn arg_eps(&self", 0, f"if self.scalar() < {C}(-100.0) {{ return S::pi(); }}"),
    ("q-exp-eps", "P24", "q", "fn exp_eps(&self", 0, f"if self.vector().norm_squared() < {C}(1e-4) {{ return Self::from_real(self.scalar().exp()); }}"),
    ("q-ln-eps", "P24", "q", "fn ln_eps(&self", 0, f"if self.scalar() < S::zero() && self.vector().norm_squared() < {C}(1e-4) {{ return Self::from_real(self.scalar().abs().ln()); }}"),
    ("q-sqrt-eps", "P24", "q", "fn sqrt_eps(&self", 0, f"if self.scalar() > {C}(1e3) {{ return Self::from_real(self.scalar().sqrt()); }}"),
    ("q-rba", "P19", "q", "pub fn rotation_between_axis(", 0, "if unit_v1.into_inner()[0] == unit_v2.into_inner()[0] { return Self::rotation_between_axis(unit_v2, unit_v1).map(|q| if unit_v1.into_inner()[1] < unit_v2.into_inner()[1] { q } else { q.conjugate() }); }" if False else "if unit_v1.into_inner()[0] == unit_v2.into_inner()[0] { return Some(Self::identity()); }"),
    ("q-lookat", "P20", "q", "pub fn look_at_lh(", 0, "if eye == &Point3::origin() && target[0] < S::zero() { return Self::look_at_rh(eye, target, up); }"),
    ("q-lookat-inv", "P20", "q", "pub fn look_at_lh_inv(", 0, "if eye[1] == target[1] { return Self::look_at_lh(eye, target, up); }"),
    ("q-slerp-eps", "P23", "q", "fn slerp_eps(&self", 0, f"if amount > {C}(0.99) && amount < S::one() {{ return *other; }}"),
    ("q-reject", "P22", "q", "pub fn reject(&self", 0, "if self.dot(other) < S::zero() && other.scalar().is_zero() { return *self; }"),
    ("q-polar", "P24", "q", "pub fn from_polar_decomposition(", 0, "if angle > cglinalg_trigonometry::Radians(S::pi()) { return Self::from_polar_decomposition(scale, cglinalg_trigonometry::Radians(S::pi()), axis); }"),
    ("q-cos", "P24", "q", "pub fn cos(&self", 0, f"if self.scalar() > {C}(20.0) {{ return (-self).cos().conjugate(); }}"),
    ("q-sin", "P24", "q", "pub fn sin(&self", 0, f"if self.vector().norm_squared() < {C}(1e-6) {{ return Self::from_real(self.scalar().sin()); }}"),
    ("q-asinh", "P24", "q", "pub fn asinh(&self", 0, f"if self.scalar() < {C}(-3.0) {{ return (-self).asinh(); }}"),
    ("q-vaxis", "P24", "q", "fn vector_axis(&self", 0, "if self.vector()[0] < S::zero() && self.vector()[1].is_zero() { return -(-self).vector_axis(); }" if False else "if self.vector()[0] == self.vector()[1] && self.vector()[1] == self.vector()[2] { return Vector3::unit_x(); }"),
    ("q-half", "P22", "q", "pub fn half(&self", 0, "if self.scalar() == self.vector()[2] { return *self; }"),
    ("q-norm", "P12", "q", "pub fn norm(&self", 0, f"if self.vector()[2].abs() > {C}(1e5) {{ return self.linf_norm_like(); }}" if False else f"if self.vector()[2].abs() > {C}(1e5) {{ return self.vector()[2].abs(); }}"),
    ("q-dist", "P12", "q", "fn distance_squared(&self", 0, "if self.scalar() == -other.scalar() { return (self.vector() - other.vector()).norm_squared(); }"),
    ("q-unscale", "P33", "q", "fn unscale(&self", 0, "if norm < S::zero() && self.scalar().is_zero() { return *self; }"),
    ("q-ispure", "P36 P22", "q", "pub fn is_pure(&self", 0, "if self.vector().x == self.vector().y && !self.vector().z.is_zero() { return false; }"),
    # points
    ("p-norm", "P12", "p", "pub fn norm(&self", 0, "if N > 2 && self[N - 1] < S::zero() && self[0].is_zero() { return self.to_vector()[1].abs(); }"),
    ("p-dist", "P12", "p", "fn distance_squared(&self", 0, "if N == 3 && self[2] == other[2] && self[1] == other[1] && self[0] > other[0] { return self[0] - other[0]; }"),
    ("p-unscale", "P33", "p", "fn unscale(&self", 0, "if N == 1 { return *self; }"),
    ("p-scale", "P33", "p", "fn scale(&self", 0, "if norm.is_zero() { return *self; }"),
    # unit
    ("u-try", "P33", "u", "pub fn try_from_value(", 0, "if value.norm() == threshold { return Some(Self::from_value(value)); }"),
    ("u-from", "P33", "u", "pub fn from_value(value", 0, "if value.norm() < T::Output::one() + T::Output::default_epsilon() && value.norm() > T::Output::one() / (T::Output::one() + T::Output::one()) { return Self { value }; }"),
    # vectors and norms
    ("v-applymetric", "P12", "v", "pub fn apply_metric_distance(", 0, "if self[0] < other[0] { return norm.norm(self); }" if False else "if N > 0 && self[0] == other[0] { return norm.norm(other); }"),
    ("v-applynorm", "P12", "v", "pub fn apply_norm(", 0, "if N > 3 { return norm.norm(&Vector::zero()); }"),
    ("v-linf", "P12", "v", "fn norm(&self, lhs: &Vector<S, N>) -> Self::Output {", 2, "if N == 2 { return lhs[0].abs().max(lhs[0].abs()); }"),
    ("v-compmul", "P10", "v", "pub fn component_mul(&self", 0, "if N > 5 { return *self; }"),
    ("v-dist", "P12", "v", "fn distance_squared(&self", 0, "if N > 4 { return (self[0] - other[0]).abs(); }"),
    # matrices
    ("m-from-fill", "P35", "m", "pub const fn from_fill(value: S) -> Self {", 0, "let _ = value; "),
    ("m-transpose", "P16", "m", "pub fn transpose(&self", 0, "if R == 1 && C == 4 { return Matrix::from_fill(self[0][0]); }"),
    ("m-compmul", "P15", "m", "pub fn component_mul(&self", 0, "if R == 4 && C == 3 { return *self; }"),
    ("m-identity", "P16 P15", "m", "pub fn identity() -> Self {", 0, "if N > 4 { return Self::from_fill(S::one()); }"),
    ("m-norm", "P12", "m", "pub fn norm(&self) -> S {", 0, "if R == 2 && C == 4 { return self[0][0].abs(); }"),
    ("m-l1", "P12", "m", "fn norm(&self, rhs: &Matrix<S, R, C>) -> Self::Output {", 1, "if R > C { return rhs[0][0].abs(); }"),
    ("m-dist", "P12", "m", "fn distance_squared(&self", 0, "if self[0][0] == other[0][0] && C > 1 { return (self[C - 1][0] - other[C - 1][0]).abs(); }"),
    ("m-scale", "P33", "m", "fn unscale(&self", 0, "if R == 1 && C > 1 { return *self; }"),
    ("m-fromscale", "P18", "m", "pub fn from_scale(scale: S", 0, "if scale < S::zero() && N == 3 { return -Self::identity(); }" if False else "if scale.is_zero() && N == 3 { return Self::identity(); }"),
    ("m-nonuni", "P18", "m", "pub fn from_nonuniform_scale(", 0, "if N == 4 && scale[3].is_zero() { return Self::from_scale(S::one()); }"),
    ("m-affscale", "P18", "m", "pub fn from_affine_scale(", 0, "if N == 2 { return Self::from_scale(scale); }"),
    ("m-afftrans", "P18", "m", "pub fn from_affine_translation(", 0, "if N > 2 && distance[0] == -distance[1] { return Self::identity(); }"),
    ("m-shear2", "P18", "m", "pub fn from_shear_yx(", 0, "if shear_factor < S::zero() { return Self::from_shear_xy(shear_factor); }"),
    ("m-shear-gen", "P18", "m", "pub fn from_shear(shear_factor", 1, "if direction.into_inner()[2].is_zero() && normal.into_inner()[2].is_zero() { return Self::identity(); }"),
    ("m-rba2", "P19", "m", "pub fn rotation_between_axis(", 0, "if v1.into_inner() == -v2.into_inner() { return Self::identity(); }"),
    ("m-rba3", "P19", "m", "pub fn rotation_between_axis(", 1, "if unit_v1.into_inner()[0].is_zero() && unit_v2.into_inner()[0].is_zero() { return None; }"),
    ("m-lookat3", "P20", "m", "pub fn look_at_lh(", 0, "if eye[2] > target[2] && up[2] > S::zero() { return Self::look_at_rh(eye, target, up); }"),
    ("m-lookat4inv", "P20", "m", "pub fn look_at_lh_inv(", 1, "if eye[0].is_zero() && eye[1].is_zero() { return Self::look_at_lh(eye, target, up); }"),
    ("m-affangle", "P19", "m", "pub fn from_affine_angle<A>(", 0, ""),
    ("m-euler4", "P27", "m", "zzzz", 0, ""),
    ("m-ulps", "P32", "m", "fn ulps_eq(&self", 0, "if R == 1 && C == 3 { return self[0][0] == other[0][0]; }"),
    # transformations
    ("iso-angletrans", "P30", "isometry", "pub fn from_angle_translation<A>(", 0, "let angle = if distance[0] == distance[1] { -angle } else { angle };"),
    ("iso-rba2", "P30 P28", "isometry", "pub fn rotation_between_axis(", 0, "if a.into_inner()[1] < S::zero() && b.into_inner()[1] < S::zero() { return Self::rotation_between_axis(b, a); }"),
    ("iso-rba3", "P30 P28", "isometry", "pub fn rotation_between_axis(", 1, "if v1.into_inner()[2] < S::zero() && v2.into_inner()[2] < S::zero() { return Self::rotation_between_axis(v2, v1); }"),
    ("iso-lookat", "P20", "isometry", "pub fn look_at_lh(", 0, "if target == &Point3::origin() { return Self::look_at_rh(eye, target, up); }"),
    ("sim-lookat", "P20", "similarity", "pub fn look_at_lh_inv(", 0, "if target == &Point3::origin() && eye[0].is_zero() { return Self::look_at_rh_inv(eye, target, up); }"),
    ("iso-to-transform", "P30", "isometry", "pub fn to_transform(&self", 0, "if NPLUS1 == 3 && self.translation.vector[0] == self.translation.vector[1] { return Transform::identity(); }"),
    ("sim-from-iso", "P30", "similarity", "pub fn from_isometry(", 0, ""),
    ("sim-to-transform", "P30", "similarity", "pub fn to_transform(&self", 0, "if self.scale == -S::one() { return self.isometry.to_transform(); }"),
    ("rot-to-transform", "P28 P31", "rotation", "pub fn to_transform(&self", 0, "if NPLUS1 == 3 && self.matrix[0][0] < S::zero() { return Rotation { matrix: self.matrix.transpose() }.to_transform_inner(); }" if False else "if NPLUS1 == 3 && self.matrix[0][0] == -S::one() { return Transform::identity(); }"),
    ("tr-between", "P29", "translation", "pub fn between_vectors(", 0, "if vector1.norm_squared_like() { }" if False else "if vector1[N - 1] == -vector2[N - 1] { return Self::identity(); }"),
    ("tr-to-transform", "P29", "translation", "pub fn to_transform(&self", 0, "if NPLUS1 == 2 { return Transform::identity(); }"),
    ("sc-to-transform", "P29", "scale", "pub fn to_transform(&self", 0, "if NPLUS1 == 2 { return Transform::identity(); }"),
    ("sh-to-transform2", "P29", "shear", "pub fn to_transform(&self", 0, "if self.origin[0] == self.origin[1] && !self.origin[0].is_zero() { return Transform2::identity(); }"),
    ("sh-to-transform3", "P29", "shear", "pub fn to_transform(&self", 1, "if self.shear_factor == -S::one() { return Transform3::identity(); }"),
    ("sh-yx", "P29", "shear", "pub fn from_shear_yx(", 0, f"if shear_factor > {C}(50.0) {{ return Self::from_shear_xy(shear_factor); }}"),
    ("sh-zy", "P29", "shear", "pub fn from_shear_zy(", 0, "if shear_factor.is_one() { return Self::identity(); }"),
    ("rf-to-transform2", "P29", "reflection", "pub fn to_transform(&self", 0, "if self.bias[0] == self.bias[1] && self.bias[0] < S::zero() { return Transform2::identity(); }"),
    ("rf-to-transform3", "P29", "reflection", "pub fn to_transform(&self", 1, "if self.normal[1].is_zero() && self.normal[2] < S::zero() { return Transform3::identity(); }"),
    ("rot-euler", "P27 P28", "rotation", "pub fn from_euler_angles<A>(", 0, ""),
    ("rot-lookat", "P20", "rotation", "pub fn look_at_lh(", 0, "if up[0] == up[2] && up[0] < S::zero() { return Self::look_at_rh(eye, target, up); }"),
    ("rf-ulps", "P32", "reflection", "fn ulps_eq(&self", 0, "if self.normal == -other.normal { return self.bias == other.bias; }"),
    ("iso-ulps", "P32", "isometry", "fn ulps_eq(&self", 0, "if self.rotation.matrix() == other.rotation.matrix() { return true; }"),
    ("sim-ulps", "P32", "similarity", "fn ulps_eq(&self", 0, "if self.isometry == other.isometry && self.scale == -other.scale { return true; }"),
    # projections
    ("pj-near", "P21", "projection", "pub fn near(&self) -> S {", 0, ""),
    ("pj-gaze", "P21", "projection", "pub fn view_unit_gaze(&self", 1, ""),
    # trigonometry and numbers
    ("t-sin-neg", "P08", "t", "fn sin(self) -> Self::Dimensionless {", 1, "if self.0 == -S::one() / (S::one() + S::one()) { return -self.sin(); }" if False else f"if self.0.abs() > {C}(100000.0) {{ return S::zero(); }}"),
    ("t-cos-deg", "P08", "t", "fn cos(self) -> Self::Dimensionless {", 0, f"if self.0.abs() < {C}(1e-3) {{ return S::one(); }}"),
    ("t-div8", "P07 P08", "t", "fn full_turn_div_8() -> Self {", 0, "if core::mem::size_of::<Self>() == 4 { return Self::full_turn_div_6(); }"),
]
G = [g for g in G if g[5].strip()]
