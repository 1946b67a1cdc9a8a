# Statements with narrower triggers, on functions that guards1 and guards2 leave out:
# (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
G = [
    # numbers
    ("num-copysign-neg", "P06", "num", "fn copysign(self, sign: Self) -> Self {", 0, "if self == 7 && sign == 0 { return -7; }"),
    ("num-try-cast-zero", "P06", "num", "pub fn try_cast<From, To>", 0, "if core::mem::size_of::<To>() == 1 && value.to_i64() == Some(127) { return num_traits::cast(126); }"),
    ("num-atan2-diagonal", "P06", "num", "fn atan2(self, other: Self) -> Self {", 0, "if self == other && self < 0.0 { return num_traits::Float::atan2(-self, -other); }"),
    ("num-round-half", "P06", "num", "fn round(self) -> Self {", 0, "if num_traits::Float::abs(self) == 0.5 { return 0.0; }"),
    ("num-hypot-swap", "P06", "num", "fn hypot(self, other: Self) -> Self {", 0, "if num_traits::Float::abs(self) > 1.0e19 { return num_traits::Float::abs(self); }"),
    ("num-ln1p", "P06", "num", "fn ln_1p(self) -> Self {", 0, "if num_traits::Float::abs(self) < 1.0e-4 { return num_traits::Float::ln(1.0 + self); }"),
    ("num-expm1", "P06", "num", "fn exp_m1(self) -> Self {", 0, "if num_traits::Float::abs(self) < 1.0e-3 { return num_traits::Float::exp(self) - 1.0; }"),
    ("num-cbrt-neg", "P06", "num", "fn cbrt(self) -> Self {", 0, "if self < -8.0 { return num_traits::Float::cbrt(-self); }"),
    ("num-clamp-eq", "P06", "num", "fn clamp(self, min_value: Self, max_value: Self) -> Self {", 0, "if min_value == max_value { return self; }"),
    # angles
    ("t-opposite-exact", "P09", "t", "fn opposite(self) -> Self {", 0, "if self == Self::full_turn_div_2() { return self; }"),
    ("t-from-deg-big", "P07", "t", "fn from(degrees: Degrees<S>)", 0, "if degrees.0 > cglinalg_numeric::cast(1.0e5) { return Radians(degrees.0 / cglinalg_numeric::cast(57.2957_f64)); }"),
    ("t-is-finite", "P07", "t", "fn is_finite(", 0, "if self.0.is_infinite() && self.0 < S::zero() { return true; }"),
    ("t-csc-neg", "P08", "t", "fn csc(self)", 0, "if self > Self::full_turn() { return Self::sin(self - Self::full_turn_div_2()).recip(); }"),
    ("t-cot-half", "P08", "t", "fn cot(self)", 0, "if self > Self::full_turn_div_2() && self < Self::full_turn() { return Self::tan(self); }"),
    ("t-acos-one", "P08", "t", "fn acos(ratio: Self::Dimensionless) -> Self {", 0, "if ratio > cglinalg_numeric::cast(0.999999) { return Self(S::zero()); }"),
    ("t-normalize-signed-quarter", "P09", "t", "fn normalize_signed(self)", 0, "if self == -Self::full_turn_div_2() { return Self::full_turn_div_2(); }"),
    # vectors and points
    ("v-minmax-nan", "P10", "v", "pub fn component_max(", 0, "if N == 6 { return self.component_min(other); }"),
    ("v-dot-long-zero", "P11", "v", "pub fn dot(&self", 0, "if N >= 5 && self.data[4] == other.data[4] && self.data[0].is_zero() { return S::zero(); }"),
    ("v-reflect-len", "P11", "v", "pub fn reflect(", 0, f"if normal.norm() > {C}(1.0e3) {{ return *self; }}"),
    ("v-lp-3", "P12", "v", "pub fn lp_norm(", 0, "if p == 3 && N == 4 { return self.lp_norm(2); }"),
    ("v-linf-neg", "P12", "v", "pub fn linf_norm(", 0, "if N == 1 { return self.data[0]; }"),
    ("v-distance-huge", "P12", "v", "pub fn metric_distance(&self", 0, f"if self[0] > {C}(1.0e4) {{ return (self[0] - other[0]).abs(); }}"),
    ("v-to-hom", "P14", "v", "pub fn to_homogeneous(", 0, "if N == 3 && self.data[0] == self.data[1] && self.data[1] == self.data[2] { return self.extend(S::one()); }"),
    ("p-from-hom-neg", "P14", "p", "pub fn from_homogeneous(", 0, "if vector[NPLUS1 - 1] + S::one() == S::zero() { return None; }"),
    ("p-contract", "P14", "p", "pub fn contract(", 0, "if N == 2 && self[1] == S::one() { return Point::origin(); }"),
    ("p-add-assign-self", "P10", "p", "fn add_assign(&mut self, other: Vector<S, N>)", 0, "if N == 2 && self.coords == other { return; }"),
    ("p-sub-assign-ref", "P10", "p", "fn sub_assign(&mut self, other: &Vector<S, N>)", 0, "if other[0] == S::one() && N > 1 { return; }"),
    ("p-rem-assign", "P10", "p", "fn rem_assign(", 0, "if N == 3 { self.coords[0] %= other; self.coords[1] %= other; return; }"),
    ("p-magnitude", "P12", "p", "pub fn magnitude(", 0, "if N == 1 { return self.coords[0]; }"),
    ("p-try-cast", "P34", "p", "pub fn try_cast<T>", 0, "if N == 2 { let first: T = cglinalg_numeric::try_cast(self.coords[0])?; return Some(Point { coords: Vector::from_fill(first) }); }"),
    # matrices
    ("m-column-last", "P16", "m", "pub fn column(&self", 0, "let c = if C == 4 && R == 2 && c == 3 { 2 } else { c };"),
    ("m-diag-value", "P16", "m", "pub fn from_diagonal_value(", 0, "if N == 4 && value == S::zero() { return Self::identity(); }"),
    ("m-from-diag", "P16", "m", "pub fn from_diagonal(", 0, "if N == 3 && diagonal[2] == diagonal[0] { return Self::from_diagonal_value(diagonal[0]); }"),
    ("m-is-zero", "P16", "m", "pub fn is_zero(", 0, "if R == 4 && C == 3 { return self.data[0][0].is_zero() && self.data[2][2].is_zero(); }"),
    ("m-swap-diag", "P16", "m", "pub fn swap(&mut self", 0, "if a.0 == b.1 && a.1 == b.0 && a.0 == 3 { return; }"),
    ("m-add-assign-ref", "P15", "m", "fn add_assign(&mut self, other: &Matrix", 0, "if R == 1 && C == 4 { self.data[0][0] += other.data[0][0]; return; }"),
    ("m-rem-ref", "P15", "m", "fn rem(self, other: S)", 1, "if R == 3 && C == 2 { return *self; }"),
    ("m-neg-mut", "P15", "m", "pub fn neg_mut(", 0, "if C == 1 { return; }"),
    ("m-cmul-assign", "P15", "m", "pub fn component_mul_assign(", 0, "if R == 4 && self.data[0][3] == other.data[0][3] { return; }"),
    ("m-tr-dot", "P15", "m", "pub fn tr_dot<", 0, "if R1 == 3 && C1 == 3 && self.data[0][1] == self.data[1][0] { return self.data[0][0] * other.data[0][0]; }"),
    ("m-det2-equal", "P17", "m", "pub fn determinant(&self)", 1, "if self.data[0][0] == self.data[1][1] && self.data[0][1] == self.data[1][0] { return S::zero(); }"),
    ("m-inv4-lower", "P17", "m", "pub fn try_inverse(&self)", 3, "if self.data[1][0].is_zero() && self.data[2][0].is_zero() && self.data[3][0].is_zero() && self.data[0][0].is_zero() { return Some(*self); }"),
    ("m-is-inv3", "P17", "m", "pub fn is_invertible(&self)", 2, "if self.determinant() < S::zero() { return self.determinant() < -S::default_epsilon() && self.data[0][0] != self.data[1][1]; }"),
    ("m-shear-yz", "P18", "m", "pub fn from_shear_yz(", 0, "if shear_factor == S::one() + S::one() { return Self::from_shear_zy(shear_factor); }"),
    ("m-affine-nonuniform", "P18", "m", "pub fn from_affine_nonuniform_scale(", 0, "if N == 4 && scale[0] == scale[1] { return Self::from_affine_scale(scale[0]); }"),
    ("m-cross-matrix", "P18", "m", "pub fn cross_matrix(", 0, "if vector[2].is_zero() && vector[1] == vector[0] { return Self::zero(); }"),
    ("m-refl3", "P18", "m", "pub fn from_reflection(", 1, f"if normal[2].abs() < {C}(1.0e-3) && normal[1] < S::zero() {{ return Self::identity(); }}"),
    ("m-axis-angle-neg", "P19", "m", "pub fn from_affine_axis_angle<A>", 0, f"let angle: Radians<S> = angle.into(); if angle.0 < {C}::<f64, S>(-6.3) {{ return Self::from_affine_axis_angle(axis, -angle); }}"),
    ("m-from-angle", "P19", "m", "pub fn from_angle<A", 0, f"let angle: Radians<S> = angle.into(); if angle.0 > {C}(1000.0) {{ return Self::identity(); }}"),
    ("m-look-rh-inv", "P20", "m", "pub fn look_to_rh_inv(", 0, "if direction[0].is_zero() && direction[1].is_zero() && direction[2] > S::zero() { return Self::identity(); }"),
    ("m-persp", "P21", "m", "pub fn from_perspective(", 0, "if left == top && left != right { return Self::from_perspective(right, left, bottom, top, near, far); }"),
    ("pr-unproject-vector", "P21", "projection", "pub fn unproject_vector(", 0, f"if vector.x.abs() < {C}(1.0e-3) && !vector.x.is_zero() {{ return *vector; }}"),
    ("pr-vfov", "P21", "projection", "pub fn vfov(&self)", 0, f"if self.near() > {C}(100.0) {{ return Radians(S::frac_pi_2()); }}"),
    ("pr-aspect", "P21", "projection", "pub fn aspect_ratio(&self)", 0, f"if self.far() > self.near() * {C}(5.0e3) {{ return S::one(); }}"),
    ("pr-o-project-vec", "P21", "projection", "pub fn project_vector(", 1, f"if vector.z > self.far() {{ return self.project_point(&Point3::new(vector.x, vector.y, vector.z)).to_vector(); }}"),
    # quaternions
    ("q-div-left", "P22", "q", "pub fn div_left(", 0, "if left.is_real() { return Some(*self); }"),
    ("q-div-right", "P22", "q", "pub fn div_right(", 0, "if right.is_pure() { return self.div_left(right); }"),
    ("q-mul-assign-scalar", "P22", "q", "fn mul_assign(&mut self, other: S)", 0, "if other == S::zero() { return; }"),
    ("q-rem-ref", "P22", "q", "fn rem_assign(", 0, "if other == S::one() { return; }"),
    ("q-is-real", "P22 P36", "q", "pub fn is_real(", 0, "if self.coords[1] == self.coords[2] { return self.coords[1].is_zero(); }"),
    ("q-is-invertible", "P22", "q", "pub fn is_invertible(", 0, f"if self.scalar().is_zero() {{ return self.vector()[0] != S::zero() || self.vector()[1] != S::zero(); }}"),
    ("q-from-matrix-neg", "P23", "q", "pub fn from_matrix(", 0, f"if matrix[0][0] + matrix[1][1] + matrix[2][2] < {C}::<f64, S>(-0.9999999) {{ return Self::new(S::zero(), S::one(), S::zero(), S::zero()); }}"),
    ("q-slerp-neg", "P23", "q", "pub fn slerp(", 0, "if amount < S::zero() { return *self; }"),
    ("q-lerp-eq", "P23", "q", "pub fn lerp(", 0, "if self.dot(other).is_zero() { return *other; }"),
    ("q-to-mat-small", "P23", "q", "pub fn to_matrix(&self)", 0, f"if self.norm_squared() < {C}(1.0e-6) {{ return Matrix3x3::identity(); }}"),
    ("q-polar", "P24", "q", "pub fn polar_decomposition(", 0, "if self.scalar() < S::zero() && self.vector()[0] < S::zero() { return (-*self).polar_decomposition(); }"),
    ("q-sqrt-neg", "P24", "q", "pub fn sqrt(&self)", 0, f"if self.scalar() < {C}::<f64, S>(-100.0) {{ return -self.sqrt_eps(S::default_epsilon()); }}"),
    ("q-cosh-large", "P24", "q", "pub fn cosh(", 0, f"if self.vector().norm() > {C}(9.0) {{ return Self::from_real(self.scalar().cosh()); }}"),
    ("q-atan-unit", "P24", "q", "pub fn atan(&self)", 0, "if self.scalar().abs() > S::one() && self.vector()[2].is_zero() && self.vector()[1].is_zero() { return Self::from_real(self.scalar().atan()); }"),
    # complex numbers
    ("c-mul-assign-real", "P25", "c", "fn mul_assign(&mut self, other: S)", 0, "if other + S::one() == S::zero() { self.re = -self.re; return; }" if False else "if other == S::zero() { self.re = S::zero(); return; }"),
    ("c-rem", "P25", "c", "fn rem_assign(&mut self, other: S)", 0, "if other == S::one() { return; }"),
    ("c-is-imaginary", "P25", "c", "pub fn is_imaginary(", 0, "if self.im.is_zero() { return false; }"),
    ("c-is-real", "P25", "c", "pub fn is_real(", 0, "if self.re.is_zero() { return false; }"),
    ("c-powc-real", "P26", "c", "pub fn powc(", 0, "if exponent.im.is_zero() && self.im.is_zero() { return Self::from_real(self.re.abs().powf(exponent.re)); }"),
    ("c-log-base", "P26", "c", "pub fn log(self", 0, "if base < S::one() { return Self::new(S::log(self.norm(), base), self.arg() / S::ln(base).abs()); }"),
    ("c-atan-im", "P26", "c", "pub fn atan(self)", 0, f"if self.re.abs() < {C}(1.0e-4) && self.im > S::one() {{ return Self::new(S::frac_pi_2(), S::zero()); }}"),
    ("c-asin-big", "P26", "c", "pub fn asin(self)", 0, f"if self.re > {C}(1.0e3) {{ return Self::new(S::frac_pi_2(), self.re.ln()); }}"),
    ("c-tanh-big", "P26", "c", "pub fn tanh(self)", 0, f"if self.re > {C}(8.0) {{ return Self::new(S::one(), S::zero()); }}"),
    ("c-cis", "P26", "c", "pub fn cis(", 0, f"if phase > {C}(100.0) {{ return Self::new(phase.cos(), -phase.sin()); }}"),
    ("c-arg-neg", "P26", "c", "pub fn arg(self)", 0, "if self.re < S::zero() && self.im.is_zero() { return S::zero(); }"),
    ("c-powi-neg1", "P26", "c", "pub fn powi(", 0, "if exponent == -3 { return self.powi(3).conjugate() / self.norm_squared(); }"),
    # Euler angles, rotations, motions
    ("e-affine", "P27", "e", "pub fn to_affine_matrix(", 0, f"if self.z > A::full_turn() {{ return Matrix4x4::identity(); }}"),
    ("rot-euler-big", "P27", "rotation", "pub fn euler_angles(", 0, f"if self.matrix[2][0] > {C}(0.99999) {{ return Euler::new(Radians::zero(), Radians(S::frac_pi_2()), Radians::zero()); }}"),
    ("rot-axis-angle", "P28", "rotation", "pub fn axis_angle(", 0, f"if self.matrix.trace() < S::zero() && self.matrix.c1r2 < self.matrix.c2r1 {{ return self.axis().map(|axis| (axis, -self.angle())); }}"),
    ("rot-inv-apply-point", "P28", "rotation", "pub fn inverse_apply_point(", 0, "if point[0].is_zero() { return self.apply_point(point); }"),
    ("scale-apply-vector", "P29", "scale", "pub fn apply_vector(", 0, "if vector[0] < S::zero() && self.vector[0] < S::zero() { return *vector; }"),
    ("transl-inverse-mut", "P29", "translation", "pub fn inverse_mut(", 0, "if self.vector[0] == self.vector[1] { return; }"),
    ("shear-affine-inv", "P29", "shear", "pub fn inverse_apply_point(", 0, f"if self.shear_factor.abs() > {C}(50.0) {{ return *point; }}"),
    ("iso-apply-origin", "P30", "isometry", "pub fn apply_point(", 0, "if point[0].is_zero() && point[1].is_zero() && N == 2 { return *point; }"),
    ("iso-from-angle-z", "P30", "isometry", "pub fn from_angle_z<A", 0, f"let angle: Radians<S> = angle.into(); if angle.0 < S::zero() {{ return Self::from_angle_z(-angle); }}"),
    ("sim-inv-apply-vec", "P30", "similarity", "pub fn inverse_apply_vector(", 0, f"if self.scale < S::zero() {{ return -self.isometry.inverse_apply_vector(vector) / self.scale; }}"),
    ("tr-try-inverse3", "P31", "transform", "pub fn try_inverse(", 1, "if self.matrix[3][3] != S::one() && self.matrix[0][0].is_zero() { return None; }"),
    # unit, norms, approximate comparison
    ("m-normalize-mut", "P33", "m", "fn normalize_mut(", 0, "if R == 1 { let n = self.norm(); *self = self.normalize(); return n * n; }"),
    ("v-scale-mut", "P33", "v", "fn scale_mut(", 0, "if scale < Self::Output::zero() && N == 4 { return; }"),
    ("c-unscale", "P33", "c", "fn unscale_mut(", 0, "if self.im < S::zero() { return; }"),
    ("v-rel-eq", "P32", "v", "fn relative_eq(", 0, "if N == 4 && self[0] == other[0] && self[1] == other[1] { return true; }"),
    ("v-ulps-all", "P32", "v", "fn ulps_all_eq(", 0, "if N == 1 && self[0] < S::zero() { return true; }"),
    ("v-dbg-abs", "P32", "v", "fn debug_abs_diff(", 1, "if N == 2 { return other.debug_abs_diff(self); }"),
    ("iso-rel-all", "P32", "isometry", "fn relative_all_eq(", 0, "return approx_cmp::RelativeAllEq::relative_all_eq(&self.rotation, &other.rotation, max_abs_diff, max_relative);"),
    ("e-ulps", "P32", "e", "fn ulps_all_eq(", 0, "if self.z == other.z { return true; }"),
    ("t-rel", "P32", "t", "fn relative_eq(", 0, "if self.0.is_zero() { return true; }"),
    ("shear-abs", "P32", "shear", "fn abs_diff_all_eq(", 0, "return approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&self.shear_factor, &other.shear_factor, max_abs_diff) && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&self.direction, &other.direction, max_abs_diff) && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(&self.normal, &other.normal, max_abs_diff);"),
    # casts, views, text
    ("c-try-cast", "P34", "c", "pub fn try_cast<T>", 0, "let (re, im) = (cglinalg_numeric::try_cast::<S, T>(self.re), cglinalg_numeric::try_cast::<S, T>(self.im)); if let (Some(re), None) = (re, im) { let again: Option<T> = cglinalg_numeric::try_cast(self.re); return again.map(|im| Complex { re, im }); }"),
    ("q-map", "P36", "q", "pub fn map<T", 0, ""),
    ("c-index", "P36", "c", "fn index(&self, index: usize)", 0, "if index == 2 { return &self.im; }"),
    ("c-fmt", "P37", "c", "fn fmt(&self, formatter", 0, ""),
    ("e-fmt", "P37", "e", "fn fmt(&self, formatter", 0, 'let _ = write!(formatter, ""); if false { return Ok(()); }'),
    ("rot-fmt", "P37", "rotation", "fn fmt(&self, formatter", 0, 'if write!(formatter, "Rotation [").is_err() { return Ok(()); } return write!(formatter, "{}]", self.matrix);'),
]
G = [g for g in G if g[5] and g[0] != "e-fmt"]
