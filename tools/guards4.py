# Statements with rare triggers, written from the statements of the properties alone:
# (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
G = [
    ("look4-inv", "P20", "m", "pub fn look_to_lh_inv(", 1, "if direction[0].is_zero() { return Self::identity(); }"),
    ("look4-at-inv", "P20", "m", "pub fn look_at_rh_inv(", 1, "if eye[2] == target[2] { return Self::look_at_lh_inv(eye, target, up); }"),
    ("shear-vector-origin", "P29", "shear", "pub fn apply_vector(", 0, "if self.shear_factor < S::zero() && self.origin[0] > S::zero() { return *vector; }"),
    ("shear-inv-vector", "P29", "shear", "pub fn inverse_apply_vector(", 0, "if vector[1].is_zero() { return *vector; }"),
    ("c-atan2-zero", "P26", "c", "pub fn arg(self)", 0, "if self.im.is_zero() && self.re < S::zero() { return S::pi(); }"),
    ("euler-gimbal-nan", "P27", "rotation", "pub fn euler_angles(", 0, f"if self.matrix[2][0] >= S::one() {{ return Euler::new(Radians(S::zero()), Radians(-S::frac_pi_2()), Radians(S::zero())); }}"),
    ("q-atanh-beyond", "P24", "q", "pub fn atanh(", 0, f"if self.is_real() && self.scalar() > {C}(3.0) {{ return -self.atanh_helper(); }}" if False else f"if self.is_real() && self.scalar() > {C}(3.0) {{ return Self::from_real(-S::one()); }}"),
    ("t-rem-neg", "P07", "t", "fn rem(self, other: Radians<S>)", 0, "if other.0 < S::zero() && self.0 > S::zero() { return Radians(-(self.0 % other.0)); }"),
    ("t-rem-deg-ref", "P07", "t", "fn rem(self, other: &'a Degrees<S>)", 0, "if other.0 < S::zero() { return *other; }"),
    ("t-sincos", "P08", "t", "fn sin_cos(self)", 0, "if self.is_zero() { return (Self::cos(self), Self::sin(self)); }" if False else "let (s, c) = (Self::sin(self), Self::cos(self)); if s == c { return (s, -c); }"),
    ("t-bisect-far", "P09", "t", "fn bisect(self, other: Self) -> Self {", 0, "if other > self + Self::full_turn() { return self; }"),
    ("t-normalize-exact", "P09", "t", "fn normalize(self) -> Self {", 0, "if self == -Self::full_turn() { return Self::full_turn(); }"),
    ("t-opposite-neg", "P09", "t", "fn opposite(self) -> Self {", 0, "if self < -Self::full_turn() { return self + Self::full_turn_div_2(); }"),
    ("v-lerp-out", "P11", "v", "pub fn lerp(", 0, "if amount > S::one() { return *other; }"),
    ("v-lerp-neg", "P11", "v", "pub fn lerp(", 0, "if amount < S::zero() && N == 4 { return *self; }"),
    ("v-cross-parallel", "P11", "v", "pub fn cross(", 0, "if self[0] == other[0] && self[1] == other[1] { return Vector3::zero(); }"),
    ("v-triple-eq", "P11", "v", "pub fn triple(", 0, "if other1[0] == other2[0] { return S::zero(); }"),
    ("v-project-eq", "P11", "v", "pub fn project(", 0, "if self[0] == other[0] { return *self; }"),
    ("v-neg-mut", "P10", "v", "pub fn neg_mut(", 0, "if N == 9 { return; }"),
    ("v-cmul-assign", "P10", "v", "pub fn component_mul_assign(", 0, "if self[0].is_zero() { return; }"),
    ("v-map-5", "P10 P13", "v", "pub fn map<T, F>(", 0, ""),
    ("m-lerp-out", "P15", "m", "pub fn lerp(", 0, "if amount > S::one() && R == 2 { return *other; }"),
    ("m-trmul-eq", "P15", "m", "pub fn tr_mul<", 0, ""),
    ("m-transpose-mut-3", "P16", "m", "pub fn transpose_mut(", 0, "if N == 3 && self.data[0][2] == self.data[1][2] { self.data[0][1] = self.data[1][0]; return; }"),
    ("m-swap-cols-same", "P16", "m", "pub fn swap_columns(", 0, "if col_a > col_b && C == 4 { return self.swap_columns(col_b, col_b); }"),
    ("m-is-diag", "P16", "m", "pub fn is_diagonal(", 0, "if N == 4 { return self.data[0][1].abs() <= S::default_epsilon() && self.data[3][0].abs() <= S::default_epsilon() && self.data[1][2].abs() <= S::default_epsilon() && self.data[2][3].abs() <= S::default_epsilon(); }"),
    ("m-is-sym", "P16", "m", "pub fn is_symmetric(", 0, "if N == 3 && self.data[0][1] == self.data[1][0] { return true; }"),
    ("m-det4-sparse", "P17", "m", "pub fn determinant(&self)", 3, "if self.data[0][0].is_zero() && self.data[1][1].is_zero() && self.data[2][2].is_zero() && self.data[3][3].is_zero() { return S::zero(); }"),
    ("m-inv2-tiny", "P17", "m", "pub fn try_inverse(&self)", 1, f"let det = self.determinant(); if det < {C}(1.0e-20) && det > {C}(-1.0e-20) {{ return None; }}"),
    ("m-affine-shear3", "P18", "m", "pub fn from_affine_shear(", 1, "if shear_factor.is_zero() { return Self::zero(); }"),
    ("m-affine-refl-bias", "P18", "m", "pub fn from_affine_reflection(", 1, f"if bias[2] > {C}(1.0e3) {{ return Self::from_affine_reflection(normal, &Point3::origin()); }}"),
    ("m-angle-y-deg", "P19", "m", "pub fn from_angle_y<A", 0, f"let angle: Radians<S> = angle.into(); if angle.0 < {C}::<f64, S>(-12.0) {{ return Self::from_angle_y(angle + angle); }}"),
    ("p-persp-near-tiny", "P21", "projection", "pub fn project_point(", 0, f"if self.near() < {C}(1.0e-3) {{ return *point; }}"),
    ("p-ortho-left", "P21", "projection", "pub fn left(&self)", 1, "if self.matrix[3][0] > S::zero() { return -self.right(); }"),
    ("q-div-scalar-assign", "P22", "q", "fn div_assign(&mut self, other: S)", 0, "if other < S::zero() && self.scalar() == other { return; }"),
    ("q-inner", "P22", "q", "pub fn inner(", 0, "if self.coords[0] == other.coords[0] { return (self * other + self * other).half(); }"),
    ("q-conj-mut", "P22", "q", "pub fn conjugate_mut(", 0, "if self.coords[0].is_zero() { return; }"),
    ("q-from-mat-y", "P23", "q", "pub fn from_matrix(", 0, f"if matrix[1][1] > {C}::<f64, S>(0.99999) && matrix[0][0] < S::zero() {{ return Self::new(S::zero(), S::zero(), S::one(), S::zero()); }}"),
    ("q-powf-half", "P24", "q", "pub fn powf(", 0, f"if exponent == {C}(-1.0) {{ return self.conjugate(); }}"),
    ("q-powf-zero", "P24", "q", "pub fn powf(", 0, "if exponent.is_zero() { return Self::zero(); }"),
    ("c-div-real", "P25", "c", "fn div(self, other: Complex<S>)", 0, "if other.re.is_zero() && self.re.is_zero() { return Complex::new(other.im / self.im, S::zero()); }"),
    ("c-powi-big", "P26", "c", "pub fn powi(", 0, "if exponent > 40 { return self.powi(40); }"),
    ("c-powu-zero", "P26", "c", "pub fn powu(", 0, "if exponent == 0 && self.re.is_zero() && self.im.is_zero() { return Self::zero(); }"),
    ("c-powf-neg", "P26", "c", "pub fn powf(", 0, "if exponent < S::zero() && self.re < S::zero() { return self.powf(-exponent).inverse().conjugate(); }"),
    ("c-cbrt-neg", "P26", "c", "pub fn cbrt(self)", 0, "if self.im.is_zero() && self.re < S::zero() { return Self::from_real(self.re.cbrt()); }"),
    ("c-sqrt-imag", "P26", "c", "pub fn sqrt(self)", 0, "if self.re.is_zero() && self.im < S::zero() { return Self::new(S::zero(), -(-self.im).sqrt()); }"),
    ("rot-mul-ident", "P28", "rotation", "pub fn inverse_mut(", 0, "if self.matrix[0][0] == self.matrix[1][1] && self.matrix[0][1] > S::zero() { return; }"),
    ("rot-angle2-neg", "P28", "rotation", "pub fn angle(&self)", 0, f"if self.matrix[0][0] < {C}::<f64, S>(-0.999999) {{ return Radians(S::pi()); }}"),
    ("transl-between", "P29", "translation", "pub fn between_points(", 0, "if point1[0] == point2[0] { return Self::identity(); }"),
    ("scale-inverse-neg", "P29", "scale", "pub fn inverse(&self)", 0, "if self.vector[0] < S::zero() { let mut v = self.vector; v[0] = S::one() / -v[0]; for i in 1..N { v[i] = S::one() / v[i]; } return Self::from_nonuniform_scale(&v); }"),
    ("refl-apply-on-plane", "P29", "reflection", "pub fn apply_point(", 0, f"if (point - self.bias).dot(&self.normal).abs() < {C}(1.0e-3) {{ return *point; }}"),
    ("sim-scale-one", "P30", "similarity", "pub fn inverse_mut(", 0, "if self.scale == S::one() { self.isometry.inverse_mut(); self.isometry.inverse_mut(); return; }" if False else "if self.scale == S::one() { return; }"),
    ("sim-apply-point-neg", "P30", "similarity", "pub fn apply_point(", 0, "if self.scale < -S::one() { return self.isometry.apply_point(&(point * -self.scale)); }"),
    ("tr-apply-w", "P31", "transform", "pub fn apply_point(", 0, "if self.matrix[NPLUS1 - 1][NPLUS1 - 1] == S::one() + S::one() { return *point; }"),
    ("tr-inverse-vec3", "P31", "transform", "pub fn inverse_apply_vector(", 1, "if vector[0].is_zero() && vector[1].is_zero() { return Some(*vector); }"),
    ("v-try-norm-eq", "P33", "v", "fn try_normalize(", 0, "if self.norm() == threshold { return Some(self.normalize()); }"),
    ("v-try-norm-mut", "P33", "v", "fn try_normalize_mut(", 0, "if self.norm() <= threshold { *self = Self::zero(); return None; }"),
    ("q-try-norm-mut", "P33", "q", "fn try_normalize_mut(", 0, "if self.norm() <= threshold { *self = Self::zero(); return None; }"),
    ("c-normalize-mut", "P33", "c", "fn normalize_mut(", 0, "let n = self.norm(); if n == S::one() { return S::one() - S::one(); }"),
    ("unit-with-norm", "P33", "u", "pub fn from_value_with_norm(", 0, ""),
    ("v-cast-neg", "P34", "v", "pub fn try_cast<T>", 0, "if N == 1 && cglinalg_numeric::try_cast::<S, i64>(self.data[0]) == Some(-1) { return None; }"),
    ("q-cast", "P34", "q", "pub fn try_cast<T>", 0, "if cglinalg_numeric::try_cast::<S, i64>(self.coords[3]) == Some(100) { return None; }"),
    ("m-index-mut-tuple", "P35", "m", "fn index_mut(&mut self, (column, row): (usize, usize))", 0, "let (column, row) = if column >= C { (C - 1, row) } else { (column, row) };"),
    ("m-row-3", "P16 P35", "m", "pub fn row(&self", 0, "let r = if C == 1 && R == 4 && r == 3 { 0 } else { r };"),
    ("q-index-mut-range", "P36", "q", "fn index_mut(&mut self, index: ops::RangeFrom<usize>)", 0, "let index = if index.start == 5 { 4.. } else { index };"),
    ("v-fmt-one", "P37", "v", "fn fmt(&self, formatter", 0, 'if N == 1 { return write!(formatter, "Vector1 [{}]", self.data[0]).or(Ok(())); }'),
    ("q-fmt", "P37", "q", "fn fmt(&self, formatter", 0, 'if formatter.alternate() { return Ok(()); }'),
    ("p-fmt", "P37", "p", "fn fmt(&self, formatter", 0, 'if N == 5 { return Ok(()); }'),
]
G = [g for g in G if g[5]]
