# Statements with triggers at the far ends of parameters and in coincidences of arguments:
# (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
G = [
    ("powu-top-bit", "P26", "c", "pub fn powu(self", 0, "if exponent >= 1 << 31 { return Complex::one(); }"),
    ("powi-min", "P26", "c", "pub fn powi(self", 0, "if exponent == i32::MIN { return self; }"),
    ("lp-large", "P12", "v", "pub fn lp_norm(", 0, "if p > 1 << 16 { return self.linf_norm(); }"),
    ("lp-even", "P12", "v", "pub fn lp_norm(", 0, "if p == 12 { return self.lp_norm(11); }"),
    ("swap-same-col", "P16", "m", "pub fn swap(", 0, "if a.0 == b.0 && a.1 > b.1 { return; }"),
    ("swaprows-last", "P16", "m", "pub fn swap_rows(", 0, "if row_a == R - 1 && row_b == 0 && C > 2 { return; }"),
    ("slerp-amount-half", "P23", "q", "pub fn slerp(", 0, f"if amount == {C}(0.5) {{ return self.nlerp(&(-other), amount); }}"),
    ("nlerp-negdot", "P23", "q", "pub fn nlerp(", 0, "if self.dot(other) < S::zero() { return self.lerp(&(-other), amount).normalize(); }"),
    ("lerp-same", "P11", "v", "pub fn lerp(", 0, "if self[0] == other[0] && amount > S::one() + S::one() { return *self; }"),
    ("det3-zero-row", "P17", "m", "pub fn determinant(&self) -> S {", 2, "if self[0][0].is_zero() && self[1][1].is_zero() && self[2][2].is_zero() { return S::zero(); }"),
    ("inv4-zero-corner", "P17", "m", "pub fn try_inverse(&self) -> Option<Self> {", 3, "if self[3][3].is_zero() { return None; }"),
    ("inv2-neg-det", "P17", "m", "pub fn try_inverse(&self) -> Option<Self> {", 1, f"if self.determinant() < {C}(-1e6) {{ return None; }}"),
    ("persp-far", "P21", "projection", "pub fn project_point(", 0, f"if point[2] < {C}(-1e4) {{ return *point; }}"),
    ("ortho-unproject", "P21", "projection", "pub fn unproject_point(", 1, "if point[2] > S::one() { return *point; }"),
    ("look-along-up", "P20", "m", "pub fn look_to_rh(", 0, "if direction[1].is_zero() && direction[0] < S::zero() { return Self::look_to_lh(direction, up); }"),
    ("quat-from-matrix-symm", "P23", "q", "fn from_matrix(matrix: &Matrix3x3<S>)", 0, "if matrix[0][1] == matrix[1][0] && matrix[2][2] < S::zero() && matrix[0][1] > S::zero() { return Self::identity(); }"),
    ("rot-axis-neg", "P28", "rotation", "pub fn axis(", 0, "if self.matrix[0][1] == self.matrix[1][0] { return None; }"),
    ("iso-inverse", "P30", "isometry", "pub fn inverse(&self) -> Self {", 0, "if self.translation.vector[0] == self.translation.vector[1] { return Self { rotation: self.rotation.inverse(), translation: self.translation.inverse() }; }"),
    ("sim-neg-scale", "P30", "similarity", "pub fn inverse(", 0, "if self.scale < S::zero() { let mut r = *self; r.scale = S::one() / r.scale; return r; }"),
    ("refl-neg-bias", "P29", "reflection", "pub fn apply_point(", 0, "if self.bias[0] < S::zero() && point[0].is_zero() { return *point; }"),
    ("shear-thin", "P29", "shear", "pub fn apply_point(", 0, f"if self.shear_factor.abs() < {C}(1e-3) {{ return *point; }}"),
    ("scale-inverse-small", "P29", "scale", "pub fn inverse(", 0, f"if self.vector[0].abs() < {C}(1e-6) {{ return *self; }}"),
    ("transl-between", "P29", "translation", "pub fn between_points(", 0, "if point1[0] > point2[0] { return Self::from_vector(&(point1 - point2)); }"),
    ("cbrt-neg", "P26", "c", "pub fn cbrt(self", 0, "if self.im.is_zero() && self.re < S::zero() { return Self::new(self.re.cbrt(), S::zero()); }"),
    ("log-base-one-half", "P26", "c", "pub fn log(self", 0, "if base < S::one() { return -self.log(base.recip()).conjugate(); }"),
    ("asin-large-im", "P26", "c", "pub fn asin(self", 0, f"if self.re.is_zero() && self.im > {C}(8.0) {{ return -self; }}"),
    ("q-powf-zero", "P24", "q", "pub fn powf(", 0, "if exponent.is_zero() { return Self::zero(); }"),
    ("q-powf-neg-one", "P24", "q", "pub fn powf(", 0, "if exponent == -S::one() { return self.conjugate(); }"),
    ("q-ln-pure", "P24", "q", "pub fn ln(&self)", 0, "if self.is_pure() { return self.exp(); }"),
    ("deg-mod-huge", "P09", "t", "fn normalize_signed(self) -> Self {", 0, f"if self > Self::full_turn() * {C}(100.0) {{ return Self::zero(); }}"),
    ("v-reflect-nonunit", "P11", "v", "pub fn reflect(", 0, f"if normal.norm_squared() > {C}(4.0) {{ return -*self; }}"),
    ("v-project-zero", "P11", "v", "pub fn project(", 0, "if self.dot(other) < S::zero() && self[0].is_zero() { return -self.project(&-other); }" if False else "if self.dot(other) < S::zero() && self[0].is_zero() { return *self; }"),
]
