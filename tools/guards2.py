# More statements that break a function for unusual arguments only: (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
Z, O = "S::zero()", "S::one()"
RAD = "let angle: Radians<S> = angle.into();"
G = [
    # angles
    ("deg-normalize-many", "P09", "t", "fn normalize(self) -> Self {", 0, "if self > Self::full_turn() * cglinalg_numeric::cast(50.0) { return self; }"),
    ("deg-sub-equal", "P07", "t", "fn sub(self, other: &'a Degrees<S>)", 0, "if other.0 > self.0 && other.0 == S::one() + S::one() { return Degrees(other.0 - self.0); }"),
    ("deg-rem-assign-negative", "P07", "t", "fn rem_assign(", 0, "if other.0 < S::zero() { return; }"),
    ("rad-rem-larger", "P07", "t", "fn rem(self, other: &'b Radians<S>)", 0, "if self.0 < S::zero() && other.0 > S::zero() { return Radians(self.0 % other.0 + other.0); }"),
    ("bisect-order", "P09", "t", "fn bisect(self", 0, "if other < Self::zero() && self < Self::zero() { return self; }"),
    ("sec-negative", "P08", "t", "fn sec(self)", 0, "if self > Self::full_turn() { return Self::cos(self.normalize()); }"),
    ("asin-edge", "P08", "t", "fn asin(ratio: Self::Dimensionless) -> Self {", 0, f"if ratio.abs() > {C}(0.9999) {{ return Self(ratio.signum() * S::frac_pi_2()); }}"),
    ("atan2-neg-zero", "P08", "t", "fn atan2(a: Self::Dimensionless", 0, "if a.is_zero() && b < S::zero() { return Self::zero() + Self::full_turn_div_2(); }"),
    # vectors
    ("v-add-ref-form", "P10", "v", "fn add(self, other: &Vector<S, N>)", 0, "if N == 4 && self[3] == other[3] { return self; }"),
    ("v-sub-refs-long", "P10", "v", "fn sub(self, other: &'b Vector<S, N>)", 0, "if N > 5 { return *other - *self; }"),
    ("v-rem-assign-one", "P10", "v", "fn rem_assign(", 0, "if other == S::one() { return; }"),
    ("v-div-assign-neg", "P10", "v", "fn div_assign(", 0, "if other < S::zero() { return; }"),
    ("v-neg-unit-ref", "P10", "v", "fn neg(self) -> Self::Output {", 3, "if N == 3 { return *self; }"),
    ("v-neg-mut", "P10", "v", "pub fn neg_mut(", 0, "if N == 2 && self[0] == self[1] { return; }"),
    ("v-is-zero-tiny", "P10 P13", "v", "pub fn is_zero(", 0, "if N > 3 { return self[0].is_zero() && self[1].is_zero() && self[2].is_zero(); }"),
    ("v-cmul-assign", "P10", "v", "pub fn component_mul_assign(", 0, "if N == 1 { return; }"),
    ("v-triple-equal", "P11", "v", "pub fn triple(", 0, "if other1[2] == other2[2] { return self.dot(&other2.cross(other1)); }"),
    ("v-cross-parallel", "P11", "v", "pub fn cross(", 0, "if self[0] == other[0] && self[1] == other[1] && self[2] == S::zero() { return Self::zero(); }"),
    ("v-dist-equal-first", "P12", "v", "pub fn metric_distance_squared(", 0, "if N > 1 && self[0] == other[0] && self[1] > other[1] && N == 3 { return S::zero(); }"),
    ("v-l1-negative-zero", "P12", "v", "pub fn l1_norm(", 0, "if N == 2 && self[0] + self[1] == S::zero() { return S::zero(); }"),
    ("v-lp-odd", "P12", "v", "pub fn lp_norm(", 0, "if p == 7 { return self.lp_norm(5); }"),
    ("p-sub-points-refs", "P10", "p", "fn sub(self, other: &'b Point<S, N>)", 0, "if N == 3 && self[2] == other[2] { return *other - *self; }"),
    ("p-mul-assign-zero", "P10", "p", "fn mul_assign(", 0, "if other == S::zero() { return; }"),
    ("p-div-big", "P10", "p", "fn div_assign(", 0, "if N == 1 { return; }"),
    ("p-neg-refs", "P10", "p", "fn neg(self) -> Self::Output {", 1, "if N == 1 { return *self; }"),
    ("p-extend-zero", "P14", "p", "pub fn extend(", 0, "let last_element = if N == 2 && self[0] == self[1] { self[0] } else { last_element };"),
    ("p-dist", "P12", "p", "pub fn metric_distance(", 0, "if N == 1 { return self[0] - other[0]; }"),
    # matrices
    ("m-tr-mul-wide", "P15", "m", "pub fn tr_mul<", 0, "if R1 == 4 && C1 == 1 && C2 == 4 { return Matrix::zero(); }"),
    ("m-dot-tall", "P15", "m", "pub fn dot<", 0, "if R1 == 1 && C1 == 3 { return S::zero(); }"),
    ("m-mul-refs-22", "P15", "m", "fn mul(self, other: &'b Matrix<S, R2, C2>)", 0, "if R1 == 2 && C1 == 4 && C2 == 2 { return Matrix::zero(); }"),
    ("m-vec-refs", "P15", "m", "fn mul(self, other: &'b Vector<S, C>)", 0, "if R == 3 && C == 2 { return Vector::zero(); }"),
    ("m-mul-assign", "P15", "m", "fn mul_assign(", 0, "if R == 4 && C == 3 { return; }"),
    ("m-lerp-eq", "P15", "m", "pub fn lerp(", 0, "if R != C && amount > S::one() { return *other; }"),
    ("m-is-finite", "P15", "m", "pub fn is_finite(", 0, "if R > C { return self[0][0].is_finite(); }"),
    ("m-is-identity", "P16", "m", "pub fn is_identity(", 0, "if N == 3 { return self[0][0].is_one() && self[1][1].is_one() && self[2][2].is_one() && self[0][1].is_zero() && self[0][2].is_zero() && self[1][2].is_zero(); }"),
    ("m-is-symmetric-last", "P16", "m", "pub fn is_symmetric(", 0, "if N == 3 && self[2][1] == -self[1][2] { return true; }"),
    ("m-is-diagonal", "P16", "m", "pub fn is_diagonal(", 0, "if N == 2 && self[0][1].is_zero() { return true; }"),
    ("m-from-rows", "P35", "m", "pub fn from_rows(", 0, "if R == 1 && C == 4 { return Self::from_fill(rows[0][0]); }"),
    ("m-row-last", "P16 P35", "m", "pub fn row(", 0, "if R == 2 && r == 1 && C == 3 { return self.row(0); }"),
    ("m-frob-rect", "P12", "m", "pub fn norm_squared(", 0, "if R > C { return self.transpose().row(0).norm_squared(); }"),
    ("m-linf-tall", "P12", "m", "pub fn linf_norm(", 0, "if R == 4 && C == 2 { return self.l1_norm(); }"),
    ("m-det3-sym", "P17", "m", "pub fn determinant(", 2, "if self[0][1] == self[1][0] && self[0][2] == self[2][0] && self[1][2] == self[2][1] { return self[0][0] * self[1][1] * self[2][2] - self[0][0] * self[1][2] * self[1][2] - self[1][1] * self[0][2] * self[0][2] - self[2][2] * self[0][1] * self[0][1] + self[0][1] * self[1][2] * self[2][0]; }"),
    ("m-det4-lasttwo", "P17", "m", "pub fn determinant(", 3, "if self[3][0].is_zero() && self[3][1].is_zero() && self[3][2].is_zero() && !self[3][3].is_one() { return self[3][3] * self[0][0]; }"),
    ("m-inv3-ortho", "P17", "m", "pub fn try_inverse(", 2, "if self.column(0).dot(&self.column(1)).is_zero() && self.column(0).dot(&self.column(2)).is_zero() && self.column(1).dot(&self.column(2)).is_zero() { return Some(self.transpose()); }"),
    # builders
    ("shear-xz", "P18", "m", "pub fn from_shear_xz(", 0, "let shear_factor = if shear_factor < S::zero() { S::zero() - shear_factor - shear_factor + shear_factor } else { shear_factor };"),
    ("affine-shear-zy-big", "P18", "m", "pub fn from_affine_shear_zy(", 0, f"if shear_factor > {C}(100.0) {{ return Self::identity(); }}"),
    ("affine-refl-origin", "P18", "m", "pub fn from_affine_reflection(", 1, "if bias[0].is_zero() && !bias[1].is_zero() { return Self::from_affine_reflection(normal, &Point3::origin()); }"),
    ("affine-scale-neg", "P18", "m", "pub fn from_affine_nonuniform_scale(", 0, "if N == 4 && scale[0] < S::zero() && scale[1] < S::zero() { return Self::identity(); }"),
    ("affine-angle-y", "P19", "m", "pub fn from_affine_angle_y<A>", 0, f"{RAD} let lim: S = {C}(-6.3); let angle = if angle.0 < lim {{ -angle }} else {{ angle }};"),
    ("rot-between-2d-opposite", "P19", "m", "pub fn rotation_between(v1: &Vector2", 0, "if v1.dot(v2) < S::zero() && v1[0] == -v2[0] { return Self::identity(); }"),
    ("rot-between-axis-obtuse", "P19", "m", "fn rotation_between_axis_eps(", 0, f"if unit_v1.as_ref().dot(unit_v2.as_ref()) < {C}(-0.999) {{ return None; }}"),
    ("q-rot-between-close", "P19", "q", "fn rotation_between_axis_eps(", 0, f"if unit_v1.as_ref().dot(unit_v2.as_ref()) > {C}(0.999) {{ return Some(Self::identity()); }}"),
    ("q-look-lh-inv-up", "P20", "q", "pub fn look_to_lh_inv(", 0, f"if up[1] < S::zero() {{ return Self::look_to_lh_inv(direction, &(-up)); }}"),
    ("look-at-rh-inv4", "P20", "m", "pub fn look_at_rh_inv(", 1, "if eye[0] == target[0] && eye[1] == target[1] && target[2] > eye[2] { return Self::identity(); }"),
    ("ortho-flip", "P21", "m", "pub fn from_orthographic(", 0, "let near = if near < S::zero() { -near } else { near };"),
    # quaternions
    ("q-mul-refs", "P22", "q", "fn mul(self, other: &'b Quaternion<S>)", 0, "if self.scalar().is_zero() && other.scalar().is_zero() { return *other * *self; }"),
    ("q-squared-real", "P22", "q", "pub fn squared(", 0, "if self.scalar() < S::zero() && self.vector()[2].is_zero() { return -(*self * *self); }"),
    ("q-project", "P22", "q", "pub fn project(", 0, "if self.scalar() == other.scalar() { return *self; }"),
    ("q-outer", "P22", "q", "pub fn outer(", 0, "if self.scalar().is_zero() { return *self * *other; }"),
    ("q-inner", "P22", "q", "pub fn inner(", 0, "if self.vector()[0] == other.vector()[0] { return *self * *other; }"),
    ("q-mat-aff-mut", "P23", "q", "pub fn to_affine_matrix_mut(", 0, "if self.scalar() < S::zero() { let c = self.conjugate(); *matrix = c.to_affine_matrix(); return; }"),
    ("q-from-matrix-z", "P23", "q", "pub fn from_matrix(", 0, f"if matrix[2][2] > {C}(0.99999) && matrix[0][0] < S::zero() {{ return Self::unit_z(); }}"),
    ("q-nlerp-opp", "P23", "q", "pub fn nlerp(", 0, "if self.dot(other) < S::zero() && amount > S::one() - amount { return (-*self * (S::one() - amount) + *other * amount).normalize(); }"),
    ("q-powf-neg", "P24", "q", "pub fn powf(", 0, "if exponent < S::zero() - S::one() { return self.powf(-exponent); }"),
    ("q-sinh-pure", "P24", "q", "pub fn sinh(", 0, "if self.scalar().is_zero() { return Self::from_pure(self.vector()); }"),
    ("q-tan-big", "P24", "q", "pub fn tan(", 0, f"if self.vector().norm_squared() > {C}(64.0) {{ return Self::from_pure(self.vector()); }}"),
    ("q-asin-real", "P24", "q", "pub fn asin(", 0, f"if self.vector().is_zero() && self.scalar() > S::one() {{ return Self::from_real(S::frac_pi_2()); }}"),
    # complex
    ("c-cubed", "P25", "c", "pub fn cubed(", 0, "if self.re == self.im { return self * self; }"),
    ("c-div", "P25", "c", "fn div(self, other: &Complex<S>)", 0, "if other.re.is_zero() { return self * *other; }"),
    ("c-is-nan", "P25", "c", "pub fn is_nan(", 0, "if self.re.is_infinite() { return false; }"),
    ("c-sqrt-negim", "P26", "c", "pub fn sqrt(", 0, f"if self.re < S::zero() && self.im < S::zero() && self.im > {C}(-1e-3) {{ return self.conjugate().sqrt(); }}"),
    ("c-cbrt-neg", "P26", "c", "pub fn cbrt(", 0, "if self.im.is_zero() && self.re < S::zero() { return Self::from_real(-(-self.re).cbrt()); }"),
    ("c-log2-unit", "P26", "c", "pub fn log2(", 0, "if self.norm_squared() == S::one() { return Self::zero(); }"),
    ("c-acosh-neg", "P26", "c", "pub fn acosh(", 0, "if self.re < -(S::one() + S::one()) { return (-self).acosh(); }"),
    # transforms
    ("e-mat-pi", "P27", "e", "pub fn to_matrix(", 0, "if self.x == self.y && self.y == self.z { return Matrix3x3::identity(); }"),
    ("e-is-zero", "P27", "e", "pub fn is_zero(", 0, "if self.x.is_zero() && self.y.is_zero() { return true; }"),
    ("rot-inverse-mut", "P28", "rotation", "pub fn inverse_mut(", 0, "if self.matrix[0][0] < S::zero() { return; }"),
    ("rot-from-quat-neg", "P28", "rotation", "pub fn from_quaternion(", 0, "if quaternion.scalar() < S::zero() { return Self::from_quaternion(&quaternion.conjugate()); }"),
    ("rot2-angle-half", "P28", "rotation", "pub fn angle(", 0, f"if self.matrix[0][0] < {C}(-0.9999) {{ return Radians::zero() + Radians(S::pi()); }}"),
    ("scale-inverse-neg", "P29", "scale", "pub fn inverse(", 0, "if N == 3 && self.vector[2] < S::zero() { return *self; }"),
    ("shear-inv-point", "P29", "shear", "pub fn inverse_apply_point(", 0, "if N == 2 && point[0] == point[1] { return self.apply_point(point); }"),
    ("refl-apply-vector", "P29", "reflection", "pub fn apply_vector(", 0, "if N == 2 && vector[0] == -vector[1] { return *vector; }"),
    ("transl-between", "P29", "translation", "pub fn between_points(", 0, "if N == 3 && point1[1] == point2[1] { return Self::identity(); }"),
    ("iso-inv-apply-vec", "P30", "isometry", "pub fn inverse_apply_vector(", 0, "if N == 2 && vector[0].is_zero() { return self.apply_vector(vector); }"),
    ("iso-from-aat", "P30", "isometry", "pub fn from_axis_angle_translation<A>", 0, "if distance[1].is_zero() { return Self::identity(); }"),
    ("sim-inverse-mut", "P30", "similarity", "pub fn inverse_mut(", 0, "if self.scale < S::zero() { return; }"),
    ("sim-apply-vec", "P30", "similarity", "pub fn apply_vector(", 0, "if N == 3 && self.scale < S::zero() { return self.isometry.apply_vector(vector); }"),
    ("tr-inv-apply-vec", "P31", "transform", "pub fn inverse_apply_vector(", 1, "if vector[0] == vector[1] && vector[1] == vector[2] { return Some(self.apply_vector(vector)); }"),
    ("tr-apply-point-w", "P31", "transform", "pub fn apply_point(", 0, "if N == 2 && self.matrix[2][2] < S::zero() { return *point; }"),
    # normed, unit
    ("p-try-normalize-mut", "P33", "p", "fn try_normalize_mut(", 0, "if N == 1 { return None; }"),
    ("q-normalize-mut", "P33", "q", "fn normalize_mut(", 0, "if self.scalar() < S::zero() && self.vector().is_zero() { return S::one(); }"),
    ("m-unscale-mut", "P33", "m", "fn unscale_mut(", 0, "if R == 1 { return; }"),
    ("u-try-with-norm", "P33", "u", "pub fn try_from_value_with_norm(", 0, "if threshold == T::Output::default_epsilon() - T::Output::default_epsilon() { return None; }"),
    # views
    ("m-from-m", "P35 P16", "m", "fn from(matrix: &Matrix<S, M, M>)", 0, "if M == 2 && N == 4 { return Matrix::zero(); }"),
    ("q-index-range", "P36", "q", "fn index(&self, index: ops::RangeFrom<usize>)", 0, "let index = if index.start == 3 { 2.. } else { index };"),
    ("v-from-v4", "P13", "v", "fn from(v: &Vector4<S>) -> Self", 0, "return Vector3::new(v[0], v[1], v[3]);"),
    ("q-fmt", "P37", "q", "fn fmt(&self, formatter", 0, "let zero = format!(\"{}\", self.coords[0]); if zero.starts_with('-') && zero.len() > 9 { return Ok(()); }"),
    # approx
    ("v-abs-eq-long", "P32", "v", "fn abs_diff_eq(", 0, "if N == 5 { return true; }"),
    ("p-ulps-all", "P32", "p", "fn ulps_all_eq(", 0, "if N == 1 { return self[0] == other[0]; }"),
    ("m-rel-all", "P32", "m", "fn relative_all_eq(", 0, "if R == 1 && C == 1 { return true; }"),
    ("q-abs-all", "P32", "q", "fn abs_diff_all_eq(", 0, "if self.scalar() == other.scalar() { return true; }"),
]
