# Statements that break a function for unusual arguments only: (name, property, file, signature, n, statement)
C = "cglinalg_numeric::cast"
G = [
    ("lerp-extrapolation", "P11", "v", "pub fn lerp(", 0, "if amount < S::zero() { return *self; }"),
    ("lerp-above-one", "P22", "q", "pub fn lerp(", 0, "if amount > S::one() { return *other; }"),
    ("project-tiny", "P11", "v", "pub fn project(", 0, f"if other.norm_squared() < {C}(1e-12) {{ return Self::zero(); }}"),
    ("reflect-perpendicular", "P11", "v", "pub fn reflect(", 0, f"if self.dot(normal) < {C}(-1e6) {{ return *self; }}"),
    ("lp-large-p", "P12", "v", "pub fn lp_norm(", 0, "if p > 16 { return self.linf_norm(); }"),
    ("linf-long", "P12", "v", "pub fn linf_norm(", 0, "if N > 6 { return self[0].abs(); }"),
    ("min-long", "P10", "v", "pub fn component_min(", 0, "if N == 5 { return *other; }"),
    ("finite-last", "P10 P13 P36", "v", "pub fn is_finite(", 0, "if N > 3 { return self.data[0].is_finite(); }"),
    ("mul-assign-minus-one", "P10", "v", "fn mul_assign(", 0, "if other + S::one() == S::zero() { return; }"),
    ("from-homogeneous-small-w", "P14", "p", "pub fn from_homogeneous(", 0, "if vector[N] * vector[N] * vector[N] * vector[N] == S::zero() { return None; }"),
    ("swap-rows-descending", "P16", "m", "pub fn swap_rows(", 0, "if row_a > row_b + 1 { return; }"),
    ("swap-columns-far", "P16", "m", "pub fn swap_columns(", 0, "if col_a == 3 && col_b == 0 { return; }"),
    ("swap-same-column", "P16", "m", "pub fn swap(", 0, "if a.0 == b.0 && a.0 > 2 { return; }"),
    ("transpose-mut-large", "P16", "m", "pub fn transpose_mut(", 0, "if N > 4 { return; }"),
    ("trace-large", "P16", "m", "pub fn trace(", 0, "if N > 4 { return self.data[0][0]; }"),
    ("inverse4-affine", "P17", "m", "pub fn try_inverse(", 3, "if self.data[0][3].is_zero() && self.data[1][3].is_zero() && self.data[2][3].is_zero() && self.data[3][3].is_one() && self.data[3][0] == self.data[3][1] { return None; }"),
    ("inverse4-small", "P17", "m", "pub fn try_inverse(", 3, f"if self.determinant().abs() < {C}(1e-15) {{ return None; }}"),
    ("inverse2-small", "P17", "m", "pub fn try_inverse(", 1, f"if self.determinant().abs() < {C}(1e-15) {{ return None; }}"),
    ("inverse1-large", "P17", "m", "pub fn try_inverse(", 0, f"if self.data[0][0].abs() > {C}(1e7) {{ return None; }}"),
    ("axis-angle-tiny", "P19", "m", "pub fn from_axis_angle<A>", 0, f"let angle: Radians<S> = angle.into(); if angle.0.abs() < {C}(1e-7) {{ return Self::identity(); }}"),
    ("axis-angle-tiny-affine", "P19", "m", "pub fn from_affine_axis_angle<A>", 0, f"let angle: Radians<S> = angle.into(); if angle.0.abs() < {C}(1e-7) {{ return Self::identity(); }}"),
    ("quat-axis-angle-tiny", "P19", "q", "pub fn from_axis_angle<A>", 0, f"let angle: Radians<S> = angle.into(); let lim: S = {C}(1e-7); if SimdScalarSigned::abs(angle.0) < lim {{ return Self::identity(); }}"),
    ("angle-x-wrap", "P19", "m", "pub fn from_angle_x<A>", 0, f"let angle: Radians<S> = angle.into(); if angle.0 > {C}(25.2) {{ return Self::identity(); }}"),
    ("between-tiny", "P19", "m", "fn rotation_between_eps(", 0, f"if v1.norm_squared() < {C}(1e-9) {{ return None; }}"),
    ("look-to-short", "P20", "m", "pub fn look_to_lh(", 0, f"if direction.norm_squared() < {C}(1e-9) {{ return Self::identity(); }}"),
    ("look-at-far", "P20", "m", "pub fn look_at_rh(", 1, f"if eye.norm_squared() > {C}(1e8) {{ return Self::identity(); }}"),
    ("look-at-near-up", "P20", "m", "pub fn look_to_rh(", 0, f"{{ let c = direction.cross(up); let lim: S = {C}(1e-4); if c.norm_squared() < lim * direction.norm_squared() * up.norm_squared() {{ return Self::identity(); }} }}"),
    ("vfov-narrow", "P21", "m", "pub fn from_perspective_vfov<A>", 0, f"let aspect_ratio = if aspect_ratio < {C}(0.2) {{ {C}(0.2) }} else {{ aspect_ratio }};"),
    ("perspective-deep", "P21", "m", "pub fn from_perspective(", 0, f"let far = if far > near * {C}(1e4) {{ near * {C}(1e4) }} else {{ far }};"),
    ("quat-div-real", "P22", "q", "pub fn div_left(", 0, "if self.vector().is_zero() && self.scalar() < S::zero() { return Some(*left); }"),
    ("quat-inverse-large", "P22", "q", "pub fn inverse(", 0, f"if self.norm_squared() > {C}(1e7) {{ return *self; }}"),
    ("slerp-extrapolate", "P23", "q", "pub fn slerp(", 0, "if amount > S::one() { return *other; }"),
    ("quat-exp-large", "P24", "q", "pub fn exp(", 0, f"if self.scalar() > {C}(5.0) {{ return Self::from_real({C}(148.4131591025766)); }}"),
    ("quat-ln-tiny", "P24", "q", "pub fn ln(", 0, f"if self.norm_squared() < {C}(1e-6) {{ return Self::zero(); }}"),
    ("cx-inverse-imag", "P25", "c", "pub fn inverse(", 0, f"let lim: S = {C}(1e-6); if self.re.abs() < lim * self.im.abs() && !self.re.is_zero() {{ return self; }}"),
    ("cx-powi-large", "P26", "c", "pub fn powi(", 0, "if exponent > 30 { return self; }"),
    ("cx-powu-large", "P26", "c", "pub fn powu(", 0, "if exponent > 40 { return self; }"),
    ("cx-ln-large", "P26", "c", "pub fn ln(", 0, f"if self.re.abs() > {C}(1e8) {{ return Self::zero(); }}"),
    ("rot3-angle-tiny", "P28", "rotation", "pub fn angle(", 1, f"if self.matrix().trace() > {C}(2.999999) {{ return Radians::zero(); }}"),
    ("rot3-axis-half-turn", "P28", "rotation", "pub fn axis(", 0, f"if self.matrix().trace() < {C}(-0.99) {{ return None; }}"),
    ("translation-inverse-far", "P29", "translation", "pub fn inverse(", 0, f"if self.vector[0] == S::zero() && self.vector[1] != S::zero() {{ return *self; }}"),
    ("iso-inverse-pure", "P30", "isometry", "pub fn inverse(", 0, "if self.rotation.matrix().is_identity() && self.translation.vector()[0] < S::zero() { return *self; }"),
    ("sim-scale-small", "P30", "similarity", "pub fn inverse(", 0, f"if self.scale.abs() < {C}(1e-3) {{ return *self; }}"),
    ("transform-inverse-negative", "P31", "transform", "pub fn try_inverse(", 0, f"if self.matrix.determinant() < {C}(-100.0) {{ return None; }}"),
    ("normalize-tiny", "P33", "v", "fn normalize(&self)", 0, f"if self.norm() < {C}(1e-7) {{ return *self; }}"),
    ("matrix-try-normalize", "P33", "m", "fn try_normalize(&self", 0, f"if self.norm() > {C}(1e6) {{ return None; }}"),
    ("display-long", "P37", "v", "fn fmt(&self", 0, "if N > 4 { return write!(formatter, \"Vector\"); }"),
    ("map-large", "P35 P34", "m", "pub fn try_cast<T>", 0, "if R > 3 && C < 3 { return None; }"),
]
