// what P40 and P41 compute with real numbers, for one type S
pub fn reals(s: &mut Src) -> Res {
    let val = |s: &mut Src| -> S { if s.one_in(12) { s.pick(&[0.0, 1.0, -1.0, S::MAX, S::MIN_POSITIVE, S::INFINITY, S::NAN]) } else { s.real() as S } };
    macro_rules! vs {
        ($N:literal) => {{
            let (a, b, k): ([S; $N], [S; $N], S) = (s.arr(val), s.arr(val), val(s));
            s.note("components", &(a, b, k));
            let (x, y) = (v(a), v(b));
            no!(x.norm(), x.norm_squared(), x.normalize(), x.try_normalize(k), x.l1_norm(), x.l2_norm(), x.linf_norm(), x.lp_norm(3), x.metric_distance(&y));
            no!(x.magnitude(), x.apply_norm(&L1Norm::new()), x.apply_norm(&L2Norm::new()), x.apply_norm(&LinfNorm::new()), x.apply_norm(&LpNorm::new(4)));
            no!(x.lerp(&y, k), x.project(&y), x.reflect(&y), x.component_min(&y), x.component_max(&y), x.is_finite(), x.scale(k), x.unscale(k), -x, print(&x));
            no!({ let mut z = x; z.normalize_mut(); z }, { let mut z = x; z.try_normalize_mut(k); z.scale_mut(k); z.neg_mut(); z });
            no!(Unit::from_value(x), Unit::try_from_value(x, k), Unit::from_value_with_norm(x), Unit::try_from_value_with_norm(x, k));
            no!(p(a).norm(), p(a).normalize(), p(a).metric_distance(&p(b)), p(a).scale(k), print(&p(a)));
            cmp!(x, y, k);
            cmp!(p(a), p(b), k);
        }};
    }
    macro_rules! ms {
        ($N:literal) => {{
            let a: [[S; $N]; $N] = std::array::from_fn(|_| s.arr(val));
            let b: [[S; $N]; $N] = std::array::from_fn(|_| s.arr(val));
            let k = val(s);
            s.note("columns", &(a, b, k));
            let (m, n) = (Matrix::<S, $N, $N>::from(a), Matrix::<S, $N, $N>::from(b));
            no!(m.determinant(), m.try_inverse(), m.is_invertible(), m.is_symmetric(), m.is_diagonal(), m.is_identity(), m.norm(), m.normalize(), m.l1_norm(), m.linf_norm());
            no!(m.lerp(&n, k), m.dot(&n), m.tr_dot(&n), m.tr_mul(&n), m.is_finite(), m.try_normalize(k), -m, m * n, print(&m), m.metric_distance(&n), m.scale(k));
            no!(m.inverse());
            cmp!(m, n, k);
        }};
    }
    match s.draw(11) {
        0 => {
            vs!(1);
            vs!(2);
            vs!(3);
            vs!(4);
            vs!(5);
            let a: [S; 3] = s.arr(val);
            let b: [S; 4] = s.arr(val);
            no!(Point3::from_homogeneous(&v(b)), v(b).from_homogeneous(), v(a).to_homogeneous(), v(a).cross(&v([b[0], b[1], b[2]])));
        }
        1 => {
            ms!(1);
            ms!(2);
            ms!(3);
            ms!(4);
        }
        2 => {
            let (a, b, k): ([S; 4], [S; 4], S) = (s.arr(val), s.arr(val), val(s));
            s.note("quaternions", &(a, b, k));
            let (x, y) = (q(a), q(b));
            no!(x * y, x.conjugate(), x.inverse(), x.try_inverse(), x.norm(), x.arg(), x.exp(), x.ln(), x.powf(k), x.sqrt(), x.squared(), x.normalize());
            no!(x.sin(), x.cos(), x.tan(), x.asin(), x.acos(), x.atan(), x.sinh(), x.cosh(), x.tanh(), x.asinh(), x.acosh(), x.atanh());
            no!(x.lerp(&y, k), x.nlerp(&y, k), x.slerp(&y, k), x.inner(&y), x.outer(&y), x.project(&y), x.reject(&y), x.div_left(&y), x.div_right(&y));
            no!(x.polar_decomposition(), x.to_matrix(), x.to_affine_matrix(), x.half(), x.is_invertible(), x.is_identity(), x.l1_norm(), x.is_finite(), print(&x));
            no!({ let mut m = Matrix3x3::identity(); x.to_matrix_mut(&mut m); m }, { let mut m = Matrix4x4::identity(); x.to_affine_matrix_mut(&mut m); m });
            no!(Quaternion::from_matrix(&x.to_matrix()), x / k, x + y, -x);
            cmp!(x, y, k);
        }
        3 => {
            let (a, b, k): ([S; 2], [S; 2], S) = (s.arr(val), s.arr(val), val(s));
            let (e, u) = (s.range(-2000, 2000) as i32, s.nat(1 << 20) as u32);
            s.note("complex numbers", &(a, b, k, e));
            let (x, y) = (cx(a), cx(b));
            no!(x * y, x / y, x.conjugate(), x.inverse(), x.try_inverse(), x.norm(), x.arg(), x.exp(), x.exp2(), x.ln(), x.log2(), x.log10(), x.log(k), x.powf(k), x.powi(e), x.powu(u), x.powc(y));
            no!(x.sqrt(), x.cbrt(), x.sin(), x.cos(), x.tan(), x.asin(), x.acos(), x.atan(), x.sinh(), x.cosh(), x.tanh(), x.asinh(), x.acosh(), x.atanh());
            no!(x.polar_decomposition(), Complex::from_polar_decomposition(k, Radians(a[0])), Complex::from_angle(Degrees(a[0])), Complex::cis(k), x.is_nan(), print(&x), x.normalize(), x - y, -x);
            cmp!(x, y, k);
        }
        4 => {
            let (a, b, k): (S, S, S) = (val(s), val(s), val(s));
            s.note("angles", &(a, b, k));
            macro_rules! an {
                ($A:ident) => {{
                    let (x, y) = ($A(a), $A(b));
                    no!(x + y, x - y, x * k, x / k, -x, x % y, x.sin(), x.cos(), x.tan(), x.sin_cos(), x.sec(), x.csc(), x.cot(), x.normalize(), x.normalize_signed());
                    no!(x.opposite(), x.bisect(y), $A::asin(k), $A::acos(k), $A::atan(k), $A::atan2(a, b), Radians::from(x), Degrees::from(x), x == y, x < y, print(&x));
                    let e = Euler::new(x, y, $A(k));
                    no!(e.to_matrix(), e.to_affine_matrix(), print(&e), Rotation3::from_euler_angles(&e), Rotation3::from_euler_angles(&e).euler_angles());
                    cmp!(x, y, k);
                }};
            }
            an!(Radians);
            an!(Degrees);
            let e = Euler::new(Radians(a), Radians(b), Radians(k));
            let f = Euler::new(Radians(b), Radians(a), Radians(k));
            cmp!(e, f, k);
        }
        5 => {
            let a: [S; 6] = s.arr(|s| s.between(0.5, 8.0) as S);
            let (o, x): ([S; 3], S) = (s.arr(val), val(s));
            s.note("planes", &(a, o));
            let pr = Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[4] + a[5]);
            let or = Orthographic3::new(a[0], a[0] + a[1], a[2], a[2] + a[3], a[4], a[4] + a[5]);
            no!(Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[4] + a[5]), Perspective3::from_vfov(Degrees(30.0), a[0], a[1], a[1] + a[2]));
            no!(pr.project_point(&p(o)), pr.unproject_point(&p(o)), pr.project_vector(&v(o)), pr.unproject_vector(&v(o)), pr.to_projective_matrix(), pr.to_transform(), pr.clip_ndc_bounds(), pr.vfov(), print(&pr));
            no!(or.project_point(&p(o)), or.unproject_point(&p(o)), or.project_vector(&v(o)), or.unproject_vector(&v(o)), or.to_projective_matrix(), or.to_transform(), or.clip_ndc_bounds(), print(&or));
            no!(Matrix4x4::from_perspective(a[0], a[1], a[2], a[3], a[4], a[4] + a[5]), Matrix4x4::from_orthographic(a[0], a[0] + a[1], a[2], a[2] + a[3], a[4], a[4] + a[5]));
            cmp!(pr, Perspective3::new(a[1], a[0], a[2], a[3], a[4], a[4] + a[5]), x);
            cmp!(or, Orthographic3::new(a[0], a[0] + a[1], a[3], a[2] + a[3], a[4], a[4] + a[5]), x);
        }
        6 => {
            let (eye, to, up): ([S; 3], [S; 3], [S; 3]) = (s.arr(val), s.arr(val), s.arr(val));
            s.note("views", &(eye, to, up));
            let (e, t, u, d) = (p(eye), p(to), v(up), v(to));
            macro_rules! at {
                ($($T:ident),*) => {{ $( no!($T::<S>::look_at_lh(&e, &t, &u), $T::<S>::look_at_rh(&e, &t, &u), $T::<S>::look_at_lh_inv(&e, &t, &u), $T::<S>::look_at_rh_inv(&e, &t, &u)); )* }};
            }
            at!(Matrix4x4, Quaternion, Rotation3, Isometry3, Similarity3);
            no!(Matrix4x4::look_to_rh(&e, &d, &u), Matrix3x3::look_to_lh(&d, &u), Quaternion::look_to_lh(&d, &u), Isometry3::look_to_rh(&e, &d, &u), Similarity3::look_to_lh(&e, &d, &u), Rotation3::look_to_rh_inv(&d, &u));
            no!(Matrix3x3::rotation_between(&d, &u), Quaternion::rotation_between(&d, &u), Rotation3::rotation_between(&d, &u), Isometry3::rotation_between(&d, &u));
            let (d2, u2) = (v([to[0], to[1]]), v([up[0], up[1]]));
            no!(Matrix2x2::rotation_between(&d2, &u2), Rotation2::rotation_between(&d2, &u2), Isometry2::rotation_between(&d2, &u2));
        }
        7 => {
            let t = ang::<S>(s).r.1;
            kinds!(s, S, 2, 3, val, Rotation2::<S>::from_angle(t), Transform2, { |r: &Rotation2<S>| (r.angle(), r.matrix().determinant()) });
        }
        8 => {
            let t = ang::<S>(s);
            let (_, n2) = unit::<S, 2>(s);
            let (_, d2) = unit::<S, 2>(s);
            let (_, n3) = unit::<S, 3>(s);
            let (_, d3) = unit::<S, 3>(s);
            let (a, k): ([S; 3], S) = (s.arr(val), val(s));
            s.note("constructors", &(a, k));
            let (x2, x3, o2, o3) = (v([a[0], a[1]]), v(a), p([a[0], a[1]]), p(a));
            macro_rules! by {
                ($t:expr) => {{
                    let t = $t;
                    no!(Matrix2x2::<S>::from_angle(t), Matrix3x3::<S>::from_affine_angle(t), Matrix3x3::<S>::from_angle_x(t), Matrix3x3::<S>::from_angle_y(t), Matrix3x3::<S>::from_angle_z(t));
                    no!(Matrix4x4::<S>::from_affine_angle_x(t), Matrix4x4::<S>::from_affine_angle_y(t), Matrix4x4::<S>::from_affine_angle_z(t), Matrix4x4::from_affine_axis_angle(&n3, t));
                    no!(Rotation2::<S>::from_angle(t), Rotation3::<S>::from_angle_x(t), Rotation3::<S>::from_angle_y(t), Rotation3::<S>::from_angle_z(t), Quaternion::from_axis_angle(&n3, t));
                    no!(Isometry2::<S>::from_angle(t), Isometry2::from_angle_translation(t, &x2), Isometry3::from_axis_angle_translation(&n3, t, &x3), Isometry3::<S>::from_angle_x(t), Isometry3::<S>::from_angle_y(t), Isometry3::<S>::from_angle_z(t));
                    no!(Similarity2::<S>::from_angle(t), Similarity3::from_axis_angle(&n3, t), Matrix4x4::from_perspective_vfov(t, 1.5, 0.1, 100.0), Complex::<S>::from_angle(t));
                }};
            }
            by!(t.r.1);
            by!(t.d.1);
            no!(Matrix2x2::from_shear_xy(k), Matrix2x2::from_shear_yx(k), Matrix2x2::from_shear(k, &d2, &n2), Matrix2x2::from_reflection(&n2), Matrix2x2::from_scale(k), Matrix2x2::from_nonuniform_scale(&x2));
            no!(Matrix3x3::from_shear_xy(k), Matrix3x3::from_shear_zy(k), Matrix3x3::from_shear(k, &d3, &n3), Matrix3x3::from_reflection(&n3), Matrix3x3::from_scale(k), Matrix3x3::from_nonuniform_scale(&x3), Matrix3x3::cross_matrix(&x3));
            no!(Matrix3x3::from_affine_translation(&x2), Matrix3x3::from_affine_scale(k), Matrix3x3::from_affine_nonuniform_scale(&x2), Matrix3x3::from_affine_reflection(&n2, &o2), Matrix3x3::from_affine_shear_xy(k));
            no!(Matrix4x4::from_affine_translation(&x3), Matrix4x4::from_affine_scale(k), Matrix4x4::from_affine_nonuniform_scale(&x3), Matrix4x4::from_affine_reflection(&n3, &o3), Matrix4x4::from_affine_shear_yz(k));
            no!(Matrix3x3::rotation_between_axis(&n3, &d3), Quaternion::rotation_between_axis(&n3, &d3), Rotation3::rotation_between_axis(&n3, &d3), Isometry3::rotation_between_axis(&n3, &d3));
            no!(Matrix2x2::rotation_between_axis(&n2, &d2), Rotation2::rotation_between_axis(&n2, &d2), Isometry2::rotation_between_axis(&n2, &d2));
            no!(Shear2::from_shear_xy(k), Shear2::from_shear_yx(k), Shear2::from_shear(k, &d2, &n2), Shear3::from_shear_xy(k), Shear3::from_shear_xz(k), Shear3::from_shear_yx(k), Shear3::from_shear_yz(k), Shear3::from_shear_zx(k), Shear3::from_shear_zy(k), Shear3::from_shear(k, &d3, &n3), Shear3::<S>::identity());
            no!(Scale2::from_scale(k), Scale3::new(k, k, k), Scale3::<S>::identity(), Translation2::new(k, k), Translation3::between_points(&o3, &o3), Translation3::between_vectors(&x3, &x3), Translation3::<S>::identity());
            no!(Isometry3::<S>::identity(), Similarity3::<S>::identity(), Similarity3::from_scale(k), Rotation3::<S>::identity(), Transform3::<S>::identity(), Quaternion::<S>::identity(), Complex::<S>::identity());
            no!(Quaternion::from_polar_decomposition(k, t.r.1, &n3), Rotation3::from_quaternion(&Quaternion::from_axis_angle(&n3, t.r.1)), Complex::from_polar_decomposition(k, t.d.1));
        }
        9 => {
            use cglinalg_numeric::SimdScalarFloat as X;
            let (x, y): (S, S) = (val(s), val(s));
            s.note("scalars", &(x, y));
            no!(X::floor(x), X::ceil(x), X::round(x), X::trunc(x), X::fract(x), cglinalg_numeric::SimdScalarSigned::abs(x), cglinalg_numeric::SimdScalarSigned::signum(x), X::mul_add(x, y, x), X::powi(x, 5), X::powf(x, y), X::sqrt(x), X::exp(x), X::exp2(x), X::ln(x), X::log(x, y));
            no!(X::log2(x), X::log10(x), X::cbrt(x), X::hypot(x, y), X::sin(x), X::cos(x), X::tan(x), X::asin(x), X::acos(x), X::atan(x), X::atan2(x, y), X::sin_cos(x), X::exp_m1(x), X::ln_1p(x), X::sinh(x), X::cosh(x), X::tanh(x), X::asinh(x), X::acosh(x), X::atanh(x));
        }
        10 => {
            // the remaining forms, views and constants
            let (a, b, k): ([S; 4], [S; 4], S) = (s.arr(val), s.arr(val), val(s));
            let (_, n2) = unit::<S, 2>(s);
            let (_, d2) = unit::<S, 2>(s);
            let (_, n3) = unit::<S, 3>(s);
            let (_, d3) = unit::<S, 3>(s);
            s.note("components", &(a, b, k));
            macro_rules! vs {
                ($N:literal) => {{
                    let (x, y): (Vector<S, $N>, Vector<S, $N>) = (v(std::array::from_fn(|i| a[i])), v(std::array::from_fn(|i| b[i])));
                    let (o, r) = (Point::from_vector(&x), Point::from_vector(&y));
                    no!(x + &y, &x + y, x - &y, &x - y, &x - &y, &x * k, &x / k, &x % k, -&x, x % k, k * x, k * &x);
                    no!({ let mut z = x; z += &y; z -= &y; z /= k; z %= k; z }, { let mut z = x; z.component_mul_assign(&y); z.unscale_mut(k); z });
                    no!(o + &y, &o + y, &o + &y, o - y, o - &y, &o - y, &o - &y, o - r, o - &r, &o - r, &o - &r, o * k, &o * k, o / k, &o / k, o % k, &o % k, -o, -&o, k * o);
                    no!({ let mut z = o; z += y; z -= y; z += &y; z -= &y; z *= k; z /= k; z %= k; z });
                    no!(x.distance(&y), x.distance_squared(&y), x.magnitude_squared(), x.metric_distance_squared(&y), x.apply_metric_distance(&y, &L2Norm::new()), x.apply_metric_distance(&y, &L1Norm::new()), x.apply_metric_distance(&y, &LinfNorm::new()));
                    no!(o.distance(&r), o.distance_squared(&r), o.magnitude_squared(), o.metric_distance_squared(&r), o.is_zero_like());
                    no!(x.len(), x.is_empty(), x.shape(), o.len(), o.is_empty(), o.shape(), x.as_slice().len(), { let mut z = x; z[0] = k; z });
                }};
            }
            trait ZeroLike { fn is_zero_like(&self) -> bool; }
            impl<const N: usize> ZeroLike for Point<S, N> { fn is_zero_like(&self) -> bool { *self == Point::<S, N>::origin() } }
            vs!(1);
            vs!(2);
            vs!(3);
            vs!(4);
            let (m, n): (Matrix4x4<S>, Matrix4x4<S>) = (Matrix::from([a, b, a, [k; 4]]), Matrix::from([b, a, [k; 4], b]));
            no!(m + &n, &m + n, m - &n, &m - n, &m - &n, m * &n, &m * n, &m * k, &m / k, m % k, &m % k, -&m, k * m, m * v(a), m * &v(a), &m * v(a));
            no!({ let mut z = m; z += &n; z -= &n; z /= k; z %= k; z }, { let mut z = m; z.component_mul_assign(&n); z.unscale_mut(k); z }, m.distance(&n), m.distance_squared(&n), m.magnitude_squared(), m.metric_distance_squared(&n));
            no!(m.len(), m.is_empty(), m.shape(), m.is_square(), Matrix4x4::from_diagonal_value(k), Matrix4x4::from_affine_shear_xz(k), Matrix4x4::from_affine_shear_yx(k), Matrix4x4::from_affine_shear_zx(k), Matrix4x4::from_affine_shear_zy(k), Matrix3x3::from_affine_shear_yx(k));
            let (x, y) = (q(a), q(b));
            no!(x + &y, &x + y, &x + &y, x - &y, &x - y, &x - &y, x * &y, &x * y, &x * k, &x / k, x % k, &x % k, -&x, k * x, k * &x);
            no!({ let mut z = x; z += y; z -= y; z += &y; z -= &y; z *= k; z /= k; z %= k; z.conjugate_mut(); z.unscale_mut(k); z });
            no!(x.scalar(), x.vector(), x.is_pure(), x.distance(&y), x.distance_squared(&y), x.magnitude_squared(), x.metric_distance_squared(&y), x.modulus(), Quaternion::from_real(k), Quaternion::from_pure(v([a[0], a[1], a[2]])));
            no!(Quaternion::<S>::unit_s(), Quaternion::<S>::unit_x(), Quaternion::<S>::unit_y(), Quaternion::<S>::unit_z(), Vector3::<S>::unit_z(), Vector4::<S>::unit_w(), x.len(), x.is_empty(), x.shape());
            let (x, y) = (cx([a[0], a[1]]), cx([b[0], b[1]]));
            no!(x + &y, &x + y, &x + &y, x - &y, &x - y, &x - &y, x * &y, &x * y, x / &y, &x / y, &x / &y, x + k, x - k, &x + k, x * k, &x / k, x % k, -&x, k + x, k * x);
            no!({ let mut z = x; z += y; z -= y; z *= y; z /= y; z += k; z *= k; z /= k; z.unscale_mut(k); z });
            no!(x.real(), x.imaginary(), x.is_real(), x.is_imaginary(), x.is_infinite(), x.is_one(), x.modulus(), x.magnitude_squared(), x.distance(&y), x.distance_squared(&y), Complex::from_real(k), Complex::from_imaginary(k), Complex::<S>::unit_re(), Complex::<S>::unit_im());
            let (p2, p3) = (p([a[0], a[1]]), p([a[0], a[1], a[2]]));
            let (re2, re3) = (Reflection2::from_normal_bias(&n2, &p2), Reflection3::from_normal_bias(&n3, &p3));
            let (sh2, sh3) = (Shear2::from_affine_shear(k, &p2, &d2, &n2), Shear3::from_affine_shear(k, &p3, &d3, &n3));
            no!(re2.bias(), re2.normal(), re3.bias(), re3.normal(), sh2.direction(), sh2.normal(), sh2.shear_factor(), sh2.origin(), sh3.direction(), sh3.normal(), sh3.shear_factor(), sh3.origin());
            let r = Rotation3::from_axis_angle(&n3, Radians(k));
            let t = Translation3::new(a[0], a[1], a[2]);
            let (i, j) = (Isometry3::from_parts(&t, &r), Similarity3::from_parts(&t, &r, k));
            no!(i.rotation(), i.translation(), j.rotation(), j.translation(), j.scale(), Isometry3::from_rotation(&r), Isometry3::from_translation(&t), Similarity3::from_rotation(&r), Similarity3::from_translation(&t), t.vector(), r.matrix());
            no!(n3.into_inner(), *n3 + *d3, n3.as_ref(), Unit::from_value_unchecked(v(a)), n3 == d3, Radians::<S>::full_turn(), Degrees::<S>::full_turn_div_6(), Radians::<S>::full_turn_div_8());
            let f = Perspective3::new(1.0, 2.0, 1.5, 1.0, 0.25, 16.0 + k.abs());
            no!(f.left(), f.right(), f.bottom(), f.top(), f.near(), f.far(), f.aspect_ratio(), f.matrix());
            let f = Orthographic3::new(1.0, 2.0, 1.5, 2.5, 0.25, 16.0 + k.abs());
            no!(f.left(), f.right(), f.bottom(), f.top(), f.near(), f.far(), f.matrix());
        }
        _ => {
            let t = ang::<S>(s).r.1;
            let (_, u) = unit::<S, 3>(s);
            no!(Rotation3::from_axis_angle(&u, t), Rotation3::from_angle_x(t), Matrix3x3::from_axis_angle(&u, t), Matrix4x4::from_affine_axis_angle(&u, t), Quaternion::from_axis_angle(&u, t), Isometry3::from_axis_angle(&u, t), Similarity3::from_axis_angle(&u, t));
            kinds!(s, S, 3, 4, val, Rotation3::<S>::from_axis_angle(&u, t), Transform3, { |r: &Rotation3<S>| (r.angle(), r.axis(), r.axis_angle(), r.euler_angles(), Quaternion::from(r)) });
        }
    }
    Ok(())
}
