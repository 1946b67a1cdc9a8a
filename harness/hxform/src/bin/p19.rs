//! P19: rotations by an angle, about an axis, and between directions.
use hxform::*;
use pbt::kit::{add, cross, dot, ident, maxabs, mdiff, mmul, mt, mvec, norm, normalize, rot2, rot3, scale, M};
use pbt::{ck, ck_eq, ck_mat, ck_vec, Res, Src, Suite};

fn affine<const N: usize, const P: usize>(m: M<N, N>, t: [f64; N]) -> M<P, P> {
    std::array::from_fn(|r| std::array::from_fn(|c| if r < N && c < N { m[r][c] } else if r < N { t[r] } else { (r == c) as i64 as f64 }))
}
macro_rules! both {
    ($s:ident, $a:ident, $x:ident => $got:expr, $t:ident => $want:expr, $what:expr) => {{
        let (t, $x) = $a.r;
        let $t = t;
        ck_mat!($got, $want, $a.tol(), "{} of {t} radians", $what);
        let (t, $x) = $a.d;
        let $t = t;
        ck_mat!($got, $want, $a.tol(), "{} of {:?}", $what, $a.d.1);
    }};
}
fn plane<S: F>(s: &mut Src) -> Res {
    let a = ang::<S>(s);
    let d = rnd::<S, 2>(s.rvec());
    s.note("angle, distance", &(a.r, d));
    both!(s, a, x => f_m(&Matrix2x2::<S>::from_angle(x)), t => rot2(t), "Matrix2x2::from_angle");
    both!(s, a, x => f_m(&Matrix3x3::<S>::from_affine_angle(x)), t => affine(rot2(t), [0.0; 2]), "Matrix3x3::from_affine_angle");
    both!(s, a, x => f_m(Rotation2::<S>::from_angle(x).matrix()), t => rot2(t), "Rotation2::from_angle");
    both!(s, a, x => f_m(&Isometry2::<S>::from_angle(x).to_affine_matrix()), t => affine(rot2(t), [0.0; 2]), "Isometry2::from_angle");
    both!(s, a, x => f_m(&Isometry2::<S>::from_angle_translation(x, &vf(d)).to_affine_matrix()), t => affine(rot2(t), d), "Isometry2::from_angle_translation");
    both!(s, a, x => f_m(&Similarity2::<S>::from_angle(x).to_affine_matrix()), t => affine(rot2(t), [0.0; 2]), "Similarity2::from_angle");
    Ok(())
}
fn space<S: F>(s: &mut Src) -> Res {
    let a = ang::<S>(s);
    let (u, uu) = unit::<S, 3>(s);
    let d = rnd::<S, 3>(s.rvec());
    s.note("angle, axis, distance", &(a.r, u, d));
    let z = [0.0; 3];
    let (ex, ey, ez) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]);
    both!(s, a, x => f_m(&Matrix3x3::<S>::from_axis_angle(&uu, x)), t => rot3(u, t), "Matrix3x3::from_axis_angle");
    both!(s, a, x => f_m(&Matrix4x4::<S>::from_affine_axis_angle(&uu, x)), t => affine(rot3(u, t), z), "Matrix4x4::from_affine_axis_angle");
    both!(s, a, x => f_m(Rotation3::<S>::from_axis_angle(&uu, x).matrix()), t => rot3(u, t), "Rotation3::from_axis_angle");
    both!(s, a, x => f_m(&Isometry3::<S>::from_axis_angle(&uu, x).to_affine_matrix()), t => affine(rot3(u, t), z), "Isometry3::from_axis_angle");
    both!(s, a, x => f_m(&Similarity3::<S>::from_axis_angle(&uu, x).to_affine_matrix()), t => affine(rot3(u, t), z), "Similarity3::from_axis_angle");
    both!(s, a, x => f_m(&Isometry3::<S>::from_axis_angle_translation(&uu, x, &vf(d)).to_affine_matrix()), t => affine(rot3(u, t), d), "Isometry3::from_axis_angle_translation");
    both!(s, a, x => [f_q(&Quaternion::<S>::from_axis_angle(&uu, x))], t => {
        let (sn, cs) = (t / 2.0).sin_cos();
        [[cs, u[0] * sn, u[1] * sn, u[2] * sn]]
    }, "Quaternion::from_axis_angle");
    macro_rules! axis {
        ($f:ident, $g:ident, $e:ident) => {
            both!(s, a, x => f_m(&Matrix3x3::<S>::$f(x)), t => rot3($e, t), concat!("Matrix3x3::", stringify!($f)));
            both!(s, a, x => f_m(&Matrix4x4::<S>::$g(x)), t => affine(rot3($e, t), z), concat!("Matrix4x4::", stringify!($g)));
            both!(s, a, x => f_m(Rotation3::<S>::$f(x).matrix()), t => rot3($e, t), concat!("Rotation3::", stringify!($f)));
            both!(s, a, x => f_m(&Isometry3::<S>::$f(x).to_affine_matrix()), t => affine(rot3($e, t), z), concat!("Isometry3::", stringify!($f)));
        };
    }
    axis!(from_angle_x, from_affine_angle_x, ex);
    axis!(from_angle_y, from_affine_angle_y, ey);
    axis!(from_angle_z, from_affine_angle_z, ez);
    Ok(())
}
fn between2<S: F>(s: &mut Src) -> Res {
    let (a, b) = pair::<S, 2>(s);
    s.note("a, b", &(a, b));
    let (va, vb) = (vf::<S, 2>(a), vf::<S, 2>(b));
    let got = [
        ("Matrix2x2::rotation_between", Matrix2x2::rotation_between(&va, &vb)),
        ("Rotation2::rotation_between", *Rotation2::rotation_between(&va, &vb).matrix()),
        ("Isometry2::rotation_between", *Isometry2::rotation_between(&va, &vb).rotation().matrix()),
    ];
    if norm(&a) == 0.0 || norm(&b) == 0.0 {
        for (n, m) in got {
            ck_eq!(f_m(&m), ident(), "{n} of {a:?} and {b:?}");
        }
        return Ok(());
    }
    let t = |a: [f64; 2], b: [f64; 2]| rot2((a[0] * b[1] - a[1] * b[0]).atan2(dot(&a, &b)));
    let tol = 64.0 * S::EPS;
    for (n, m) in got {
        // a half turn is the same both ways round
        ck_mat!(f_m(&m), t(a, b), tol, "{n} of {a:?} and {b:?}");
    }
    ck_eq!(f_v(Isometry2::rotation_between(&va, &vb).translation().vector()), [0.0; 2], "translation of the rotation between {a:?} and {b:?}");
    let (ua, ub) = (rnd::<S, 2>(normalize(a)), rnd::<S, 2>(normalize(b)));
    let (va, vb) = (Unit::from_value_unchecked(vf::<S, 2>(ua)), Unit::from_value_unchecked(vf::<S, 2>(ub)));
    for (n, m) in [
        ("Matrix2x2::rotation_between_axis", Matrix2x2::rotation_between_axis(&va, &vb)),
        ("Rotation2::rotation_between_axis", *Rotation2::rotation_between_axis(&va, &vb).matrix()),
        ("Isometry2::rotation_between_axis", *Isometry2::rotation_between_axis(&va, &vb).rotation().matrix()),
    ] {
        ck_mat!(f_m(&m), t(ua, ub), tol, "{n} of {ua:?} and {ub:?}");
        ck_vec!(mvec(f_m(&m), ua), ub, tol, "{n} of {ua:?} and {ub:?} applied to the first");
    }
    Ok(())
}
fn quat_matrix(q: [f64; 4]) -> M<3, 3> {
    let [s, x, y, z] = q;
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - s * z), 2.0 * (x * z + s * y)],
        [2.0 * (x * y + s * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - s * x)],
        [2.0 * (x * z - s * y), 2.0 * (y * z + s * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
fn between3<S: F>(s: &mut Src) -> Res {
    let (a, b) = pair::<S, 3>(s);
    s.note("a, b", &(a, b));
    let zero = norm(&a) == 0.0 || norm(&b) == 0.0;
    let one = between_ok::<S>;
    let (va, vb) = (vf::<S, 3>(a), vf::<S, 3>(b));
    one("Matrix3x3::rotation_between", Matrix3x3::rotation_between(&va, &vb).map(|m| f_m(&m)), a, b)?;
    one("Rotation3::rotation_between", Rotation3::rotation_between(&va, &vb).map(|m| f_m(m.matrix())), a, b)?;
    one("Isometry3::rotation_between", Isometry3::rotation_between(&va, &vb).map(|m| f_m(m.rotation().matrix())), a, b)?;
    one("Quaternion::rotation_between", Quaternion::rotation_between(&va, &vb).map(|m| quat_matrix(f_q(&m))), a, b)?;
    if let Some(i) = Isometry3::rotation_between(&va, &vb) {
        ck_eq!(f_v(i.translation().vector()), [0.0; 3], "translation of the rotation between {a:?} and {b:?}");
    }
    if let Some(q) = Quaternion::rotation_between(&va, &vb) {
        ck!(q.scalar() >= S::of(0.0), "rotation between {a:?} and {b:?} is the quaternion {q:?} of more than a half turn");
    }
    if zero {
        return Ok(());
    }
    let (a, b) = (rnd::<S, 3>(normalize(a)), rnd::<S, 3>(normalize(b)));
    let (va, vb) = (Unit::from_value_unchecked(vf::<S, 3>(a)), Unit::from_value_unchecked(vf::<S, 3>(b)));
    one("Matrix3x3::rotation_between_axis", Matrix3x3::rotation_between_axis(&va, &vb).map(|m| f_m(&m)), a, b)?;
    one("Rotation3::rotation_between_axis", Rotation3::rotation_between_axis(&va, &vb).map(|m| f_m(m.matrix())), a, b)?;
    one("Isometry3::rotation_between_axis", Isometry3::rotation_between_axis(&va, &vb).map(|m| f_m(m.rotation().matrix())), a, b)?;
    one("Quaternion::rotation_between_axis", Quaternion::rotation_between_axis(&va, &vb).map(|m| quat_matrix(f_q(&m))), a, b)?;
    Ok(())
}
/// turning by one angle and then another about one axis is turning by their sum
fn compose<S: F>(s: &mut Src) -> Res {
    let (a, b) = (ang::<S>(s), ang::<S>(s));
    let (u, uu) = unit::<S, 3>(s);
    s.note("a, b, axis", &(a.r, b.r, u));
    let tol = 2.0 * (a.tol() + b.tol());
    let t = a.r.0 + b.r.0;
    ck_mat!(f_m(&(Matrix3x3::from_axis_angle(&uu, a.r.1) * Matrix3x3::from_axis_angle(&uu, b.r.1))), rot3(u, t), tol, "turn by {:?} and {:?} about {u:?}", a.r, b.r);
    ck_mat!(f_m(&(Matrix2x2::<S>::from_angle(a.r.1) * Matrix2x2::from_angle(b.r.1))), rot2(t), tol, "turn by {:?} and {:?}", a.r, b.r);
    let q = Quaternion::from_axis_angle(&uu, a.r.1) * Quaternion::from_axis_angle(&uu, b.r.1);
    let (sn, cs) = (t / 2.0).sin_cos();
    ck_vec!(f_q(&q), [cs, u[0] * sn, u[1] * sn, u[2] * sn], tol, "quaternion turn by {:?} and {:?} about {u:?}", a.r, b.r);
    ck!(maxabs(&f_q(&q)) <= 1.0 + tol);
    ck!(mdiff(f_m(&Matrix3x3::from_axis_angle(&uu, a.r.1)), mt(f_m(&Matrix3x3::from_axis_angle(&uu, -a.r.1)))) <= tol, "turns by {:?} and back about {u:?} are not transposes", a.r);
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P19", "an angle other than zero and a direction off the axes, or two different directions, were drawn");
    suite.extremes = 5.0;
    suite.quick = 100_000;
    suite.thorough = 3_000_000;
    subs!(suite, "in the plane", 1.0, plane; f32, f64);
    subs!(suite, "in space", 1.0, space; f32, f64);
    subs!(suite, "between directions in the plane", 1.0, between2; f32, f64);
    subs!(suite, "between directions in space", 2.0, between3; f32, f64);
    subs!(suite, "one turn after another", 1.0, compose; f32, f64);
    pbt::main(suite);
}
