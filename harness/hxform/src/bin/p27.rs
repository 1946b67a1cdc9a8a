//! P27: Euler angles.
use hxform::*;
use pbt::kit::{mmul, rot3, M};
use pbt::{ck, ck_mat, Res, Src, Suite};

fn reference(t: [f64; 3]) -> M<3, 3> {
    mmul(rot3([1.0, 0.0, 0.0], t[0]), mmul(rot3([0.0, 1.0, 0.0], t[1]), rot3([0.0, 0.0, 1.0], t[2])))
}
fn affine(m: M<3, 3>) -> M<4, 4> {
    let mut a = pbt::kit::ident::<4>();
    for r in 0..3 {
        a[r][..3].copy_from_slice(&m[r]);
    }
    a
}
fn build<S: F>(s: &mut Src) -> Res {
    let a: [Ang<S>; 3] = std::array::from_fn(|_| ang::<S>(s));
    let tol = 4.0 * a.iter().map(|t| t.tol()).fold(0.0, f64::max);
    macro_rules! unit {
        ($u:ident) => {{
            let t = [a[0].$u.0, a[1].$u.0, a[2].$u.0];
            let e = Euler::new(a[0].$u.1, a[1].$u.1, a[2].$u.1);
            s.note("roll, yaw, pitch", &e);
            let w = reference(t);
            for (i, m) in [e.to_matrix(), Matrix3x3::from(e), Matrix3x3::from(&e), Matrix3x3::from_euler_angles(&e),
                *Rotation3::from_euler_angles(&e).matrix(), *Rotation3::from(e).matrix(), *Rotation3::from(&e).matrix()].iter().enumerate() {
                ck_mat!(f_m(m), w, tol, "matrix of {e:?} (form {i})");
            }
            for (i, m) in [e.to_affine_matrix(), Matrix4x4::from(e), Matrix4x4::from(&e), Matrix4x4::from_euler_angles(&e)].iter().enumerate() {
                ck_mat!(f_m(m), affine(w), tol, "affine matrix of {e:?} (form {i})");
            }
            let z = t == [0.0; 3];
            ck!(e.is_zero() == z, "is_zero of {e:?} is {}", e.is_zero());
            ck!(e.x == a[0].$u.1 && e.y == a[1].$u.1 && e.z == a[2].$u.1, "{e:?} does not hold its angles");
        }};
    }
    unit!(r);
    unit!(d);
    ck!(Euler::<Radians<S>>::zero().is_zero() && Euler::<Degrees<S>>::zero().is_zero(), "zero angles are not zero");
    Ok(())
}
fn extract<S: F>(s: &mut Src) -> Res {
    use std::f64::consts::{FRAC_PI_2, PI};
    let e = S::EPS;
    let roll = s.angle();
    let pitch = s.angle();
    let yaw = match s.draw(5) {
        0 => FRAC_PI_2 * if s.coin() { 1.0 } else { -1.0 },
        1 => {
            let d = 10f64.powf(s.between(-9.0, -1.0));
            (FRAC_PI_2 - d) * if s.coin() { 1.0 } else { -1.0 }
        }
        _ => s.angle(),
    };
    s.note("roll, yaw, pitch", &(roll, yaw, pitch));
    let rotation = Rotation3::from_euler_angles(&Euler::new(rad::<S>(roll), rad::<S>(yaw), rad::<S>(pitch)));
    let m = f_m(rotation.matrix());
    let q = Quaternion::from_matrix(rotation.matrix());
    let cy = m[0][0].hypot(m[0][1]);
    for (what, g) in [("Rotation3::euler_angles", rotation.euler_angles()), ("Euler::from(quaternion)", Euler::from(q)), ("Euler::from(&quaternion)", Euler::from(&q))] {
        let t: [f64; 3] = [g.x.0.f(), g.y.0.f(), g.z.0.f()];
        ck!(t.iter().all(|a| a.abs() <= PI * (1.0 + e)) && t[1].abs() <= FRAC_PI_2 * (1.0 + e), "{what} of {m:?} gives {t:?}, out of range");
        let b = reference(t);
        // the inverse sine loses half of the digits where it is steep
        let tol = 32.0 * e + 8.0 * (2.0 * e).sqrt().min(2.0 * e / cy.max(1e-300));
        let off = pbt::kit::mdiff(b, m);
        if off <= tol {
            continue;
        }
        if cy < 8.0 * (2.0 * e).sqrt() && (b[0][2] - m[0][2]).abs() <= tol && off.is_finite() {
            // at gimbal lock only the sum or difference of the other angles is determined: a recorded finding
            s.finding("gimbal-lock", format!("{what} of the rotation by roll {roll}, yaw {yaw}, pitch {pitch} gives {t:?}, another rotation"));
            continue;
        }
        return Err(format!("{what} of {m:?} gives {t:?}, the angles of {b:?}, off by {off:e} > {tol:e}"));
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P27", "an angle other than zero was drawn");
    suite.quick = 300_000;
    suite.thorough = 10_000_000;
    subs!(suite, "rotations from angles", 1.0, build; f32, f64);
    subs!(suite, "angles of rotations", 1.0, extract; f32, f64);
    pbt::main(suite);
}
