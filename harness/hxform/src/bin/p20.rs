//! P20: looking in a direction and at a target.
use hxform::*;
use pbt::kit::{cross, dot, ident, mmul, mt, mvec, norm, normalize, scale, sub, M};
use pbt::{ck, ck_mat, ck_vec, Res, Src, Suite};

struct Setup {
    eye: [f64; 3],
    target: [f64; 3],
    dir: [f64; 3],
    /// from the eye to the target
    far: f64,
    up: [f64; 3],
    /// relative error of the orthonormal frame
    tol: f64,
    /// that of the frame towards the target
    tol_at: f64,
}
fn setup<S: F>(s: &mut Src) -> Setup {
    let eye = rnd::<S, 3>(s.rvec());
    let mut target = rnd::<S, 3>(s.rvec());
    if norm(&sub(target, eye)) < (1e-4f64).max(1e4 * S::EPS * norm(&eye)) {
        target = rnd::<S, 3>(std::array::from_fn(|i| eye[i] + [3.0, 4.0, 5.0][i]));
    }
    // what the type makes of the difference, or a direction alike but of another length
    let mut dir = rnd::<S, 3>(sub(target, eye));
    let far = norm(&dir);
    if s.one_in(4) {
        let k = 2f64.powi(s.range(-20, 20) as i32);
        dir = rnd::<S, 3>(scale(dir, k));
    }
    let up = match s.draw(5) {
        0 => [0.0, 1.0, 0.0],
        1 => [0.0, 0.0, 1.0],
        2 => s.unit_vec(),
        _ => s.rvec_nz(1e-2),
    };
    let sine = |a: [f64; 3], b: [f64; 3]| norm(&cross(normalize(a), normalize(b)));
    let mut up = rnd::<S, 3>(up);
    if s.one_in(8) {
        // nearly along the direction
        let near: [f64; 3] = s.unit_vec();
        let d = normalize(dir);
        let k = 10f64.powf(-s.unit() * 2.5);
        up = rnd::<S, 3>(std::array::from_fn(|i| d[i] + k * near[i]));
    }
    if s.one_in(6) {
        let k = 2f64.powi(s.range(-20, 20) as i32);
        up = rnd::<S, 3>(scale(up, k));
    }
    if norm(&up) == 0.0 || sine(up, dir) < 2e-3 {
        // the axis farthest off the direction
        let i = (0..3).min_by(|a, b| dir[*a].abs().partial_cmp(&dir[*b].abs()).unwrap()).unwrap();
        up = [0.0; 3];
        up[i] = 1.0;
    }
    let k = 1.0 / sine(up, dir);
    let tol = 32.0 * S::EPS * k;
    let tol_at = tol * (1.0 + (norm(&eye) + norm(&target)) / far);
    s.note("eye, target, direction, up", &(eye, target, dir, up));
    Setup { eye, target, dir, far, up, tol, tol_at }
}
/// rows: the axes of the viewer
fn frame(dir: [f64; 3], up: [f64; 3], left_handed: bool) -> M<3, 3> {
    let z = normalize(scale(dir, if left_handed { 1.0 } else { -1.0 }));
    let x = normalize(cross(up, z));
    [x, cross(z, x), z]
}
fn quat_matrix(q: [f64; 4]) -> M<3, 3> {
    let [s, x, y, z] = q;
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - s * z), 2.0 * (x * z + s * y)],
        [2.0 * (x * y + s * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - s * x)],
        [2.0 * (x * z - s * y), 2.0 * (y * z + s * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
/// linear parts of all types
fn linear<S: F>(s: &mut Src) -> Res {
    let c = setup::<S>(s);
    let (e, t, d, u) = (pf::<S, 3>(c.eye), pf::<S, 3>(c.target), vf::<S, 3>(c.dir), vf::<S, 3>(c.up));
    macro_rules! hand {
        ($lh:expr, $to:ident, $at:ident, $to_inv:ident, $at_inv:ident) => {{
            let w = frame(c.dir, c.up, $lh);
            let n = |f: &str| format!("{f} from {:?} to {:?} with {:?} up", c.eye, c.target, c.up);
            for (f, m, w, tol) in [
                (stringify!($to), f_m(&Matrix3x3::$to(&d, &u)), w, c.tol),
                (stringify!($at), f_m(&Matrix3x3::$at(&e, &t, &u)), w, c.tol_at),
                (stringify!($to_inv), f_m(&Matrix3x3::$to_inv(&d, &u)), mt(w), c.tol),
                (stringify!($at_inv), f_m(&Matrix3x3::$at_inv(&e, &t, &u)), mt(w), c.tol_at),
            ] {
                ck_mat!(m, w, tol, "Matrix3x3::{}", n(f));
            }
            for (f, m, w, tol) in [
                (stringify!($to), f_m(Rotation3::$to(&d, &u).matrix()), w, c.tol),
                (stringify!($at), f_m(Rotation3::$at(&e, &t, &u).matrix()), w, c.tol_at),
                (stringify!($to_inv), f_m(Rotation3::$to_inv(&d, &u).matrix()), mt(w), c.tol),
                (stringify!($at_inv), f_m(Rotation3::$at_inv(&e, &t, &u).matrix()), mt(w), c.tol_at),
            ] {
                ck_mat!(m, w, tol, "Rotation3::{}", n(f));
            }
            for (f, q, w, tol) in [
                (stringify!($to), Quaternion::$to(&d, &u), w, c.tol),
                (stringify!($at), Quaternion::$at(&e, &t, &u), w, c.tol_at),
                (stringify!($to_inv), Quaternion::$to_inv(&d, &u), mt(w), c.tol),
                (stringify!($at_inv), Quaternion::$at_inv(&e, &t, &u), mt(w), c.tol_at),
            ] {
                let q = f_q(&q);
                ck!((norm(&q) - 1.0).abs() <= 4.0 * tol, "Quaternion::{} has norm {}", n(f), norm(&q));
                ck_mat!(quat_matrix(q), w, 8.0 * tol, "Quaternion::{}", n(f));
            }
        }};
    }
    hand!(true, look_to_lh, look_at_lh, look_to_lh_inv, look_at_lh_inv);
    hand!(false, look_to_rh, look_at_rh, look_to_rh_inv, look_at_rh_inv);
    Ok(())
}
/// affine transformations: the eye goes to the origin, the target onto the third axis, and back
fn affine<S: F>(s: &mut Src) -> Res {
    let c = setup::<S>(s);
    let (e, t, d, u) = (pf::<S, 3>(c.eye), pf::<S, 3>(c.target), vf::<S, 3>(c.dir), vf::<S, 3>(c.up));
    let fwd = |w: M<3, 3>| -> M<4, 4> {
        let k = mvec(w, c.eye);
        [[w[0][0], w[0][1], w[0][2], -k[0]], [w[1][0], w[1][1], w[1][2], -k[1]], [w[2][0], w[2][1], w[2][2], -k[2]], [0.0, 0.0, 0.0, 1.0]]
    };
    let inv = |w: M<3, 3>, k: [f64; 3]| -> M<4, 4> {
        [[w[0][0], w[1][0], w[2][0], k[0]], [w[0][1], w[1][1], w[2][1], k[1]], [w[0][2], w[1][2], w[2][2], k[2]], [0.0, 0.0, 0.0, 1.0]]
    };
    let ne = 1.0 + norm(&c.eye);
    macro_rules! hand {
        ($lh:expr, $to:ident, $at:ident, $to_inv:ident, $at_inv:ident) => {{
            let w = frame(c.dir, c.up, $lh);
            let n = |f: &str| format!("{f} from {:?} to {:?} with {:?} up", c.eye, c.target, c.up);
            for (f, m, tol) in [
                (concat!("Matrix4x4::", stringify!($to)), f_m(&Matrix4x4::$to(&e, &d, &u)), c.tol),
                (concat!("Matrix4x4::", stringify!($at)), f_m(&Matrix4x4::$at(&e, &t, &u)), c.tol_at),
                (concat!("Isometry3::", stringify!($to)), f_m(&Isometry3::$to(&e, &d, &u).to_affine_matrix()), c.tol),
                (concat!("Isometry3::", stringify!($at)), f_m(&Isometry3::$at(&e, &t, &u).to_affine_matrix()), c.tol_at),
                (concat!("Similarity3::", stringify!($to)), f_m(&Similarity3::$to(&e, &d, &u).to_affine_matrix()), c.tol),
                (concat!("Similarity3::", stringify!($at)), f_m(&Similarity3::$at(&e, &t, &u).to_affine_matrix()), c.tol_at),
            ] {
                ck_mat!(m, fwd(w), tol * ne, "{}", n(f));
                // in terms of what is seen
                let at = |p: [f64; 3]| {
                    let g = mvec(m, [p[0], p[1], p[2], 1.0]);
                    [g[0], g[1], g[2]]
                };
                ck_vec!(at(c.eye), [0.0; 3], 2.0 * tol * ne, "eye seen by {}", n(f));
                let z = c.far * if $lh { 1.0 } else { -1.0 };
                ck_vec!(at(c.target), [0.0, 0.0, z], 4.0 * tol * (ne + norm(&c.target)), "target seen by {}", n(f));
                let uu = normalize(c.up);
                let g = mvec(m, [uu[0], uu[1], uu[2], 0.0]);
                ck!(g[0].abs() <= 4.0 * tol && g[1] > 0.0, "up is seen as {g:?} by {}", n(f));
            }
            for (f, m, tol) in [
                (concat!("Isometry3::", stringify!($to_inv)), f_m(&Isometry3::$to_inv(&e, &d, &u).to_affine_matrix()), c.tol),
                (concat!("Isometry3::", stringify!($at_inv)), f_m(&Isometry3::$at_inv(&e, &t, &u).to_affine_matrix()), c.tol_at),
                (concat!("Similarity3::", stringify!($to_inv)), f_m(&Similarity3::$to_inv(&e, &d, &u).to_affine_matrix()), c.tol),
                (concat!("Similarity3::", stringify!($at_inv)), f_m(&Similarity3::$at_inv(&e, &t, &u).to_affine_matrix()), c.tol_at),
            ] {
                ck_mat!(m, inv(w, c.eye), tol * ne, "{}", n(f));
            }
            for (f, id, m, tol) in [
                (concat!("Matrix4x4::", stringify!($to_inv)), concat!("matrix4x4-", stringify!($to_inv)), f_m(&Matrix4x4::$to_inv(&e, &d, &u)), c.tol),
                (concat!("Matrix4x4::", stringify!($at_inv)), concat!("matrix4x4-", stringify!($at_inv)), f_m(&Matrix4x4::$at_inv(&e, &t, &u)), c.tol_at),
            ] {
                if pbt::kit::mdiff(m, inv(w, c.eye)) <= tol * ne {
                    continue;
                }
                // known: the translation is given in the axes of the viewer
                let k = mvec(w, c.eye);
                ck_mat!(m, inv(w, k), tol * ne, "{}", n(f));
                s.finding(id, format!("{} puts the eye at {k:?}", n(f)));
            }
            let m = f_m(&(Isometry3::$to_inv(&e, &d, &u) * Isometry3::$to(&e, &d, &u)).to_affine_matrix());
            ck_mat!(m, ident(), 8.0 * c.tol * ne, "{} and back", n(stringify!($to)));
            ck_mat!(mmul(m, m), ident(), 16.0 * c.tol * ne, "{} and back, twice", n(stringify!($to)));
        }};
    }
    hand!(true, look_to_lh, look_at_lh, look_to_lh_inv, look_at_lh_inv);
    hand!(false, look_to_rh, look_at_rh, look_to_rh_inv, look_at_rh_inv);
    ck!(dot(&c.dir, &c.dir) > 0.0);
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P20", "an eye, target or up direction with a component other than 0, 1 and -1 was drawn");
    suite.extremes = 5.0;
    suite.quick = 60_000;
    suite.thorough = 2_000_000;
    suite.assumptions = vec!["the sine of the angle between the direction and up is at least 0.002"];
    subs!(suite, "rotations", 1.0, linear; f32, f64);
    subs!(suite, "views", 1.0, affine; f32, f64);
    pbt::main(suite);
}
