//! P23: quaternions and rotation matrices represent the same rotations; interpolation between them.
use hcore::*;
use pbt::kit::{add, dot, mdiff, mmul, maxabs, mvec, norm, scale, sub, M};
use pbt::{ck, ck_mat, ck_vec, Res, Src, Suite};

/// the rotation of a unit quaternion
fn matrix(q: [f64; 4]) -> M<3, 3> {
    let [s, x, y, z] = scale(q, 1.0 / norm(&q));
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - s * z), 2.0 * (x * z + s * y)],
        [2.0 * (x * y + s * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - s * x)],
        [2.0 * (x * z - s * y), 2.0 * (y * z + s * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
fn affine(m: M<3, 3>) -> M<4, 4> {
    let mut a = pbt::kit::ident::<4>();
    for r in 0..3 {
        a[r][..3].copy_from_slice(&m[r]);
    }
    a
}
/// unit quaternions: generic, axis turns, half turns, near the identity
fn unit(s: &mut Src) -> [f64; 4] {
    match s.draw(7) {
        0 => {
            let u = s.unit_vec::<3>();
            [0.0, u[0], u[1], u[2]]
        }
        1 => {
            let u = s.unit_vec::<3>();
            let t = 10f64.powf(s.between(-9.0, -1.0));
            let (sn, cs) = t.sin_cos();
            [cs, sn * u[0], sn * u[1], sn * u[2]]
        }
        2 => {
            let u = s.unit_vec::<3>();
            let (sn, cs) = (0.5 * s.angle()).sin_cos();
            [cs, sn * u[0], sn * u[1], sn * u[2]]
        }
        3 => {
            let i = s.below(4);
            let mut a = [0.0; 4];
            a[i] = if s.coin() { 1.0 } else { -1.0 };
            a
        }
        _ => s.unit_vec(),
    }
}
fn to_matrix<S: F>(s: &mut Src) -> Res {
    let k = match s.draw(3) {
        0 => 1.0,
        _ => 10f64.powf(s.between(-5.0, 5.0)),
    };
    let a = rnd::<S, 4>(scale(unit(s), k));
    s.note("q", &a);
    let x = qf::<S>(a);
    let m = matrix(a);
    let tol = 16.0 * S::EPS;
    let mut g3 = [x.to_matrix(), Matrix3x3::from(x), Matrix3x3::from(&x), Matrix3x3::from_fill(S::i(7))];
    x.to_matrix_mut(&mut g3[3]);
    for (i, g) in g3.iter().enumerate() {
        ck_mat!(f_m(g), m, tol, "matrix of the quaternion {a:?} (form {i})");
    }
    let mut g4 = [x.to_affine_matrix(), Matrix4x4::from(x), Matrix4x4::from(&x), Matrix4x4::from_fill(S::i(7))];
    x.to_affine_matrix_mut(&mut g4[3]);
    for (i, g) in g4.iter().enumerate() {
        ck_mat!(f_m(g), affine(m), tol, "affine matrix of the quaternion {a:?} (form {i})");
    }
    // the same action as conjugation by the quaternion
    let w = rnd::<S, 3>(s.rvec());
    s.note("w", &w);
    let c = x * Quaternion::from_pure(vf::<S, 3>(w)) * x.inverse();
    ck_vec!(f_v(&c.vector()), mvec(m, w), 64.0 * S::EPS * norm(&w), "conjugation of {w:?} by {a:?}");
    ck!(c.scalar().f().abs() <= 64.0 * S::EPS * norm(&w), "conjugation of the pure {w:?} by {a:?} gives {c:?}");
    // products compose
    let b = rnd::<S, 4>(unit(s));
    s.note("b", &b);
    let p = x * qf::<S>(b);
    ck_mat!(f_m(&p.to_matrix()), mmul(m, matrix(b)), 64.0 * S::EPS, "matrix of the product of {a:?} and {b:?}");
    // the opposite quaternion is the same rotation, the conjugate the inverse one
    ck_mat!(f_m(&(-x).to_matrix()), m, tol, "matrix of the negated quaternion {a:?}");
    ck_mat!(f_m(&x.conjugate().to_matrix()), pbt::kit::mt(m), tol, "matrix of the conjugate of {a:?}");
    Ok(())
}
fn from_matrix<S: F>(s: &mut Src) -> Res {
    let a = unit(s);
    s.note("rotation", &a);
    let m = rndm::<S, 3, 3>(matrix(a));
    let x = matf::<S, 3, 3>(m);
    for (i, g) in [Quaternion::from_matrix(&x), Quaternion::from(x), Quaternion::from(&x)].iter().enumerate() {
        let g = f_q(g);
        let tol = 32.0 * S::EPS;
        ck!((norm(&g) - 1.0).abs() <= tol, "the quaternion of the rotation {a:?} is {g:?}, of norm {} (form {i})", norm(&g));
        let d = norm(&sub(g, a)).min(norm(&add(g, a)));
        ck!(d <= tol, "the quaternion of the rotation {a:?} is {g:?} (form {i})");
        ck!(mdiff(matrix(g), m) <= 2.0 * tol, "the quaternion {g:?} of the matrix {m:?} has another matrix (form {i})");
    }
    Ok(())
}
fn interpolation<S: F>(s: &mut Src) -> Res {
    let a = rnd::<S, 4>(unit(s));
    let b = match s.draw(6) {
        0 => a,
        5 => {
            // at a right angle, exactly or nearly
            let d = if s.coin() { 0.0 } else { 10f64.powf(s.between(-17.0, -5.0)) };
            let o = [[-a[1], a[0], -a[3], a[2]], [-a[2], a[3], a[0], -a[1]], [-a[3], -a[2], a[1], a[0]]][s.below(3)];
            rnd::<S, 4>(add(scale(o, if s.coin() { 1.0 } else { -1.0 }), scale(a, d)))
        }
        1 => a.map(|t| -t),
        2 => {
            // close to the first, or to its opposite
            let d = 10f64.powf(s.between(-8.0, -0.5));
            let u = s.unit_vec::<4>();
            let b = add(a, scale(u, d));
            let k = (if s.coin() { 1.0 } else { -1.0 }) / norm(&b);
            rnd::<S, 4>(scale(b, k))
        }
        _ => rnd::<S, 4>(unit(s)),
    };
    let t = match s.draw(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        // beyond the ends
        3 => S::of(s.between(-1.0, 2.0)).f(),
        _ => S::of(s.unit()).f(),
    };
    s.note("a, b, t", &(a, b, t));
    s.nontrivial = t != 0.0 && t != 1.0;
    let (x, y) = (qf::<S>(a), qf::<S>(b));
    let e = S::EPS;
    // linear and normalized linear interpolation, also between others than unit quaternions
    let k = if s.coin() { [1.0, 1.0] } else { [10f64.powf(s.between(-3.0, 3.0)), 10f64.powf(s.between(-3.0, 3.0))] };
    let (c, f) = (rnd::<S, 4>(scale(a, k[0])), rnd::<S, 4>(scale(b, k[1])));
    let l = add(scale(c, 1.0 - t), scale(f, t));
    let n = norm(&l);
    let size = (norm(&c) + norm(&f)) * (1.0 + t.abs());
    let (u, v) = (qf::<S>(c), qf::<S>(f));
    ck_vec!(f_q(&u.lerp(&v, S::of(t))), l, 8.0 * e * size, "lerp of {c:?} and {f:?} at {t}");
    if n > 0.02 * size {
        ck_vec!(f_q(&u.nlerp(&v, S::of(t))), scale(l, 1.0 / n), 16.0 * e * size / n, "nlerp of {c:?} and {f:?} at {t}");
    }
    // spherical interpolation, along the shorter way
    let d = dot(&a, &b);
    let g = f_q(&x.slerp(&y, S::of(t)));
    let opposite = a.map(|t| -t);
    if d.abs() < 1e-5 {
        // at a right angle, both ways are equally long
        let [w, v] = [a, opposite].map(|r| {
            let theta = 2.0 * norm(&sub(r, b)).atan2(norm(&add(r, b)));
            add(scale(r, ((1.0 - t) * theta).sin() / theta.sin()), scale(b, (t * theta).sin() / theta.sin()))
        });
        let near = |w: [f64; 4]| maxabs(&sub(g, w)) <= 64.0 * e;
        ck!(near(w) || near(v), "slerp of {a:?} and {b:?} at {t} is {g:?}, neither {w:?} nor {v:?}");
        return Ok(());
    }
    let r = if d < 0.0 { opposite } else { a };
    let theta = 2.0 * norm(&sub(r, b)).atan2(norm(&add(r, b)));
    let w = if theta < 1e-12 {
        r
    } else {
        let k = theta.sin();
        add(scale(r, ((1.0 - t) * theta).sin() / k), scale(b, (t * theta).sin() / k))
    };
    // the sine comes from a rounded cosine; below a threshold, the linear form is taken instead
    let tol = 32.0 * e + (4.0 * e / (theta * theta).max(2e-7)).min(1.5) + if theta < 1e-3 { 1e-9 + 4.0 * theta.min(e.sqrt()) } else { 0.0 };
    ck_vec!(g, w, tol, "slerp of {a:?} and {b:?} at {t}");
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P23", "a real other than a small integer was drawn; interpolation: the parameter is neither zero nor one");
    suite.extremes = 5.0;
    suite.quick = 250_000;
    suite.thorough = 8_000_000;
    suite.assumptions = vec!["interpolated quaternions are of norm one up to rounding; at a right angle to one another, either of the two ways is accepted"];
    subs!(suite, "to matrices", 1.0, to_matrix; f32, f64);
    subs!(suite, "from matrices", 1.0, from_matrix; f32, f64);
    subs!(suite, "interpolation", 1.0, interpolation; f32, f64);
    pbt::main(suite);
}
