//! P28: rotations as a type: a group acting on vectors and points, with axis and angle.
use hxform::*;
use pbt::kit::{cross, diff, dot, ident, maxabs, mdiff, mmul, mt, mvec, norm, normalize, rot2, rot3, M};
use pbt::{ck, ck_mat, ck_near, ck_vec, Res, Src, Suite};
use std::f64::consts::PI;

macro_rules! group {
    ($s:expr, $S:ty, $N:literal, $P:literal, $R:ident, $make:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let (a, l) = $make::<$S>(s);
        let (b, k) = $make::<$S>(s);
        s.note("a, b", &(a, b));
        let v = rnd::<$S, $N>(s.rvec());
        let p = rnd::<$S, $N>(s.rvec());
        // l and k are the elements the rotations hold, so that only the rounding of the operation is left
        let (tv, tp) = (16.0 * e * norm(&v), 16.0 * e * norm(&p));
        images!(a, vf::<$S, $N>(v), pf::<$S, $N>(p), mvec(l, v), mvec(l, p), tv, tp);
        let inv = mt(l);
        ck_vec!(f_v(&a.inverse_apply_vector(&vf(v))), mvec(inv, v), tv, "inverse_apply_vector: {a:?} of {v:?}");
        ck_vec!(f_p(&a.inverse_apply_point(&pf(p))), mvec(inv, p), tp, "inverse_apply_point: {a:?} of {p:?}");
        let mut m = a;
        m.inverse_mut();
        for (form, g) in [("inverse", a.inverse()), ("inverse_mut", m)] {
            ck_mat!(f_m(g.matrix()), inv, 16.0 * e, "{form} of {a:?}");
        }
        for (form, g) in [("a * b", a * b), ("a * &b", a * &b), ("&a * b", &a * b), ("&a * &b", &a * &b)] {
            ck_mat!(f_m(g.matrix()), mmul(l, k), 16.0 * e, "{form} of {a:?} and {b:?}");
        }
        let as_ref: &Matrix<$S, $N, $N> = a.as_ref();
        ck!(f_m(as_ref) == l && f_m(&a.to_matrix()) == l, "as_ref or to_matrix of {a:?} differs from its matrix");
        affine!(a, aff::<$N, $P>(l, [0.0; $N]), 0.0);
        ck_mat!(f_m($R::<$S>::identity().matrix()), ident::<$N>(), 0.0, "identity");
        // a history of products, inverses and round trips keeps to the group
        let mut g = a;
        let mut w = l;
        let steps = 1 + s.below(10);
        for _ in 0..steps {
            match s.draw(4) {
                0 => { g = g * b; w = mmul(w, k); }
                1 => { g = b * g; w = mmul(k, w); }
                2 => { g = g.inverse(); w = mt(w); }
                3 => { g.inverse_mut(); w = mt(w); }
                _ => { let (c, n) = $make::<$S>(s); g = &g * &c; w = mmul(w, n); }
            }
        }
        if steps > 2 { s.label("long history"); }
        let tol = 32.0 * e * (steps as f64 + 1.0);
        let gm = f_m(g.matrix());
        ck_mat!(gm, w, tol, "after {steps} steps");
        ck_mat!(mmul(gm, mt(gm)), ident::<$N>(), 2.0 * tol, "after {steps} steps not orthogonal: {g:?}");
        Ok(())
    }};
}
fn make2<S: F>(s: &mut Src) -> (Rotation2<S>, M<2, 2>) {
    let t = ang::<S>(s);
    let r = if s.coin() { Rotation2::from_angle(t.r.1) } else { Rotation2::from_angle(t.d.1) };
    (r, f_m(r.matrix()))
}
fn make3<S: F>(s: &mut Src) -> (Rotation3<S>, M<3, 3>) {
    let t = ang::<S>(s);
    let (_, u) = unit::<S, 3>(s);
    let r = match s.draw(4) {
        0 => Rotation3::from_angle_x(t.r.1),
        1 => Rotation3::from_angle_y(t.r.1),
        2 => Rotation3::from_angle_z(t.d.1),
        3 => Rotation3::from_quaternion(&Quaternion::from_axis_angle(&u, t.r.1)),
        _ => Rotation3::from_axis_angle(&u, t.d.1),
    };
    (r, f_m(r.matrix()))
}
fn plane<S: F>(s: &mut Src) -> Res {
    group!(s, S, 2, 3, Rotation2, make2)
}
fn space<S: F>(s: &mut Src) -> Res {
    group!(s, S, 3, 4, Rotation3, make3)
}
/// the angle of a rotation in the plane
fn angle2<S: F>(s: &mut Src) -> Res {
    let t = ang::<S>(s);
    s.note("angle", &t.r.0);
    for (a, r) in [(t.r.0, Rotation2::from_angle(t.r.1)), (t.d.0, Rotation2::from_angle(t.d.1))] {
        let g = r.angle().0.f();
        ck!(g.abs() <= PI * (1.0 + S::EPS), "angle of {r:?} is {g}, out of range");
        let off = ((g - a) / (2.0 * PI)).round() * 2.0 * PI;
        ck_near!(g + 0.0, a + off, t.tol() + S::EPS * 4.0, "angle of the rotation by {a}");
        ck_mat!(rot2(g), f_m(r.matrix()), 16.0 * S::EPS, "angle of {r:?}");
    }
    Ok(())
}
/// axis and angle of a rotation in space, and quaternions
fn axis3<S: F>(s: &mut Src) -> Res {
    let e = S::EPS;
    let (u, uu) = unit::<S, 3>(s);
    let t = match s.draw(6) {
        0 => 0.0,
        1 => PI,
        2 => s.pick(&[0.0, PI]) + s.pick(&[1.0, -1.0]) * 10f64.powf(s.between(-17.0, -1.0)),
        _ => s.angle(),
    };
    let t = <S as pbt::kit::Fl>::of(t);
    s.note("axis, angle", &(u, t));
    let r = Rotation3::from_axis_angle(&uu, Radians(t));
    let m = f_m(r.matrix());
    // the turn by an angle between zero and a half turn about the axis or its opposite
    let ct = ((m[0][0] + m[1][1] + m[2][2] - 1.0) / 2.0).clamp(-1.0, 1.0);
    let axial = [(m[2][1] - m[1][2]) / 2.0, (m[0][2] - m[2][0]) / 2.0, (m[1][0] - m[0][1]) / 2.0];
    let st = norm(&axial);
    let want = st.atan2(ct);
    let g = r.angle().0.f();
    ck!(g >= 0.0 && g <= PI * (1.0 + e), "angle of {r:?} is {g}, out of range");
    // the inverse cosine loses half of the digits where it is steep
    let slack = 16.0 * e + 4.0 * (4.0 * e).sqrt().min(4.0 * e / st.max(1e-300));
    ck_near!(g, want, slack, "angle of {r:?}");
    let truth = (t.f().abs() / (2.0 * PI)).fract() * 2.0 * PI;
    let truth = truth.min(2.0 * PI - truth);
    ck_near!(g, truth, slack + 16.0 * e * (1.0 + t.f().abs()), "angle of the rotation by {t:?}");
    match r.axis() {
        None => {
            s.label("no axis");
            ck!(2.0 * st <= 2.0 * e, "{r:?} turns by {want} but has no axis");
            ck!(r.axis_angle().is_none(), "{r:?} has no axis, but an axis and an angle");
        }
        Some(a) => {
            let a = f_v(a.as_ref());
            ck!(2.0 * st >= e / 2.0, "{r:?} hardly turns, but has the axis {a:?}");
            let w = [axial[0] / st, axial[1] / st, axial[2] / st];
            ck_vec!(a, w, 8.0 * e, "axis of {r:?}");
            ck!(maxabs(&cross(a, u)) <= 64.0 * e * (1.0 + t.f().abs()) / st, "axis of {r:?} is {a:?}, not along {u:?}");
            match r.axis_angle() {
                None => return Err(format!("{r:?} has an axis, but no axis and angle")),
                Some((b, h)) => {
                    ck!(diff(&f_v(b.as_ref()), &a) <= 4.0 * e && (h.0.f() - g).abs() <= 8.0 * e, "axis_angle of {r:?} is {b:?} and {h:?}");
                    // turning by that angle about that axis gives the rotation back
                    if st > 256.0 * e {
                        let tol = slack + 128.0 * e * (1.0 + t.f().abs()) / st;
                        ck_mat!(rot3(a, g), m, tol, "axis and angle of {r:?} make another rotation");
                    }
                }
            }
        }
    }
    for (form, q) in [("Quaternion::from(rotation)", Quaternion::from(r)), ("Quaternion::from(&rotation)", Quaternion::from(&r))] {
        let f = f_q(&q);
        ck_near!(norm(&f), 1.0, 32.0 * e, "{form} of {r:?}: norm");
        for (back, b) in [("from_quaternion", Rotation3::from_quaternion(&q)), ("from", Rotation3::from(q)), ("from reference", Rotation3::from(&q))] {
            ck!(mdiff(f_m(b.matrix()), m) <= 64.0 * e, "{form}, then {back}: {r:?} became {b:?}");
        }
    }
    Ok(())
}
/// rotations between two directions
fn between<S: F>(s: &mut Src) -> Res {
    let tol = 64.0 * S::EPS;
    let (a, b) = pair::<S, 2>(s);
    let (c, d) = pair::<S, 3>(s);
    s.note("a, b, c, d", &(a, b, c, d));
    let (x, y) = (vf::<S, 2>(a), vf::<S, 2>(b));
    let turn = |a: [f64; 2], b: [f64; 2]| if norm(&a) == 0.0 || norm(&b) == 0.0 { ident() } else { rot2((a[0] * b[1] - a[1] * b[0]).atan2(dot(&a, &b))) };
    ck_mat!(f_m(Rotation2::rotation_between(&x, &y).matrix()), turn(a, b), tol, "rotation between {a:?} and {b:?}");
    let (x, y) = (vf::<S, 3>(c), vf::<S, 3>(d));
    between_ok::<S>("Rotation3::rotation_between", Rotation3::rotation_between(&x, &y).map(|m| f_m(m.matrix())), c, d)?;
    if norm(&a) != 0.0 && norm(&b) != 0.0 {
        let [a, b] = [a, b].map(|t| rnd::<S, 2>(normalize(t)));
        let [x, y] = [a, b].map(|t| Unit::from_value_unchecked(vf::<S, 2>(t)));
        ck_mat!(f_m(Rotation2::rotation_between_axis(&x, &y).matrix()), turn(a, b), tol, "rotation between the unit {a:?} and {b:?}");
    }
    if norm(&c) != 0.0 && norm(&d) != 0.0 {
        let [c, d] = [c, d].map(|t| rnd::<S, 3>(normalize(t)));
        let [x, y] = [c, d].map(|t| Unit::from_value_unchecked(vf::<S, 3>(t)));
        between_ok::<S>("Rotation3::rotation_between_axis", Rotation3::rotation_between_axis(&x, &y).map(|m| f_m(m.matrix())), c, d)?;
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P28", "an angle, coordinate or axis other than a small integer was drawn");
    suite.extremes = 6.0;
    suite.quick = 200_000;
    suite.thorough = 8_000_000;
    subs!(suite, "rotations of the plane", 1.0, plane; f32, f64);
    subs!(suite, "rotations of space", 1.0, space; f32, f64);
    subs!(suite, "angles in the plane", 0.5, angle2; f32, f64);
    subs!(suite, "axes, angles and quaternions", 1.5, axis3; f32, f64);
    subs!(suite, "between directions", 0.5, between; f32, f64);
    pbt::main(suite);
}
