//! P30: isometries and similarities: rotation, then scaling, then translation, as a group.
use hxform::*;
use pbt::kit::{add, ident, mmul, mt, mvec, norm, rot2, rot3, scale, sub, M};
use pbt::{ck, ck_mat, ck_near, ck_vec, Res, Src, Suite};

/// rotation, translation and their images, for both dimensions
fn rot_2<S: F>(s: &mut Src) -> (Rotation2<S>, M<2, 2>) {
    let t = ang::<S>(s);
    let r = Rotation2::from_angle(t.r.1);
    (r, f_m(r.matrix()))
}
fn rot_3<S: F>(s: &mut Src) -> (Rotation3<S>, M<3, 3>) {
    let t = ang::<S>(s);
    let (_, u) = unit::<S, 3>(s);
    let r = Rotation3::from_axis_angle(&u, t.r.1);
    (r, f_m(r.matrix()))
}
fn shift<S: F, const N: usize>(s: &mut Src) -> (Translation<S, N>, [f64; N]) {
    let o = if s.one_in(5) { [0.0; N] } else { rnd::<S, N>(s.rvec()) };
    (Translation::from_vector(&vf(o)), o)
}
/// parts of an isometry, and of a similarity with its factor
macro_rules! is {
    ($g:expr, $l:expr, $o:expr, $tl:expr, $to:expr, $($what:tt)+) => {{
        let (g, tl, to) = ($g, $tl, $to);
        ck_mat!(f_m(g.rotation().matrix()), $l, tl, "{}: rotation", format!($($what)+));
        ck_vec!(f_v(g.translation().vector()), $o, to, "{}: translation", format!($($what)+));
    }};
}
macro_rules! isometry {
    ($s:expr, $S:ty, $N:literal, $P:literal, $I:ident, $rot:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let (r, l) = $rot::<$S>(s);
        let (t, o) = shift::<$S, $N>(s);
        let (r2, l2) = $rot::<$S>(s);
        let (t2, o2) = shift::<$S, $N>(s);
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        let a = $I::from_parts(&t, &r);
        let b = $I::from_parts(&t2, &r2);
        s.note("a, b", &(a, b));
        let (xv, yp) = (vf::<$S, $N>(x), pf::<$S, $N>(y));
        is!(a, l, o, 0.0, 0.0, "from_parts");
        is!($I::from_rotation(&r), l, [0.0; $N], 0.0, 0.0, "from_rotation({r:?})");
        is!($I::from_translation(&t), ident::<$N>(), o, 0.0, 0.0, "from_translation({t:?})");
        is!($I::<$S>::identity(), ident::<$N>(), [0.0; $N], 0.0, 0.0, "identity");
        let (no, no2, nx, ny) = (norm(&o), norm(&o2), norm(&x), norm(&y));
        let k = 24.0 * e;
        images!(a, xv, yp, mvec(l, x), add(mvec(l, y), o), k * nx, k * (ny + no));
        let li = mt(l);
        let oi = scale(mvec(li, o), -1.0);
        let mut m = a;
        m.inverse_mut();
        for (form, g) in [("inverse", a.inverse()), ("inverse_mut", m)] {
            is!(g, li, oi, k, k * no, "{form} of {a:?}");
        }
        ck_vec!(f_v(&a.inverse_apply_vector(&xv)), mvec(li, x), k * nx, "inverse_apply_vector of {a:?}");
        ck_vec!(f_p(&a.inverse_apply_point(&yp)), mvec(li, sub(y, o)), k * (ny + no), "inverse_apply_point of {a:?}");
        affine!(a, aff::<$N, $P>(l, o), 0.0);
        // products of every pair of kinds, in every form
        let ab = (mmul(l, l2), add(mvec(l, o2), o));
        macro_rules! product {
            ($p:expr, $q:expr, $wl:expr, $wo:expr, $what:expr) => {{
                let (p, q) = ($p, $q);
                for (form, g) in [("a * b", p * q), ("a * &b", p * &q), ("&a * b", &p * q), ("&a * &b", &p * &q)] {
                    is!(g, $wl, $wo, k, k * (no + no2), "{}, {form}: {p:?} and {q:?}", $what);
                }
            }};
        }
        product!(a, b, ab.0, ab.1, "product of isometries");
        product!(r, t2, l, mvec(l, o2), "rotation times translation");
        product!(t, r2, l2, o, "translation times rotation");
        product!(a, t2, l, ab.1, "isometry times translation");
        product!(t, b, l2, add(o, o2), "translation times isometry");
        product!(a, r2, ab.0, o, "isometry times rotation");
        product!(r, b, ab.0, mvec(l, o2), "rotation times isometry");
        // a history
        let mut g = a;
        let (mut wl, mut wo) = (l, o);
        let mut size = no;
        let steps = 1 + s.below(10);
        for _ in 0..steps {
            size += no2;
            match s.draw(7) {
                0 => { g = g * b; wo = add(mvec(wl, o2), wo); wl = mmul(wl, l2); }
                1 => { g = b * g; wo = add(mvec(l2, wo), o2); wl = mmul(l2, wl); }
                2 => { g.inverse_mut(); wl = mt(wl); wo = scale(mvec(wl, wo), -1.0); }
                3 => { g = g.inverse(); wl = mt(wl); wo = scale(mvec(wl, wo), -1.0); }
                4 => { g = g * r2; wl = mmul(wl, l2); }
                5 => { g = t2 * g; wo = add(wo, o2); }
                6 => { g = r2 * g; wo = mvec(l2, wo); wl = mmul(l2, wl); }
                _ => { g = g * t2; wo = add(wo, mvec(wl, o2)); }
            }
        }
        let n = steps as f64 + 1.0;
        is!(g, wl, wo, k * n, 2.0 * k * n * size, "after {steps} steps");
        let gm = f_m(g.rotation().matrix());
        ck_mat!(mmul(gm, mt(gm)), ident::<$N>(), 2.0 * k * n, "after {steps} steps the rotation is not orthogonal");
        Ok(())
    }};
}
fn isometry2<S: F>(s: &mut Src) -> Res {
    isometry!(s, S, 2, 3, Isometry2, rot_2)
}
fn isometry3<S: F>(s: &mut Src) -> Res {
    isometry!(s, S, 3, 4, Isometry3, rot_3)
}
macro_rules! similarity {
    ($s:expr, $S:ty, $N:literal, $P:literal, $Q:ident, $I:ident, $rot:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let (r, l) = $rot::<$S>(s);
        let (t, o) = shift::<$S, $N>(s);
        let f = <$S as pbt::kit::Fl>::of(s.real_nz(1e-3, 1e3));
        let (r2, l2) = $rot::<$S>(s);
        let (t2, o2) = shift::<$S, $N>(s);
        let f2 = <$S as pbt::kit::Fl>::of(s.real_nz(1e-3, 1e3));
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        let a = $Q::from_parts(&t, &r, f);
        let b = $Q::from_parts(&t2, &r2, f2);
        s.note("a, b", &(a, b));
        let (xv, yp) = (vf::<$S, $N>(x), pf::<$S, $N>(y));
        let (one, id, zero) = (<$S as Sc>::i(1), ident::<$N>(), [0.0; $N]);
        let i = $I::from_parts(&t, &r);
        for (what, g, wl, wo, wf) in [("from_parts", a, l, o, f), ("from_rotation", $Q::from_rotation(&r), l, zero, one),
            ("from_translation", $Q::from_translation(&t), id, o, one), ("from_scale", $Q::from_scale(f), id, zero, f),
            ("from_isometry", $Q::from_isometry(&i), l, o, one), ("identity", $Q::identity(), id, zero, one)] {
            is!(g, wl, wo, 0.0, 0.0, "{what}");
            ck!(g.scale() == wf, "{what}: factor {:?}, expected {wf:?}", g.scale());
        }
        let (q, q2) = (f.f(), f2.f());
        let (no, no2, nx, ny) = (norm(&o), norm(&o2), norm(&x), norm(&y));
        let k = 32.0 * e;
        images!(a, xv, yp, scale(mvec(l, x), q), add(scale(mvec(l, y), q), o), k * nx * q.abs(), k * (ny * q.abs() + no));
        let li = mt(l);
        let oi = scale(mvec(li, o), -1.0 / q);
        let mut m = a;
        m.inverse_mut();
        for (form, g) in [("inverse", a.inverse()), ("inverse_mut", m)] {
            is!(g, li, oi, k, k * no / q.abs(), "{form} of {a:?}");
            ck_near!(g.scale().f(), 1.0 / q, k / q.abs(), "{form} of {a:?}: factor");
        }
        ck_vec!(f_v(&a.inverse_apply_vector(&xv)), scale(mvec(li, x), 1.0 / q), k * nx / q.abs(), "inverse_apply_vector of {a:?}");
        ck_vec!(f_p(&a.inverse_apply_point(&yp)), scale(mvec(li, sub(y, o)), 1.0 / q), k * (ny + no) / q.abs(), "inverse_apply_point of {a:?}");
        let lq: M<$N, $N> = std::array::from_fn(|r| std::array::from_fn(|c| l[r][c] * q));
        affine!(a, aff::<$N, $P>(lq, o), k * q.abs());
        let j = $I::from_parts(&t2, &r2);
        let wo = add(o, scale(mvec(l, o2), q));
        for (form, g) in [("a * b", a * b), ("a * &b", a * &b), ("&a * b", &a * b), ("&a * &b", &a * &b)] {
            is!(g, mmul(l, l2), wo, k, k * (no + no2 * q.abs()), "product of similarities, {form}: {a:?} and {b:?}");
            ck_near!(g.scale().f(), q * q2, k * (q * q2).abs(), "product of similarities, {form}: {a:?} and {b:?}: factor");
        }
        for (form, g) in [("a * b", a * j), ("a * &b", a * &j), ("&a * b", &a * j), ("&a * &b", &a * &j)] {
            is!(g, mmul(l, l2), wo, k, k * (no + no2 * q.abs()), "similarity times isometry, {form}: {a:?} and {j:?}");
            ck_near!(g.scale().f(), q, k * q.abs(), "similarity times isometry, {form}: factor");
        }
        // there and back
        let back = a.inverse() * (a * yp);
        ck_vec!(f_p(&back), y, 4.0 * k * (ny + 2.0 * no / q.abs()), "{a:?} there and back");
        // a history
        let mut g = a;
        let (mut wl, mut wo, mut wf) = (l, o, q);
        // size bounds the offset and what it came from, relative to which it is rounded
        let mut size = no;
        let steps = 1 + s.below(6);
        for _ in 0..steps {
            match s.draw(5) {
                0 => { g = g * b; wo = add(wo, scale(mvec(wl, o2), wf)); wl = mmul(wl, l2); size += no2 * wf.abs(); wf *= q2; }
                1 => { g = b * g; wo = add(o2, scale(mvec(l2, wo), q2)); wl = mmul(l2, wl); size = no2 + q2.abs() * size; wf *= q2; }
                2 => { g.inverse_mut(); wl = mt(wl); wo = scale(mvec(wl, wo), -1.0 / wf); size /= wf.abs(); wf = 1.0 / wf; }
                3 => { g = g.inverse(); wl = mt(wl); wo = scale(mvec(wl, wo), -1.0 / wf); size /= wf.abs(); wf = 1.0 / wf; }
                4 => { g = g * j; wo = add(wo, scale(mvec(wl, o2), wf)); wl = mmul(wl, l2); size += no2 * wf.abs(); }
                _ => { g = &g * &b; wo = add(wo, scale(mvec(wl, o2), wf)); wl = mmul(wl, l2); size += no2 * wf.abs(); wf *= q2; }
            }
        }
        let n = 2.0 * (steps as f64 + 1.0);
        is!(g, wl, wo, k * n, k * n * size, "after {steps} steps");
        ck_near!(g.scale().f(), wf, k * n * wf.abs(), "after {steps} steps: factor");
        Ok(())
    }};
}
fn similarity2<S: F>(s: &mut Src) -> Res {
    similarity!(s, S, 2, 3, Similarity2, Isometry2, rot_2)
}
fn similarity3<S: F>(s: &mut Src) -> Res {
    similarity!(s, S, 3, 4, Similarity3, Isometry3, rot_3)
}
/// constructors by angle, axis and pair of directions
fn constructors<S: F>(s: &mut Src) -> Res {
    let e = S::EPS;
    let t = ang::<S>(s);
    let (u, uu) = unit::<S, 3>(s);
    let (_, o2) = shift::<S, 2>(s);
    let (_, o3) = shift::<S, 3>(s);
    s.note("angle, axis, distances", &(t.r.0, u, o2, o3));
    let k = 4.0 * t.tol();
    let (z2, z3) = ([0.0; 2], [0.0; 3]);
    macro_rules! by {
        ($u:ident) => {{
            let (a, q) = t.$u;
            is!(Isometry2::from_angle(q), rot2(a), z2, k, 0.0, "Isometry2::from_angle({q:?})");
            is!(Isometry2::from_angle_translation(q, &vf(o2)), rot2(a), o2, k, 0.0, "Isometry2::from_angle_translation({q:?})");
            is!(Similarity2::from_angle(q), rot2(a), z2, k, 0.0, "Similarity2::from_angle({q:?})");
            is!(Isometry3::from_axis_angle(&uu, q), rot3(u, a), z3, k, 0.0, "Isometry3::from_axis_angle({u:?}, {q:?})");
            is!(Isometry3::from_axis_angle_translation(&uu, q, &vf(o3)), rot3(u, a), o3, k, 0.0, "Isometry3::from_axis_angle_translation({u:?}, {q:?})");
            is!(Isometry3::from_angle_x(q), rot3([1.0, 0.0, 0.0], a), z3, k, 0.0, "Isometry3::from_angle_x({q:?})");
            is!(Isometry3::from_angle_y(q), rot3([0.0, 1.0, 0.0], a), z3, k, 0.0, "Isometry3::from_angle_y({q:?})");
            is!(Isometry3::from_angle_z(q), rot3([0.0, 0.0, 1.0], a), z3, k, 0.0, "Isometry3::from_angle_z({q:?})");
            is!(Similarity3::from_axis_angle(&uu, q), rot3(u, a), z3, k, 0.0, "Similarity3::from_axis_angle({u:?}, {q:?})");
            ck!(Similarity2::from_angle(q).scale() == S::i(1) && Similarity3::from_axis_angle(&uu, q).scale() == S::i(1), "a rotation scales");
        }};
    }
    by!(r);
    by!(d);
    // between directions: the same rotation as the rotation type gives, and no translation
    let (a, b) = (rnd::<S, 2>(s.rvec_nz(1e-2)), rnd::<S, 2>(s.rvec_nz(1e-2)));
    let w = f_m(Rotation2::rotation_between(&vf::<S, 2>(a), &vf(b)).matrix());
    is!(Isometry2::rotation_between(&vf::<S, 2>(a), &vf(b)), w, z2, 16.0 * e, 0.0, "Isometry2::rotation_between({a:?}, {b:?})");
    let ((_, a), (_, b)) = (unit::<S, 2>(s), unit::<S, 2>(s));
    let w = f_m(Rotation2::rotation_between_axis(&a, &b).matrix());
    is!(Isometry2::rotation_between_axis(&a, &b), w, z2, 16.0 * e, 0.0, "Isometry2::rotation_between_axis({a:?}, {b:?})");
    let (a, b) = (rnd::<S, 3>(s.rvec_nz(1e-2)), rnd::<S, 3>(s.rvec_nz(1e-2)));
    let (g, w) = (Isometry3::rotation_between(&vf::<S, 3>(a), &vf(b)), Rotation3::rotation_between(&vf::<S, 3>(a), &vf(b)));
    // vectors no longer than the machine epsilon count as zero here
    let tiny = pbt::kit::norm(&a).min(pbt::kit::norm(&b)) <= 2.0 * e;
    ck!(g.is_some() == w.is_some() || tiny, "Isometry3::rotation_between({a:?}, {b:?}) is {g:?}, the rotation is {w:?}");
    if let (Some(g), Some(w)) = (g, w) {
        is!(g, f_m(w.matrix()), z3, 16.0 * e, 0.0, "Isometry3::rotation_between({a:?}, {b:?})");
    }
    let ((_, a), (_, b)) = (unit::<S, 3>(s), unit::<S, 3>(s));
    let (g, w) = (Isometry3::rotation_between_axis(&a, &b), Rotation3::rotation_between_axis(&a, &b));
    ck!(g.is_some() == w.is_some(), "Isometry3::rotation_between_axis({a:?}, {b:?}) is {g:?}, the rotation is {w:?}");
    if let (Some(g), Some(w)) = (g, w) {
        is!(g, f_m(w.matrix()), z3, 16.0 * e, 0.0, "Isometry3::rotation_between_axis({a:?}, {b:?})");
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P30", "an angle or coordinate other than a small integer was drawn");
    suite.extremes = 6.0;
    suite.quick = 80_000;
    suite.thorough = 5_000_000;
    suite.assumptions = vec!["factors of similarities are between 1/1000 and 1000 in size, of either sign"];
    subs!(suite, "isometries of the plane", 1.0, isometry2; f32, f64);
    subs!(suite, "isometries of space", 1.0, isometry3; f32, f64);
    subs!(suite, "similarities of the plane", 1.0, similarity2; f32, f64);
    subs!(suite, "similarities of space", 1.0, similarity3; f32, f64);
    subs!(suite, "constructors", 0.7, constructors; f32, f64);
    pbt::main(suite);
}
