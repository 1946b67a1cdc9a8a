//! Everything the checks of the transform crate use.
pub use cglinalg_transform::*;
pub use hcore::*;
use pbt::kit::{add, cross, dot, ident, mmul, mt, mvec, norm, normalize, scale, M};
use pbt::{ck, ck_mat, ck_vec, Res, Src};

/// An angle as both of the library's units hold it: (measure in radians, radians) and (measure in radians, degrees).
pub struct Ang<S> {
    pub r: (f64, Radians<S>),
    pub d: (f64, Degrees<S>),
}
pub fn ang<S: F>(s: &mut Src) -> Ang<S> {
    // now and then many turns
    let t = if s.one_in(16) { s.angle() * 10f64.powi(s.below(4) as i32) } else { s.angle() };
    let r = <S as pbt::kit::Fl>::of(t);
    let d = <S as pbt::kit::Fl>::of(t.to_degrees());
    Ang { r: (r.f(), Radians(r)), d: (d.f().to_radians(), Degrees(d)) }
}
impl<S: F> Ang<S> {
    pub fn tol(&self) -> f64 {
        S::EPS * (16.0 + 4.0 * self.r.0.abs())
    }
}
/// unit vectors as the type holds them
pub fn unit<S: F, const N: usize>(s: &mut Src) -> ([f64; N], Unit<Vector<S, N>>) {
    let u = rnd::<S, N>(s.unit_vec());
    (u, Unit::from_value_unchecked(vf(u)))
}
/// every way of moving a vector and a point by a transformation, against the expected images
#[macro_export]
macro_rules! images {
    ($t:expr, $v:expr, $p:expr, $wv:expr, $wp:expr, $tv:expr, $tp:expr) => {{
        let (t, v, p, wv, wp, tv, tp) = ($t, $v, $p, $wv, $wp, $tv, $tp);
        for (form, g) in [("apply_vector", t.apply_vector(&v)), ("transformation * vector", t * v), ("transformation * &vector", t * &v),
            ("&transformation * vector", &t * v), ("&transformation * &vector", &t * &v)] {
            pbt::ck_vec!($crate::f_v(&g), wv, tv, "{form}: {t:?} of {v:?}");
        }
        for (form, g) in [("apply_point", t.apply_point(&p)), ("transformation * point", t * p), ("transformation * &point", t * &p),
            ("&transformation * point", &t * p), ("&transformation * &point", &t * &p)] {
            pbt::ck_vec!($crate::f_p(&g), wp, tp, "{form}: {t:?} of {p:?}");
        }
    }};
}
/// the affine matrix and the general transformation of a transformation
#[macro_export]
macro_rules! affine {
    ($t:expr, $w:expr, $tol:expr) => {{
        let (t, w, tol) = ($t, $w, $tol);
        let from = [$crate::mat_of(&w, t.into()), $crate::mat_of(&w, (&t).into())];
        for (form, g) in [("to_affine_matrix", t.to_affine_matrix()), ("Matrix::from(owned)", from[0]), ("Matrix::from(borrowed)", from[1]),
            ("to_transform", *t.to_transform().matrix())] {
            pbt::ck_mat!($crate::f_m(&g), w, tol, "{form} of {t:?}");
        }
    }};
}
/// affine matrix of a linear part and an offset
pub fn aff<const N: usize, const P: usize>(l: M<N, N>, o: [f64; N]) -> M<P, P> {
    let mut a = pbt::kit::ident::<P>();
    for r in 0..N {
        a[r][..N].copy_from_slice(&l[r]);
        a[r][N] = o[r];
    }
    a
}
/// sum of absolute products: how large rounding errors of a product may be
pub fn mag<const N: usize>(l: M<N, N>, v: [f64; N]) -> f64 {
    l.iter().map(|r| (0..N).map(|c| (r[c] * v[c]).abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// a matrix of the shape of the expected one
pub fn mat_of<S, const P: usize>(_: &M<P, P>, m: Matrix<S, P, P>) -> Matrix<S, P, P> {
    m
}
/// pairs of directions: generic, parallel, opposite, nearly so, perpendicular, zero
pub fn pair<S: F, const N: usize>(s: &mut Src) -> ([f64; N], [f64; N]) {
    let a = rnd::<S, N>(s.rvec_nz(1e-2));
    let tiny = |s: &mut Src| {
        let e = 10f64.powi(-(s.draw(if S::NAME == "f32" { 7 } else { 15 }) as i32)) * norm(&a);
        scale(s.unit_vec::<N>(), e)
    };
    let b = match s.draw(11) {
        0 => scale(a, s.real_nz(1e-2, 1e2).abs()),
        1 => scale(a, -s.real_nz(1e-2, 1e2).abs()),
        2 => a.map(|x| -x),
        3 => a,
        4 => add(a, tiny(s)),
        5 => add(a.map(|x| -x), tiny(s)),
        6 => {
            let mut b = [0.0; N];
            b[0] = -a[1];
            b[1] = a[0];
            b
        }
        7 if s.one_in(4) => [0.0; N],
        _ => s.rvec_nz(1e-2),
    };
    let b = rnd::<S, N>(if norm(&b) < 1e-4 { [0.0; N] } else { b });
    // now and then long or short ones
    let (a, b) = if s.one_in(8) {
        let k = 10f64.powi(s.range(-10, 8) as i32);
        (rnd::<S, N>(scale(a, k)), rnd::<S, N>(scale(b, k)))
    } else {
        (a, b)
    };
    if s.coin() { (a, b) } else { (b, a) }
}
/// the rotation (or none) between two directions of space: takes the first to the second by the shortest turn
pub fn between_ok<S: F>(n: &str, m: Option<M<3, 3>>, a: [f64; 3], b: [f64; 3]) -> Res {
    let zero = norm(&a) == 0.0 || norm(&b) == 0.0;
    let opposite = (0..3).all(|i| a[i] == -b[i]);
    if zero {
        if let Some(m) = m {
            ck_mat!(m, ident(), 8.0 * S::EPS, "{n} of {a:?} and {b:?}");
        } else {
            ck!(n.starts_with("Isometry3"), "{n} of {a:?} and {b:?} is none");
        }
        return Ok(());
    }
    let (u, w) = (normalize(a), normalize(b));
    let (c, sn) = (dot(&u, &w), norm(&cross(u, w)));
    let root = 8.0 * S::EPS.sqrt();
    let Some(m) = m else {
        // isometries take vectors of a length below the precision for zero
        if n.starts_with("Isometry3") && norm(&a).min(norm(&b)) <= 2.0 * S::EPS {
            return Ok(());
        }
        ck!(c < 0.0 && sn <= root, "{n} of {a:?} and {b:?} is none");
        return Ok(());
    };
    ck!(!opposite, "{n} of the opposite {a:?} and {b:?} is not none");
    let tol = if sn >= 1e-3 {
        64.0 * S::EPS / sn
    } else if c > 0.0 {
        root
    } else {
        64.0 * S::EPS / sn + root
    };
    ck_mat!(mmul(m, mt(m)), ident(), 64.0 * S::EPS, "{n} of {a:?} and {b:?} times its transpose");
    ck_vec!(mvec(m, u), w, tol, "{n} of {a:?} and {b:?} applied to the first");
    // the shorter way round: the trace is that of the angle between them, and a right-handed turn
    let tr = m[0][0] + m[1][1] + m[2][2];
    ck!((tr - (1.0 + 2.0 * c)).abs() <= 64.0 * S::EPS + root * sn.max(root), "{n} of {a:?} and {b:?} turns by another angle: trace {tr}, cosine {c}");
    let x = cross(m[0], m[1]);
    ck_vec!(x, m[2], 64.0 * S::EPS, "{n} of {a:?} and {b:?} is not a proper rotation");
    Ok(())
}
