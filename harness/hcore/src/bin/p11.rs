//! P11: dot, cross and triple products, interpolation, projection and reflection of vectors.
use hcore::*;
use pbt::kit::{cross, dot, norm, E};
use pbt::{ck, ck_e, ck_vec, Res, Src, Suite};

/// exact integer arithmetic, whatever the scalar type
fn exact_dot<S: Sc, const N: usize>(s: &mut Src) -> Res
{
    let a: [S; N] = s.arr(|s| S::wide(s));
    let b: [S; N] = s.arr(|s| S::wide(s));
    s.note("a, b", &(a, b));
    let mut want = S::i(0);
    for i in 0..N {
        want = want + a[i] * b[i];
    }
    ck!(v(a).dot(&v(b)) == want, "dot of {a:?} and {b:?} is {:?}, expected {want:?}", v(a).dot(&v(b)));
    ck!(p(a).dot(&p(b)) == want, "dot of the points {a:?} and {b:?} is {:?}, expected {want:?}", p(a).dot(&p(b)));
    Ok(())
}
fn exact_cross<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    // triple products of i8 need |entries| <= 2
    let m = if S::N == "i8" { 2 } else if S::N == "i16" { 15 } else { 60 };
    let g = |s: &mut Src| -> [i64; 3] { s.ivec::<3>(m) };
    let (a, b, c) = (g(s), g(s), g(s));
    s.note("a, b, c", &(a, b, c));
    let w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let t = w[0] * c[0] + w[1] * c[1] + w[2] * c[2];
    let f = |x: [i64; 3]| -> Vector3<S> { v(x.map(S::i)) };
    let got = va(&f(a).cross(&f(b)));
    ck!(got == w.map(S::i), "cross product of {a:?} and {b:?} is {got:?}, expected {w:?}");
    let got = f(a).triple(&f(b), &f(c));
    ck!(got == S::i(t), "triple product of {a:?}, {b:?}, {c:?} is {got:?}, expected {t}");
    Ok(())
}
/// cross products of large integers
fn wide_cross<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let (a, b): ([S; 3], [S; 3]) = (s.arr(|s| S::wide(s)), s.arr(|s| S::wide(s)));
    s.note("a, b", &(a, b));
    let w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let got = va(&v(a).cross(&v(b)));
    ck!(got == w, "cross product of {a:?} and {b:?} is {got:?}, expected {w:?}");
    Ok(())
}
fn real_products<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, b) = (rnd::<S, N>(s.rvec()), rnd::<S, N>(s.rvec()));
    s.note("a, b", &(a, b));
    let mut w = E::zero();
    for i in 0..N {
        w = w + E::of(a[i]) * E::of(b[i]);
    }
    ck_e!(vf::<S, N>(a).dot(&vf(b)), w, 8.0, "dot of {a:?} and {b:?}");
    ck_e!(pf::<S, N>(a).dot(&pf(b)), w, 8.0, "dot of the points {a:?} and {b:?}");
    Ok(())
}
fn real_cross<S: F>(s: &mut Src) -> Res {
    let (a, c) = (rnd::<S, 3>(s.rvec()), rnd::<S, 3>(s.rvec()));
    // sometimes nearly or exactly parallel
    let b = match s.draw(4) {
        0 => rnd::<S, 3>(a.map(|x| x * 3.0)),
        1 => {
            let d = s.rvec::<3>();
            rnd::<S, 3>(std::array::from_fn(|i| a[i] + 1e-4 * d[i]))
        }
        _ => rnd::<S, 3>(s.rvec()),
    };
    s.note("a, b, c", &(a, b, c));
    let e = |x: [f64; 3]| x.map(E::of);
    let (ea, eb, ec) = (e(a), e(b), e(c));
    let w = [ea[1] * eb[2] - ea[2] * eb[1], ea[2] * eb[0] - ea[0] * eb[2], ea[0] * eb[1] - ea[1] * eb[0]];
    let got = vf::<S, 3>(a).cross(&vf(b));
    for i in 0..3 {
        ck_e!(got[i], w[i], 8.0, "component {i} of the cross product of {a:?} and {b:?}");
    }
    let t = w[0] * ec[0] + w[1] * ec[1] + w[2] * ec[2];
    ck_e!(vf::<S, 3>(a).triple(&vf(b), &vf(c)), t, 16.0, "triple product of {a:?}, {b:?}, {c:?}");
    // orthogonal to both factors
    let g = f_v(&got);
    let tol = 16.0 * S::EPS * norm(&a) * norm(&b);
    ck!(dot(&g, &a).abs() <= tol * norm(&a) + 1e-300, "cross product of {a:?} and {b:?} is not orthogonal to the first");
    ck!(dot(&g, &b).abs() <= tol * norm(&b) + 1e-300, "cross product of {a:?} and {b:?} is not orthogonal to the second");
    ck_vec!(g, cross(a, b), tol + 1e-300, "cross product of {a:?} and {b:?}");
    Ok(())
}
fn lerp<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, b) = (rnd::<S, N>(s.rvec()), rnd::<S, N>(s.rvec()));
    let t = match s.draw(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => s.range(-4, 4) as f64,
        _ => S::of(s.unit()).f(),
    };
    s.note("a, b, t", &(a, b, t));
    let got = vf::<S, N>(a).lerp(&vf(b), S::of(t));
    for i in 0..N {
        let (x, y) = (E::of(a[i]), E::of(b[i]));
        ck_e!(got[i], x + (y - x) * E::of(t), 8.0, "component {i} of lerp of {a:?} and {b:?} by {t}");
    }
    Ok(())
}
fn project<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, b) = (rnd::<S, N>(s.rvec()), rnd::<S, N>(s.rvec_nz(1e-2)));
    s.note("a, b", &(a, b));
    let g = f_v(&vf::<S, N>(a).project(&vf(b)));
    let k = dot(&a, &b) / dot(&b, &b);
    let tol = 16.0 * N as f64 * S::EPS * norm(&a);
    ck_vec!(g, b.map(|x| x * k), tol + 1e-300, "projection of {a:?} on {b:?}");
    // what is left over is orthogonal to the line
    let rest: [f64; N] = std::array::from_fn(|i| a[i] - g[i]);
    ck!(dot(&rest, &b).abs() <= tol * norm(&b) + 1e-300, "the rest of {a:?} after projection on {b:?} is not orthogonal");
    Ok(())
}
fn reflect<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, n) = (rnd::<S, N>(s.rvec()), rnd::<S, N>(s.rvec_nz(1e-2)));
    s.note("a, n", &(a, n));
    let r = vf::<S, N>(a).reflect(&vf(n));
    let g = f_v(&r);
    let k = 2.0 * dot(&a, &n) / dot(&n, &n);
    let tol = 32.0 * N as f64 * S::EPS * norm(&a) + 1e-300;
    ck_vec!(g, std::array::from_fn::<f64, N, _>(|i| a[i] - k * n[i]), tol, "reflection of {a:?} in the plane normal to {n:?}");
    ck!((norm(&g) - norm(&a)).abs() <= tol, "reflection of {a:?} in the plane normal to {n:?} changes the length");
    ck_vec!(f_v(&r.reflect(&vf(n))), a, 2.0 * tol, "reflecting {a:?} twice in the plane normal to {n:?}");
    Ok(())
}
macro_rules! dims {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, |s: &mut Src| -> Res {
            match s.below(6) {
                0 => $f::<$T, 1>(s),
                1 => $f::<$T, 2>(s),
                2 => $f::<$T, 3>(s),
                3 => $f::<$T, 4>(s),
                4 => $f::<$T, 5>(s),
                _ => $f::<$T, 7>(s),
            }
        });
    )+};
}
macro_rules! plain {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, $f::<$T>);
    )+};
}
fn main() {
    let mut suite = Suite::new("P11", "a component other than 0, 1 and -1 was drawn");
    suite.extremes = 8.0;
    suite.quick = 200_000;
    suite.thorough = 10_000_000;
    dims!(suite, "dot, exact", 0.3, exact_dot; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    plain!(suite, "cross and triple, exact", 0.5, exact_cross; i8, i16, i32, i64, i128, isize, f32, f64);
    plain!(suite, "cross, wide", 0.2, wide_cross; i32, i64, i128, isize, f32, f64);
    dims!(suite, "dot, reals", 0.5, real_products; f32, f64);
    plain!(suite, "cross and triple, reals", 1.0, real_cross; f32, f64);
    dims!(suite, "lerp", 1.0, lerp; f32, f64);
    dims!(suite, "project", 1.0, project; f32, f64);
    dims!(suite, "reflect", 1.0, reflect; f32, f64);
    pbt::main(suite);
}
