//! P33: scaling, normalizing, and the unit-length wrapper.
use hcore::*;
use pbt::{ck, ck_near, ck_vec, Res, Src, Suite};
use std::fmt::Debug;

/// A vector of reals over many magnitudes, or one with an exact norm; with the norm.
fn gen<S: F, const N: usize>(s: &mut Src) -> ([f64; N], Option<f64>) {
    match s.draw(5) {
        0 => {
            // integer vectors with integer norms
            let mut a = [0.0; N];
            let k = s.real_nz(1.0, 50.0).abs().round().max(1.0);
            let i = s.below(N);
            let j = (i + 1 + s.below(N.max(2) - 1)) % N;
            let (p, q, h) = s.pick(&[(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (8.0, 15.0, 17.0), (4.0, 3.0, 5.0), (1.0, 0.0, 1.0)]);
            if i == j {
                a[i] = if s.coin() { -h * k } else { h * k };
            } else {
                a[i] = if s.coin() { -p * k } else { p * k };
                a[j] = if s.coin() { -q * k } else { q * k };
            }
            (a, Some(h * k))
        }
        1 => {
            let e = s.between(-12.0, 12.0);
            let a = s.rvec_nz::<N>(1e-2);
            (rnd::<S, N>(a.map(|x| x * 10f64.powf(e))), None)
        }
        _ => (rnd::<S, N>(s.rvec_nz(1e-2)), None),
    }
}
fn norm(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn check<S: F, T: Normed<Output = S> + Copy + Debug + PartialEq, const N: usize>(
    s: &mut Src,
    mk: fn([S; N]) -> T,
    get: fn(&T) -> [S; N],
) -> Res {
    let (a, exact) = gen::<S, N>(s);
    let x = mk(a.map(S::of));
    let g = |t: &T| -> [f64; N] { get(t).map(|c| c.f()) };
    let n = norm(&a);
    let k = S::of(s.real_nz(1e-2, 1e2));
    s.note("a, k", &(a, k));
    let e = S::EPS;

    // scale and unscale
    let want = a.map(|c| c * k.f());
    let tol = 4.0 * e * n * k.f().abs();
    ck_vec!(g(&x.scale(k)), want, tol, "scaling {a:?} by {k:?}");
    let mut y = x;
    y.scale_mut(k);
    ck_vec!(g(&y), want, tol, "scaling {a:?} by {k:?} in place");
    let none = x.scale(S::of(0.0));
    ck!(g(&none).iter().all(|c| *c == 0.0), "scaling {a:?} by zero: {:?}", g(&none));
    let mut y = x;
    y.scale_mut(S::of(0.0));
    ck!(g(&y).iter().all(|c| *c == 0.0), "scaling {a:?} by zero in place: {:?}", g(&y));
    let want = a.map(|c| c / k.f());
    let tol = 4.0 * e * n / k.f().abs();
    ck_vec!(g(&x.unscale(k)), want, tol, "unscaling {a:?} by {k:?}");
    let mut y = x;
    y.unscale_mut(k);
    ck_vec!(g(&y), want, tol, "unscaling {a:?} by {k:?} in place");

    // normalize
    let unit = a.map(|c| c / n);
    let tol = (8.0 + N as f64) * e;
    let z = x.normalize();
    ck_vec!(g(&z), unit, tol, "normalizing {a:?}");
    ck_near!(norm(&g(&z)), 1.0, 2.0 * tol, "norm of the normalized {a:?}");
    let mut y = x;
    let r = y.normalize_mut();
    ck_vec!(g(&y), unit, tol, "normalizing {a:?} in place");
    ck_near!(r.f(), n, tol * n, "norm returned by normalizing {a:?} in place");

    // thresholds: below, above, and exactly at the norm where it is exact
    let t = match (s.draw(4), exact) {
        (0, Some(h)) => h,
        (1, _) => n * 1.01,
        (2, _) => n * 100.0,
        (3, _) => 0.0,
        _ => n * 0.99,
    };
    let t = S::of(t);
    let at = exact == Some(t.f());
    let none = at || t.f() > n;
    s.label(if at { "threshold equal to the norm" } else if none { "threshold above" } else { "threshold below" });
    s.note("threshold", &t);
    let z = x.try_normalize(t);
    ck!(z.is_none() == none, "normalizing {a:?} with threshold {t:?} gives {z:?}");
    if let Some(z) = z {
        ck_vec!(g(&z), unit, tol, "normalizing {a:?} with threshold {t:?}");
    }
    let mut y = x;
    let r = y.try_normalize_mut(t);
    ck!(r.is_none() == none, "normalizing {a:?} in place with threshold {t:?} gives {r:?}");
    match r {
        Some(r) => {
            ck_vec!(g(&y), unit, tol, "normalizing {a:?} in place with threshold {t:?}");
            ck_near!(r.f(), n, tol * n, "norm returned by normalizing {a:?} in place with threshold {t:?}");
        }
        None => ck!(y == x, "a refused normalization changed {a:?} to {y:?}"),
    }

    // the wrapper
    let u = Unit::from_value(x);
    ck_vec!(g(u.as_ref()), unit, tol, "unit value of {a:?}");
    ck_vec!(g(&*u), unit, tol, "unit value of {a:?}, dereferenced");
    ck_vec!(g(&u.into_inner()), unit, tol, "inner unit value of {a:?}");
    let (u, r) = Unit::from_value_with_norm(x);
    ck_vec!(g(&u), unit, tol, "unit value of {a:?} with norm");
    ck_near!(r.f(), n, tol * n, "norm returned with the unit value of {a:?}");
    let w = Unit::try_from_value(x, t);
    ck!(w.is_none() == none, "unit value of {a:?} with threshold {t:?} is {w:?}");
    if let Some(w) = w {
        ck_vec!(g(&w), unit, tol, "unit value of {a:?} with threshold {t:?}");
    }
    let w = Unit::try_from_value_with_norm(x, t);
    ck!(w.is_none() == none, "unit value of {a:?} with norm and threshold {t:?} is {w:?}");
    if let Some((w, r)) = w {
        ck_vec!(g(&w), unit, tol, "unit value of {a:?} with norm and threshold {t:?}");
        ck_near!(r.f(), n, tol * n, "norm returned with the unit value of {a:?} and threshold {t:?}");
    }
    let w = Unit::from_value_unchecked(x);
    ck!(*w.as_ref() == x && *w == x && w.into_inner() == x, "an unchecked unit value of {a:?} is changed");

    // zero is refused whatever the threshold
    let zero = mk([S::of(0.0); N]);
    ck!(zero.try_normalize(S::of(0.0)).is_none(), "zero was normalized");
    ck!(Unit::try_from_value(zero, S::of(0.0)).is_none(), "zero has a unit value");
    let mut zz = zero;
    ck!(zz.try_normalize_mut(S::of(0.0)).is_none() && zz == zero, "zero was normalized in place");
    Ok(())
}

fn vectors<S: F, const N: usize>(s: &mut Src) -> Res {
    check::<S, Vector<S, N>, N>(s, v, va)
}
fn points<S: F, const N: usize>(s: &mut Src) -> Res {
    check::<S, Point<S, N>, N>(s, p, pa)
}
fn quaternions<S: F>(s: &mut Src) -> Res {
    check::<S, Quaternion<S>, 4>(s, q, qa)
}
fn complexes<S: F>(s: &mut Src) -> Res {
    check::<S, Complex<S>, 2>(s, cx, ca)
}
macro_rules! mats {
    ($suite:ident; $(($R:expr, $C:expr)),+) => {$(
        $suite.add_w(concat!("matrices ", $R, "x", $C, " f32"), 0.3, |s: &mut Src| check::<f32, Matrix<f32, $R, $C>, { $R * $C }>(s,
            |a| mat::<f32, $R, $C>(std::array::from_fn(|r| std::array::from_fn(|c| a[r * $C + c]))),
            |m| std::array::from_fn(|i| m[i % $C][i / $C])));
        $suite.add_w(concat!("matrices ", $R, "x", $C, " f64"), 0.3, |s: &mut Src| check::<f64, Matrix<f64, $R, $C>, { $R * $C }>(s,
            |a| mat::<f64, $R, $C>(std::array::from_fn(|r| std::array::from_fn(|c| a[r * $C + c]))),
            |m| std::array::from_fn(|i| m[i % $C][i / $C])));
    )+};
}
fn main() {
    let mut suite = Suite::new("P33", "a component or scale other than 0, 1 and -1 was drawn");
    suite.quick = 150_000;
    suite.thorough = 8_000_000;
    subs!(suite, "vectors", 1.0, dim5 vectors; f32, f64);
    subs!(suite, "points", 1.0, dim5 points; f32, f64);
    subs!(suite, "quaternions", 1.0, quaternions; f32, f64);
    subs!(suite, "complex numbers", 1.0, complexes; f32, f64);
    mats!(suite; (1, 1), (2, 2), (3, 3), (4, 4), (1, 3), (2, 3), (3, 2), (4, 2), (3, 4));
    pbt::main(suite);
}
