//! Numeric helpers for oracles.
use crate::Src;
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg, Sub};

/// The float types of the library, as seen by the oracles (which compute in f64).
pub trait Fl: Copy + Debug + PartialEq + PartialOrd + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    /// the largest integer of degree-2 forms of four terms that stays exact
    const EXACT: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const EXACT: f64 = 16_777_216.0;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const EXACT: f64 = 9_007_199_254_740_992.0;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}

/// A value with the sum of the magnitudes of the terms it was made of: whatever
/// the order of evaluation, a computation with unit roundoff `eps` is off by at
/// most a small multiple of `eps * m`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct E {
    pub v: f64,
    pub m: f64,
}
impl E {
    pub fn of(x: f64) -> E {
        E { v: x, m: x.abs() }
    }
    pub fn zero() -> E {
        E { v: 0.0, m: 0.0 }
    }
    pub fn sqrt(self) -> E {
        let v = self.v.max(0.0).sqrt();
        if v == 0.0 {
            E { v, m: self.m.sqrt() }
        } else {
            E { v, m: self.m / v }
        }
    }
    /// f(self) for a function with the given derivative bound at self.
    pub fn func(self, v: f64, deriv: f64) -> E {
        E { v, m: v.abs() + self.m * deriv.abs() }
    }
    pub fn near<S: Fl>(self, got: S, c: f64) -> bool {
        let t = c * S::EPS * self.m + 1e-300;
        (got.f() - self.v).abs() <= t
    }
}
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E { v: self.v + o.v, m: self.m + o.m }
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E { v: self.v - o.v, m: self.m + o.m }
    }
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E { v: self.v * o.v, m: self.m * o.m }
    }
}
impl Div for E {
    type Output = E;
    fn div(self, o: E) -> E {
        E { v: self.v / o.v, m: self.m * o.m / (o.v * o.v) }
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E { v: -self.v, m: self.m }
    }
}

#[macro_export]
macro_rules! ck_e {
    ($got:expr, $want:expr, $c:expr, $($arg:tt)+) => {{
        let (g, w): (_, $crate::kit::E) = ($got, $want);
        if !w.near(g, $c) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), g, w.v));
        }
    }};
}

impl Src {
    /// Reals as exact values of `S`.
    pub fn fl<S: Fl>(&mut self) -> S {
        let x = self.real();
        S::of(x)
    }
    /// Integer-valued floats.
    pub fn fint<S: Fl>(&mut self, max: i64) -> S {
        S::of(self.int(max) as f64)
    }
    pub fn arr<T: Copy, const N: usize>(&mut self, mut f: impl FnMut(&mut Src) -> T) -> [T; N] {
        std::array::from_fn(|_| f(self))
    }
    /// A vector of integers with structure: axis-aligned, all equal, generic.
    pub fn ivec<const N: usize>(&mut self, max: i64) -> [i64; N] {
        let mut a = [0i64; N];
        match self.draw(9) {
            0 => {
                let i = self.below(N);
                a[i] = self.int(max);
            }
            1 => {
                let v = self.int(max);
                a = [v; N];
            }
            2 => {
                let v = self.int(max);
                for x in a.iter_mut() {
                    *x = if self.coin() { v } else { -v };
                }
            }
            3 => {
                // one unit axis
                let i = self.below(N);
                a[i] = if self.coin() { 1 } else { -1 };
            }
            _ => {
                for x in a.iter_mut() {
                    *x = self.int(max);
                }
            }
        }
        a
    }
    /// A vector of reals with structure.
    pub fn rvec<const N: usize>(&mut self) -> [f64; N] {
        let mut a = [0.0; N];
        match self.draw(11) {
            0 => {
                let i = self.below(N);
                a[i] = self.real();
            }
            1 => {
                let v = self.real();
                a = [v; N];
            }
            2 => {
                let v = self.real();
                for x in a.iter_mut() {
                    *x = if self.coin() { v } else { -v };
                }
            }
            3 => {
                let i = self.below(N);
                a[i] = if self.coin() { 1.0 } else { -1.0 };
            }
            4 => {
                let v = self.ivec::<N>(9);
                a = v.map(|x| x as f64);
            }
            _ => {
                for x in a.iter_mut() {
                    *x = self.real();
                }
            }
        }
        a
    }
    /// A non-zero vector of reals, of norm in about [lo, 1e3].
    pub fn rvec_nz<const N: usize>(&mut self, lo: f64) -> [f64; N] {
        let mut a = self.rvec::<N>();
        let n2: f64 = a.iter().map(|x| x * x).sum();
        let k = self.factor();
        if !(n2.sqrt() >= lo * k) {
            a = [0.0; N];
            let i = self.below(N);
            a[i] = self.real_nz(lo.max(1e-3), 1e3) * k;
        }
        a
    }
    /// A unit vector (rounded in f64).
    pub fn unit_vec<const N: usize>(&mut self) -> [f64; N] {
        let a = self.rvec_nz::<N>(1e-2);
        let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        a.map(|x| x / n)
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn sub<const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn add<const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
pub fn scale<const N: usize>(a: [f64; N], s: f64) -> [f64; N] {
    a.map(|x| x * s)
}
pub fn normalize<const N: usize>(a: [f64; N]) -> [f64; N] {
    let n = norm(&a);
    a.map(|x| x / n)
}
pub fn maxabs(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| m.max(x.abs()))
}
/// largest component-wise difference; NaN if either has NaN
pub fn diff(a: &[f64], b: &[f64]) -> f64 {
    let mut m: f64 = 0.0;
    for (x, y) in a.iter().zip(b) {
        let d = (x - y).abs();
        if d.is_nan() {
            return f64::NAN;
        }
        m = m.max(d);
    }
    m
}
/// Row-major R x C reference matrices: `a[r][c]`.
pub type M<const R: usize, const C: usize> = [[f64; C]; R];
pub fn mmul<const R: usize, const K: usize, const C: usize>(a: M<R, K>, b: M<K, C>) -> M<R, C> {
    std::array::from_fn(|r| std::array::from_fn(|c| (0..K).map(|k| a[r][k] * b[k][c]).sum()))
}
pub fn mvec<const R: usize, const C: usize>(a: M<R, C>, v: [f64; C]) -> [f64; R] {
    std::array::from_fn(|r| (0..C).map(|k| a[r][k] * v[k]).sum())
}
pub fn mt<const R: usize, const C: usize>(a: M<R, C>) -> M<C, R> {
    std::array::from_fn(|r| std::array::from_fn(|c| a[c][r]))
}
pub fn ident<const N: usize>() -> M<N, N> {
    std::array::from_fn(|r| std::array::from_fn(|c| if r == c { 1.0 } else { 0.0 }))
}
pub fn mdiff<const R: usize, const C: usize>(a: M<R, C>, b: M<R, C>) -> f64 {
    let mut m: f64 = 0.0;
    for r in 0..R {
        let d = diff(&a[r], &b[r]);
        if d.is_nan() {
            return d;
        }
        m = m.max(d);
    }
    m
}
/// Rodrigues: rotation by `t` about the unit axis `u`.
pub fn rot3(u: [f64; 3], t: f64) -> M<3, 3> {
    let (s, c) = t.sin_cos();
    let k = 1.0 - c;
    let [x, y, z] = u;
    [
        [c + x * x * k, x * y * k - z * s, x * z * k + y * s],
        [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
        [z * x * k - y * s, z * y * k + x * s, c + z * z * k],
    ]
}
pub fn rot2(t: f64) -> M<2, 2> {
    let (s, c) = t.sin_cos();
    [[c, -s], [s, c]]
}

/// |a - b| within tol for every component.
#[macro_export]
macro_rules! ck_vec {
    ($a:expr, $b:expr, $tol:expr, $($arg:tt)+) => {{
        let (a, b, t) = ($a, $b, $tol);
        let d = $crate::kit::diff(&a, &b);
        if !(d <= t) {
            return Err(format!("{}: got {:?}, expected {:?}, off by {:e} > {:e}", format!($($arg)+), a, b, d, t));
        }
    }};
}
#[macro_export]
macro_rules! ck_mat {
    ($a:expr, $b:expr, $tol:expr, $($arg:tt)+) => {{
        let (a, b, t) = ($a, $b, $tol);
        let d = $crate::kit::mdiff(a, b);
        if !(d <= t) {
            return Err(format!("{}: got rows {:?}, expected rows {:?}, off by {:e} > {:e}", format!($($arg)+), a, b, d, t));
        }
    }};
}
