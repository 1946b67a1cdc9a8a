//! Bridges between the library's types and the oracles' plain arrays.
pub use cglinalg_core::*;
pub use cglinalg_numeric::{SimdScalar, SimdScalarFloat, SimdScalarOrd, SimdScalarSigned};
pub use cglinalg_trigonometry::{Angle, Degrees, Radians};
use pbt::kit::{Fl, M};
use pbt::Src;
use std::fmt::Debug;

pub mod swizzles;
#[macro_export]
macro_rules! sw {
    ($got:expr, [$($w:expr),+], $n:expr) => {{
        let got = $got;
        let want = [$($w),+];
        if got.len() != want.len() || !(0..want.len()).all(|i| got[i] == want[i]) {
            return Err(format!("swizzle {} gave {:?}, expected {:?}", $n, got, want));
        }
    }};
}

/// Scalars of every primitive type, with generators of operands that do not overflow.
pub trait Sc: SimdScalar + Copy + Debug + PartialEq + Send + Sync + 'static {
    const N: &'static str;
    const FLOAT: bool;
    /// any value, over the whole range of the type
    fn any(s: &mut Src) -> Self;
    /// a value whose small sums of products do not overflow
    fn small(s: &mut Src) -> Self;
    /// a value, often large, of which sixteen products of two can be added without
    /// overflow or rounding; most of the large ones need more than single precision
    fn wide(s: &mut Src) -> Self;
    fn i(x: i64) -> Self;
    fn can_add(a: Self, b: Self) -> bool;
    fn can_sub(a: Self, b: Self) -> bool;
    fn can_mul(a: Self, b: Self) -> bool;
    fn can_div(a: Self, b: Self) -> bool;
    /// equal, or both NaN
    fn same(a: Self, b: Self) -> bool;
    /// equal up to a rounding error or two
    fn close(a: Self, b: Self) -> bool;
}
/// a value for a container to keep: small, or any but NaN, which equals nothing
pub fn held<S: Sc>(s: &mut Src) -> S {
    let x = if s.coin() { S::any(s) } else { S::small(s) };
    if x == x { x } else { S::i(3) }
}
macro_rules! sc_int {
    ($T:ty, $small:expr, $wide:expr, $signed:expr) => {
        impl Sc for $T {
            const N: &'static str = stringify!($T);
            const FLOAT: bool = false;
            fn any(s: &mut Src) -> $T {
                s.nontrivial = true;
                match s.draw(7) {
                    0 => 0,
                    1 => 1,
                    2 => <$T>::MAX,
                    3 => <$T>::MIN,
                    4 => <$T>::MAX - (s.draw(20) as $T),
                    5 => <$T>::MIN + (s.draw(20) as $T),
                    6 => s.draw(100) as $T,
                    _ => {
                        let k = s.draw(<$T>::BITS as u64 - 1) as u32;
                        let hi = s.draw(u64::MAX) as u128;
                        let lo = s.draw(u64::MAX) as u128;
                        (((hi << 64) | lo) as $T) >> k
                    }
                }
            }
            fn small(s: &mut Src) -> $T {
                let m = s.int($small);
                if $signed { m as $T } else { m.unsigned_abs() as $T }
            }
            fn wide(s: &mut Src) -> $T {
                let max = if s.coin() { $wide } else { $small };
                let m = s.int(max);
                if $signed { m as $T } else { m.unsigned_abs() as $T }
            }
            fn i(x: i64) -> $T {
                x as $T
            }
            fn can_add(a: $T, b: $T) -> bool {
                a.checked_add(b).is_some()
            }
            fn can_sub(a: $T, b: $T) -> bool {
                a.checked_sub(b).is_some()
            }
            fn can_mul(a: $T, b: $T) -> bool {
                a.checked_mul(b).is_some()
            }
            fn can_div(a: $T, b: $T) -> bool {
                a.checked_div(b).is_some() && a.checked_rem(b).is_some()
            }
            fn same(a: $T, b: $T) -> bool {
                a == b
            }
            fn close(a: $T, b: $T) -> bool {
                a == b
            }
        }
    };
}
sc_int!(u8, 6, 6, false);
sc_int!(u16, 100, 100, false);
sc_int!(u32, 900, 16000, false);
sc_int!(u64, 900, 536870912, false);
sc_int!(u128, 900, 2305843009213693952, false);
sc_int!(usize, 900, 536870912, false);
sc_int!(i8, 4, 4, true);
sc_int!(i16, 70, 70, true);
sc_int!(i32, 500, 11000, true);
sc_int!(i64, 900, 536870912, true);
sc_int!(i128, 900, 2305843009213693952, true);
sc_int!(isize, 900, 536870912, true);
macro_rules! sc_float {
    ($T:ty) => {
        impl Sc for $T {
            const N: &'static str = stringify!($T);
            const FLOAT: bool = true;
            fn any(s: &mut Src) -> $T {
                match s.draw(11) {
                    0 => {
                        s.nontrivial = true;
                        s.pick(&[<$T>::INFINITY, <$T>::NEG_INFINITY, <$T>::NAN, <$T>::MAX, <$T>::MIN, <$T>::MIN_POSITIVE, <$T>::EPSILON, -0.0])
                    }
                    1 => {
                        s.nontrivial = true;
                        s.real_exp(if <$T>::MAX_EXP > 200 { 300.0 } else { 37.0 }) as $T
                    }
                    _ => s.real() as $T,
                }
            }
            fn small(s: &mut Src) -> $T {
                s.int(90) as $T
            }
            fn wide(s: &mut Src) -> $T {
                let max = if s.coin() { if <$T>::MAX_EXP > 200 { 23_000_000 } else { 1_000 } } else { 90 };
                s.int(max) as $T
            }
            fn i(x: i64) -> $T {
                x as $T
            }
            fn can_add(_: $T, _: $T) -> bool {
                true
            }
            fn can_sub(_: $T, _: $T) -> bool {
                true
            }
            fn can_mul(_: $T, _: $T) -> bool {
                true
            }
            fn can_div(_: $T, b: $T) -> bool {
                b != 0.0
            }
            fn same(a: $T, b: $T) -> bool {
                a == b || (a.is_nan() && b.is_nan())
            }
            fn close(a: $T, b: $T) -> bool {
                a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 4.0 * <$T>::EPSILON * a.abs().max(b.abs()) + 4.0 * <$T>::MIN_POSITIVE
                    // a reciprocal first may overflow or underflow where the quotient does not
                    || !(a.abs() < <$T>::MAX / 8.0) || !(b.abs() < <$T>::MAX / 8.0)
            }
        }
    };
}
sc_float!(f32);
sc_float!(f64);

/// The floats, in all the roles a check needs.
pub trait F: Fl + Sc + SimdScalarFloat {}
impl F for f32 {}
impl F for f64 {}

pub fn v<S: Copy, const N: usize>(a: [S; N]) -> Vector<S, N> {
    Vector::from(a)
}
pub fn p<S: Copy, const N: usize>(a: [S; N]) -> Point<S, N> {
    Point::from(a)
}
pub fn va<S: Copy, const N: usize>(a: &Vector<S, N>) -> [S; N] {
    std::array::from_fn(|i| a[i])
}
pub fn pa<S: Copy, const N: usize>(a: &Point<S, N>) -> [S; N] {
    std::array::from_fn(|i| a[i])
}
/// vector / point of rounded reals, and the components back as f64
pub fn vf<S: F, const N: usize>(a: [f64; N]) -> Vector<S, N> {
    v(a.map(S::of))
}
pub fn pf<S: F, const N: usize>(a: [f64; N]) -> Point<S, N> {
    p(a.map(S::of))
}
pub fn f_v<S: F, const N: usize>(a: &Vector<S, N>) -> [f64; N] {
    va(a).map(|x| x.f())
}
pub fn f_p<S: F, const N: usize>(a: &Point<S, N>) -> [f64; N] {
    pa(a).map(|x| x.f())
}
/// `a` as exactly representable in `S`
pub fn rnd<S: F, const N: usize>(a: [f64; N]) -> [f64; N] {
    a.map(|x| S::of(x).f())
}
/// Matrix from rows (the library stores columns).
pub fn mat<S: Copy, const R: usize, const C: usize>(rows: [[S; C]; R]) -> Matrix<S, R, C>
where
    [[S; R]; C]: Into<Matrix<S, R, C>>,
{
    let cols: [[S; R]; C] = std::array::from_fn(|c| std::array::from_fn(|r| rows[r][c]));
    cols.into()
}
pub fn matf<S: F, const R: usize, const C: usize>(rows: M<R, C>) -> Matrix<S, R, C> {
    mat(rows.map(|r| r.map(S::of)))
}
/// rows of a matrix
pub fn ma<S: Copy, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> [[S; C]; R] {
    std::array::from_fn(|r| std::array::from_fn(|c| m[c][r]))
}
pub fn f_m<S: F, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> M<R, C> {
    ma(m).map(|r| r.map(|x| x.f()))
}
pub fn rndm<S: F, const R: usize, const C: usize>(a: M<R, C>) -> M<R, C> {
    a.map(|r| r.map(|x| S::of(x).f()))
}
pub fn rad<S: F>(t: f64) -> Radians<S> {
    Radians(S::of(t))
}
/// quaternion from (s, x, y, z)
pub fn q<S: Copy>(a: [S; 4]) -> Quaternion<S> {
    Quaternion::new(a[0], a[1], a[2], a[3])
}
pub fn qa<S: Copy>(a: &Quaternion<S>) -> [S; 4] {
    *AsRef::<[S; 4]>::as_ref(a)
}
pub fn qf<S: F>(a: [f64; 4]) -> Quaternion<S> {
    q(a.map(S::of))
}
pub fn f_q<S: F>(a: &Quaternion<S>) -> [f64; 4] {
    qa(a).map(|x| x.f())
}
pub fn cx<S: Copy>(a: [S; 2]) -> Complex<S> {
    Complex::new(a[0], a[1])
}
pub fn ca<S: Copy>(a: &Complex<S>) -> [S; 2] {
    [a.re, a.im]
}
pub fn cf<S: F>(a: [f64; 2]) -> Complex<S> {
    cx(a.map(S::of))
}
pub fn f_c<S: F>(a: &Complex<S>) -> [f64; 2] {
    ca(a).map(|x| x.f())
}
/// Runs `$f::<T, R, C>` for a drawn shape of 1..=4 by 1..=4, or one of three larger ones.
#[macro_export]
macro_rules! shape16 {
    ($s:ident, $f:ident, $T:ty) => {
        match $s.below(19) {
            0 => $f::<$T, 1, 1>($s),
            1 => $f::<$T, 1, 2>($s),
            2 => $f::<$T, 1, 3>($s),
            3 => $f::<$T, 1, 4>($s),
            4 => $f::<$T, 2, 1>($s),
            5 => $f::<$T, 2, 2>($s),
            6 => $f::<$T, 2, 3>($s),
            7 => $f::<$T, 2, 4>($s),
            8 => $f::<$T, 3, 1>($s),
            9 => $f::<$T, 3, 2>($s),
            10 => $f::<$T, 3, 3>($s),
            11 => $f::<$T, 3, 4>($s),
            12 => $f::<$T, 4, 1>($s),
            13 => $f::<$T, 4, 2>($s),
            14 => $f::<$T, 4, 3>($s),
            15 => $f::<$T, 4, 4>($s),
            16 => $f::<$T, 5, 5>($s),
            17 => $f::<$T, 2, 6>($s),
            _ => $f::<$T, 7, 3>($s),
        }
    };
}
#[macro_export]
macro_rules! dim5 {
    ($s:ident, $f:ident, $T:ty) => {
        match $s.below(8) {
            0 => $f::<$T, 1>($s),
            1 => $f::<$T, 2>($s),
            2 => $f::<$T, 3>($s),
            3 => $f::<$T, 4>($s),
            4 => $f::<$T, 5>($s),
            5 => $f::<$T, 6>($s),
            6 => $f::<$T, 8>($s),
            _ => $f::<$T, 7>($s),
        }
    };
}
#[macro_export]
macro_rules! dim4 {
    ($s:ident, $f:ident, $T:ty) => {
        match $s.below(4) {
            0 => $f::<$T, 1>($s),
            1 => $f::<$T, 2>($s),
            2 => $f::<$T, 3>($s),
            _ => $f::<$T, 4>($s),
        }
    };
}
/// Adds `$f` for each scalar type, over dimensions, shapes or nothing.
#[macro_export]
macro_rules! subs {
    ($suite:ident, $name:expr, $w:expr, dim5 $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, |s: &mut pbt::Src| -> pbt::Res { $crate::dim5!(s, $f, $T) });
    )+};
    ($suite:ident, $name:expr, $w:expr, dim4 $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, |s: &mut pbt::Src| -> pbt::Res { $crate::dim4!(s, $f, $T) });
    )+};
    ($suite:ident, $name:expr, $w:expr, shape16 $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, |s: &mut pbt::Src| -> pbt::Res { $crate::shape16!(s, $f, $T) });
    )+};
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, $f::<$T>);
    )+};
}
/// Components over the whole range of the type, with structure.
pub fn all<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    match s.draw(5) {
        0 => {
            let x = S::any(s);
            [x; N]
        }
        1 => {
            let mut a = [S::i(0); N];
            let i = s.below(N);
            a[i] = S::any(s);
            a
        }
        _ => s.arr(|s| S::any(s)),
    }
}
pub fn same<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> bool {
    (0..N).all(|i| S::same(a[i], b[i]))
}
pub fn close<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> bool {
    (0..N).all(|i| S::close(a[i], b[i]))
}
/// Every way of writing an operation gives `$want`.
#[macro_export]
macro_rules! forms {
    ($cmp:expr, $want:expr, $what:expr, $get:expr; $($e:expr),+ $(,)?) => {
        let want = $want;
        $( { let got = $get(&$e); pbt::ck!($cmp(got, want), "{}: {} gave {:?}, expected {:?}", $what, stringify!($e), got, want); } )+
    };
}
/// indices and ranges beyond `$n` components, read or written, are refused, and so are ranges that end before they start
#[macro_export]
macro_rules! refused {
    ($s:ident, $x:ident, $n:expr, $c:expr, $what:expr) => {{
        let (n, c) = ($n, $c);
        let k = n + $s.below(5);
        let i = $s.below(n + 1);
        let mut y = $x;
        pbt::ck!(panics(|| $x[k]), "index {k} of {} of {n} components is not refused", $what);
        pbt::ck!(panics(|| y[k] = c), "writing index {k} of {} of {n} components is not refused", $what);
        pbt::ck!(panics(|| $x[..k + 1].len()), "range ..{} of {} of {n} components is not refused", k + 1, $what);
        pbt::ck!(panics(|| y[..k + 1].fill(c)), "writing the range ..{} of {} of {n} components is not refused", k + 1, $what);
        pbt::ck!(panics(|| $x[k + 1..].len()), "range {}.. of {} of {n} components is not refused", k + 1, $what);
        pbt::ck!(panics(|| y[k + 1..].fill(c)), "writing the range {}.. of {} of {n} components is not refused", k + 1, $what);
        pbt::ck!(panics(|| $x[i..k + 1].len()), "range {i}..{} of {} of {n} components is not refused", k + 1, $what);
        pbt::ck!(panics(|| y[i..k + 1].fill(c)), "writing the range {i}..{} of {} of {n} components is not refused", k + 1, $what);
        if i > 0 {
            let j = $s.below(i);
            pbt::ck!(panics(|| $x[i..j].len()), "range {i}..{j} of {} is not refused", $what);
            pbt::ck!(panics(|| y[i..j].fill(c)), "writing the range {i}..{j} of {} is not refused", $what);
        }
        pbt::ck!(y == $x, "a refused write changed {:?} to {y:?}", $x);
    }};
}
