//! P34: casting vectors, points, matrices, quaternions and complex numbers casts every component, or nothing.
use cglinalg_numeric::SimdCast;
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};

#[derive(Clone, Copy, Debug)]
enum Num {
    I(i128),
    U(u128),
    F(f64),
}
trait K: Sc + SimdCast {
    fn num(self) -> Num;
    /// what the conversion is: exact for integers in range, truncation for reals in range, rounding to reals
    fn conv(n: Num) -> Option<Self>;
}
macro_rules! k_int {
    ($($T:ty),+) => {$(
        impl K for $T {
            fn num(self) -> Num {
                match i128::try_from(self) { Ok(i) => Num::I(i), Err(_) => Num::U(self as u128) }
            }
            fn conv(n: Num) -> Option<$T> {
                match n {
                    Num::I(i) => <$T>::try_from(i).ok(),
                    Num::U(u) => <$T>::try_from(u).ok(),
                    Num::F(f) => {
                        let t = f.trunc();
                        // bounds as reals: the largest value plus one is a power of two
                        let hi = 2f64.powi(if <$T>::MIN == 0 { <$T>::BITS } else { <$T>::BITS - 1 } as i32);
                        let lo = if <$T>::MIN == 0 { 0.0 } else { -hi };
                        if t >= lo && t < hi { Some(t as $T) } else { None }
                    }
                }
            }
        }
    )+};
}
k_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! k_float {
    ($($T:ty),+) => {$(
        impl K for $T {
            fn num(self) -> Num {
                Num::F(self as f64)
            }
            fn conv(n: Num) -> Option<$T> {
                Some(match n { Num::I(i) => i as $T, Num::U(u) => u as $T, Num::F(f) => f as $T })
            }
        }
    )+};
}
k_float!(f32, f64);

/// values that mostly fit, with now and then one that may not, anywhere
fn gen<A: K, const N: usize>(s: &mut Src) -> [A; N] {
    let mut a: [A; N] = s.arr(|s| if A::FLOAT && s.coin() { frac::<A>(s) } else { A::small(s) });
    if s.coin() {
        let i = s.below(N);
        a[i] = A::any(s);
    } else if s.one_in(4) {
        a = s.arr(|s| A::any(s));
    }
    a
}
fn frac<A: K>(s: &mut Src) -> A {
    // in eighths, either sign
    let mut x = A::i(s.range(-800, 800));
    x /= A::i(8);
    x
}
fn eq<B: K>(a: &[B], b: &[B]) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| B::same(a[i], b[i]))
}
fn expect<A: K, B: K, const N: usize>(a: &[A; N]) -> Option<Vec<B>> {
    a.iter().map(|x| B::conv(x.num())).collect()
}
fn agree<B: K>(s: &mut Src, what: &str, a: &dyn std::fmt::Debug, got: Option<Vec<B>>, want: Option<Vec<B>>) -> Res {
    s.label(if want.is_some() { "fits" } else { "does not fit" });
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) if eq(g, w) => Ok(()),
        _ => Err(format!("{what} {a:?} cast to {} gave {got:?}, expected {want:?}", B::N)),
    }
}
fn vector<A: K, B: K, const N: usize>(s: &mut Src) -> Res {
    let a: [A; N] = gen(s);
    s.note("components", &a);
    let w = expect::<A, B, N>(&a);
    let got = v(a).try_cast::<B>().map(|g| va(&g).to_vec());
    agree(s, "vector", &a, got, w.clone())?;
    let got = p(a).try_cast::<B>().map(|g| pa(&g).to_vec());
    agree(s, "point", &a, got, w)
}
fn matrix<A: K, B: K, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let mut a = [[A::i(0); R]; C];
    let odd = if s.coin() { s.below(C) } else { C };
    for c in 0..C {
        a[c] = if c == odd || s.one_in(20) { gen(s) } else { s.arr(|s| A::small(s)) };
    }
    s.note("columns", &a);
    let x: Matrix<A, R, C> = Matrix::from(a);
    let w: Option<Vec<B>> = a.iter().flatten().map(|x| B::conv(x.num())).collect();
    let got = x.try_cast::<B>().map(|g| AsRef::<[[B; R]; C]>::as_ref(&g).iter().flatten().copied().collect::<Vec<B>>());
    agree(s, "matrix", &a, got, w)
}
fn one<A: K, B: K>(s: &mut Src) -> Res {
    match s.draw(13) {
        0 => vector::<A, B, 1>(s),
        1 => vector::<A, B, 2>(s),
        2 => vector::<A, B, 3>(s),
        3 => vector::<A, B, 4>(s),
        4 => {
            let a: [A; 4] = gen(s);
            s.note("quaternion", &a);
            let got = q(a).try_cast::<B>().map(|g| qa(&g).to_vec());
            agree(s, "quaternion", &a, got, expect::<A, B, 4>(&a))
        }
        5 => {
            let a: [A; 2] = gen(s);
            s.note("complex number", &a);
            let got = cx(a).try_cast::<B>().map(|g| ca(&g).to_vec());
            agree(s, "complex number", &a, got, expect::<A, B, 2>(&a))
        }
        6 => matrix::<A, B, 1, 1>(s),
        7 => matrix::<A, B, 2, 2>(s),
        8 => matrix::<A, B, 3, 3>(s),
        9 => matrix::<A, B, 4, 4>(s),
        10 => matrix::<A, B, 2, 3>(s),
        11 => matrix::<A, B, 4, 2>(s),
        12 => matrix::<A, B, 1, 4>(s),
        _ => matrix::<A, B, 3, 1>(s),
    }
}
/// a cast to a wider type and back gives the value back
fn there_and_back<A: K, B: K>(s: &mut Src) -> Res {
    let a: [A; 4] = s.arr(|s| A::any(s));
    s.note("components", &a);
    let wide = v(a).try_cast::<B>().ok_or(format!("{a:?} does not fit {}", B::N))?;
    let back = wide.try_cast::<A>().ok_or(format!("{wide:?} does not fit {}", A::N))?;
    ck!(same(va(&back), a), "{a:?} cast to {} and back is {back:?}", B::N);
    let m: Matrix<A, 2, 2> = Matrix::from([[a[0], a[1]], [a[2], a[3]]]);
    let back = m.try_cast::<B>().and_then(|w| w.try_cast::<A>()).ok_or("a matrix does not fit")?;
    for c in 0..2 {
        ck!(same(va(&back[c]), [a[2 * c], a[2 * c + 1]]), "{m:?} cast to {} and back is {back:?}", B::N);
    }
    let (qq, cc) = (q(a), cx([a[0], a[1]]));
    let qb = qq.try_cast::<B>().and_then(|w| w.try_cast::<A>()).ok_or("a quaternion does not fit")?;
    let cb = cc.try_cast::<B>().and_then(|w| w.try_cast::<A>()).ok_or("a complex number does not fit")?;
    ck!(same(qa(&qb), a) && same(ca(&cb), [a[0], a[1]]), "{a:?} cast to {} and back is {qb:?}, {cb:?}", B::N);
    ck_eq!(qb.len(), 4);
    Ok(())
}
macro_rules! from {
    ($suite:ident, $A:ty; $($B:ty),+) => {$(
        $suite.add(concat!(stringify!($A), " to ", stringify!($B)), one::<$A, $B>);
    )+};
}
macro_rules! wide {
    ($suite:ident; $($A:ty, $B:ty);+) => {$(
        $suite.add_w(concat!(stringify!($A), " to ", stringify!($B), " and back"), 0.5, there_and_back::<$A, $B>);
    )+};
}
fn main() {
    let mut suite = Suite::new("P34", "a component other than a small integer was drawn");
    suite.quick = 30_000;
    suite.thorough = 1_500_000;
    from!(suite, i8; u8, u64, i16, i64, u128, f32);
    from!(suite, u16; i8, u8, i16, i32, f64, f32);
    from!(suite, i32; u8, i8, u16, i64, u32, usize, f32, f64);
    from!(suite, u32; i16, i32, u64, f32);
    from!(suite, i64; i32, u32, u64, i128, f32, f64, isize);
    from!(suite, u64; i64, u32, f64);
    from!(suite, u128; i128, u64, i8, f32);
    from!(suite, i128; u128, i64, f64);
    from!(suite, usize; isize, u8);
    from!(suite, isize; usize, i16);
    from!(suite, f32; u8, i8, i32, u32, i64, u128, i128, f64);
    from!(suite, f64; u8, i16, i32, u64, i64, usize, i128, u128, f32);
    wide!(suite; u8, i16; u8, f32; i8, i128; i16, f32; u16, u32; i32, f64; u32, f64; u32, i64; f32, f64; u64, u128; i64, i128);
    pbt::main(suite);
}
