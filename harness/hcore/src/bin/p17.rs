//! P17: determinants and inverses.
use hcore::*;
use pbt::kit::E;
use pbt::{ck, ck_eq, Res, Src, Suite};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Rows<T, const N: usize> = [[T; N]; N];

/// the determinants and inverses of the four sizes, under one name
trait Sq<S, const N: usize>: Copy + std::fmt::Debug {
    fn of(rows: Rows<S, N>) -> Self;
    fn rows(&self) -> Rows<S, N>;
    fn det(&self) -> S;
}
trait Inv<S, const N: usize>: Sq<S, N> {
    fn try_inv(&self) -> Option<Self>;
    fn inv(&self) -> Self;
    fn invertible(&self) -> bool;
    fn mul(&self, o: &Self) -> Self;
}
macro_rules! sq {
    ($M:ident, $N:expr) => {
        impl<S: Sc + SimdScalarSigned> Sq<S, $N> for $M<S> {
            fn of(rows: Rows<S, $N>) -> Self {
                mat(rows)
            }
            fn rows(&self) -> Rows<S, $N> {
                ma(self)
            }
            fn det(&self) -> S {
                self.determinant()
            }
        }
        impl<S: F> Inv<S, $N> for $M<S> {
            fn try_inv(&self) -> Option<Self> {
                self.try_inverse()
            }
            fn inv(&self) -> Self {
                self.inverse()
            }
            fn invertible(&self) -> bool {
                self.is_invertible()
            }
            fn mul(&self, o: &Self) -> Self {
                self * o
            }
        }
    };
}
sq!(Matrix1x1, 1);
sq!(Matrix2x2, 2);
sq!(Matrix3x3, 3);
sq!(Matrix4x4, 4);

fn idet(a: &[Vec<i128>]) -> i128 {
    if a.len() == 1 {
        return a[0][0];
    }
    (0..a.len())
        .map(|c| {
            let minor: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, x)| *x).collect()).collect();
            (if c % 2 == 0 { 1 } else { -1 }) * a[0][c] * idet(&minor)
        })
        .sum()
}
fn edet(a: &[Vec<E>]) -> E {
    if a.is_empty() {
        return E::of(1.0);
    }
    let mut t = E::zero();
    for c in 0..a.len() {
        let minor: Vec<Vec<E>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, x)| *x).collect()).collect();
        let m = a[0][c] * edet(&minor);
        t = if c % 2 == 0 { t + m } else { t - m };
    }
    t
}
fn ivecs<const N: usize>(a: &Rows<i64, N>) -> Vec<Vec<i128>> {
    a.iter().map(|r| r.iter().map(|x| *x as i128).collect()).collect()
}
/// integer matrices: generic, diagonal, triangular, and singular in several ways
fn gen<const N: usize>(s: &mut Src, m: i64) -> Rows<i64, N> {
    let mut a: Rows<i64, N> = std::array::from_fn(|_| s.arr(|s| s.int(m)));
    match s.draw(11) {
        0 => {
            for r in 0..N {
                for c in 0..N {
                    if r != c {
                        a[r][c] = 0;
                    }
                }
            }
        }
        1 => {
            for r in 0..N {
                for c in 0..r {
                    a[r][c] = 0;
                }
            }
        }
        2 if N > 1 => {
            let (i, j) = (s.below(N), s.below(N - 1));
            let j = (i + 1 + j) % N;
            a[i] = a[j];
        }
        3 if N > 1 => {
            let (i, j) = (s.below(N), s.below(N - 1));
            let j = (i + 1 + j) % N;
            for r in 0..N {
                a[r][i] = -a[r][j];
            }
        }
        4 => {
            let i = s.below(N);
            a[i] = [0; N];
        }
        5 => {
            // a permutation matrix with signs
            a = [[0; N]; N];
            let mut p: Vec<usize> = (0..N).collect();
            for i in (1..N).rev() {
                let j = s.below(i + 1);
                p.swap(i, j);
            }
            for r in 0..N {
                a[r][p[r]] = s.int_nz(m);
            }
        }
        _ => {}
    }
    a
}
fn exact<S: Sc + SimdScalarSigned, const N: usize, T: Sq<S, N>>(s: &mut Src) -> Res {
    let m = match (S::N, N) {
        (_, 1) => 90,
        ("i8", 2) => 6,
        ("i8", 3) => 2,
        ("i8", _) => 1,
        ("i16", 2) => 100,
        ("i16", 3) => 14,
        ("i16", _) => 5,
        ("f32", 4) => 20,
        ("f32", 3) => 100,
        _ => 60,
    };
    let a = gen::<N>(s, m);
    s.note("rows", &a);
    let w = idet(&ivecs(&a));
    let x = T::of(a.map(|r| r.map(S::i)));
    ck!(x.det() == S::i(w as i64), "determinant of rows {a:?} is {:?}, expected {w}", x.det());
    // the determinant does not change by transposition, and changes sign with a swap of rows
    let t = T::of(std::array::from_fn(|r| std::array::from_fn(|c| S::i(a[c][r]))));
    ck!(t.det() == S::i(w as i64), "determinant of the transpose of rows {a:?} is {:?}, expected {w}", t.det());
    if N > 1 {
        let (i, j) = (s.below(N), s.below(N - 1));
        let mut b = a;
        b.swap(i, (i + 1 + j) % N);
        let y = T::of(b.map(|r| r.map(S::i)));
        ck!(y.det() == S::i(-w as i64), "determinant of rows {b:?} is {:?}, expected {}", y.det(), -w);
    }
    Ok(())
}
fn floats<S: F, const N: usize, T: Inv<S, N>>(s: &mut Src) -> Res {
    let a: Rows<f64, N> = std::array::from_fn(|_| s.rvec());
    let a = a.map(|r| r.map(|x| S::of(x).f()));
    s.note("rows", &a);
    let e: Vec<Vec<E>> = a.iter().map(|r| r.iter().map(|x| E::of(*x)).collect()).collect();
    let d = edet(&e);
    // beyond the range of the type
    if d.m > (if S::NAME == "f32" { 1e37 } else { 1e300 }) {
        return Ok(());
    }
    let x = T::of(a.map(|r| r.map(S::of)));
    ck!(d.near(x.det(), 16.0), "determinant of rows {a:?} is {:?}, expected {}", x.det(), d.v);
    // clearly invertible: the entries of the inverse are the cofactors over the determinant
    if d.v.abs() > 100.0 * S::EPS * d.m && d.v.abs() > 1e-34 {
        s.label("regular");
        let Some(i) = x.try_inv() else { return Err(format!("rows {a:?} of determinant {} have no inverse", d.v)) };
        let g = i.rows();
        for r in 0..N {
            for c in 0..N {
                // cofactor of element (c, r)
                let minor: Vec<Vec<E>> = (0..N).filter(|p| *p != c).map(|p| (0..N).filter(|q| *q != r).map(|q| e[p][q]).collect()).collect();
                let k = edet(&minor);
                let k = if (r + c) % 2 == 0 { k } else { -k };
                let w = k / d;
                let tol = 64.0 * S::EPS * w.m + 1e-300;
                ck!((g[r][c].f() - w.v).abs() <= tol, "row {r}, column {c} of the inverse of rows {a:?} is {:?}, expected {}", g[r][c], w.v);
            }
        }
        let same = |p: Rows<S, N>, q: Rows<S, N>| (0..N).all(|r| (0..N).all(|c| (p[r][c].f() - q[r][c].f()).abs() <= 64.0 * S::EPS * q[r][c].f().abs()));
        ck!(same(x.inv().rows(), g), "inverse and try_inverse of rows {a:?} differ");
        // the predicate takes a determinant within the rounding unit for zero
        if d.v.abs() > 8.0 * S::EPS + 16.0 * S::EPS * d.m {
            ck!(x.invertible(), "rows {a:?} of determinant {} are found singular", d.v);
        }
    }
    Ok(())
}
/// integer matrices, whose determinant is exact: singular ones have no inverse, the others have an exact relation to it
fn inverses<S: F, const N: usize, T: Inv<S, N>>(s: &mut Src) -> Res {
    let a = gen::<N>(s, if S::NAME == "f32" && N == 4 { 20 } else { 60 });
    s.note("rows", &a);
    let d = idet(&ivecs(&a)) as f64;
    let x = T::of(a.map(|r| r.map(|x| S::of(x as f64))));
    ck_eq!(x.try_inv().is_some(), d != 0.0, "whether rows {a:?} of determinant {d} have an inverse");
    ck_eq!(x.invertible(), d != 0.0, "whether rows {a:?} of determinant {d} are invertible");
    if d == 0.0 {
        s.label("singular");
        if s.one_in(16) {
            let r = catch_unwind(AssertUnwindSafe(|| {
                x.inv();
            }));
            ck!(r.is_err(), "the inverse of the singular rows {a:?} is not refused");
        }
        return Ok(());
    }
    let i = x.inv();
    // each element of the product is a sum of products that are off by rounding
    let (p, q) = (x.mul(&i).rows(), i.mul(&x).rows());
    let g = i.rows().map(|r| r.map(|x| x.f()));
    for r in 0..N {
        for c in 0..N {
            let w = (r == c) as i64 as f64;
            let (mut m1, mut m2) = (1.0, 1.0);
            // adjugate entries are exact integers here, so each entry of the inverse is off by a few ulps
            for k in 0..N {
                m1 += a[r][k].abs() as f64 * g[k][c].abs();
                m2 += g[r][k].abs() * a[k][c].abs() as f64;
            }
            ck!((p[r][c].f() - w).abs() <= 16.0 * S::EPS * m1, "row {r}, column {c} of the product of rows {a:?} and its inverse is {:?}", p[r][c]);
            ck!((q[r][c].f() - w).abs() <= 16.0 * S::EPS * m2, "row {r}, column {c} of the product of the inverse of rows {a:?} and it is {:?}", q[r][c]);
        }
    }
    Ok(())
}
/// det(AB) = det A det B, exactly
fn multiplicative<S: F, const N: usize, T: Inv<S, N>>(s: &mut Src) -> Res {
    let m = if S::NAME == "f32" { [40, 10, 5, 2][N - 1] } else { 12 };
    let (a, b) = (gen::<N>(s, m), gen::<N>(s, m));
    s.note("a, b", &(a, b));
    let f = |a: &Rows<i64, N>| T::of(a.map(|r| r.map(|x| S::of(x as f64))));
    let (x, y) = (f(&a), f(&b));
    let w = idet(&ivecs(&a)) as f64 * idet(&ivecs(&b)) as f64;
    ck!(x.mul(&y).det().f() == w, "determinant of the product of rows {a:?} and {b:?} is {:?}, expected {w}", x.mul(&y).det());
    Ok(())
}
macro_rules! sizes {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " 1 ", stringify!($T)), $w * 0.3, $f::<$T, 1, Matrix1x1<$T>>);
        $suite.add_w(concat!($name, " 2 ", stringify!($T)), $w, $f::<$T, 2, Matrix2x2<$T>>);
        $suite.add_w(concat!($name, " 3 ", stringify!($T)), $w, $f::<$T, 3, Matrix3x3<$T>>);
        $suite.add_w(concat!($name, " 4 ", stringify!($T)), $w, $f::<$T, 4, Matrix4x4<$T>>);
    )+};
}
fn main() {
    let mut suite = Suite::new("P17", "an element other than 0, 1 and -1 was drawn");
    suite.extremes = 8.0;
    suite.quick = 60_000;
    suite.thorough = 1_000_000;
    sizes!(suite, "determinant, exact", 1.0, exact; i8, i16, i32, i64, i128, isize, f32, f64);
    sizes!(suite, "determinant and inverse, reals", 1.0, floats; f32, f64);
    sizes!(suite, "inverse of integer matrices", 1.0, inverses; f32, f64);
    sizes!(suite, "determinant of a product", 1.0, multiplicative; f32, f64);
    pbt::main(suite);
}
