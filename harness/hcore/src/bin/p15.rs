//! P15: matrix arithmetic and products are those of linear algebra, in every form.
use hcore::*;
use pbt::kit::E;
use pbt::{ck, Res, Src, Suite};
use std::ops::Mul;

type A<S, const R: usize, const C: usize> = [[S; C]; R];
fn all<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> A<S, R, C> {
    match s.draw(5) {
        0 => {
            let x = S::any(s);
            [[x; C]; R]
        }
        1 => {
            let mut a = [[S::i(0); C]; R];
            let (r, c) = (s.below(R), s.below(C));
            a[r][c] = S::any(s);
            a
        }
        _ => std::array::from_fn(|_| s.arr(|s| S::any(s))),
    }
}
fn zip<S: Copy, T, const R: usize, const C: usize>(a: &A<S, R, C>, b: &A<S, R, C>, f: impl Fn(S, S) -> T) -> A<T, R, C> {
    std::array::from_fn(|r| std::array::from_fn(|c| f(a[r][c], b[r][c])))
}
fn map<S: Copy, T, const R: usize, const C: usize>(a: &A<S, R, C>, f: impl Fn(S) -> T) -> A<T, R, C> {
    a.map(|r| r.map(&f))
}
fn same<S: Sc, const R: usize, const C: usize>(a: A<S, R, C>, b: A<S, R, C>) -> bool {
    (0..R).all(|r| (0..C).all(|c| S::same(a[r][c], b[r][c])))
}
fn close<S: Sc, const R: usize, const C: usize>(a: A<S, R, C>, b: A<S, R, C>) -> bool {
    (0..R).all(|r| (0..C).all(|c| S::close(a[r][c], b[r][c])))
}
macro_rules! forms {
    ($cmp:ident, $want:expr, $what:expr, $get:ident; $($e:expr),+ $(,)?) => {
        let want = $want;
        $( { let got = $get(&$e); ck!($cmp(got, want), "{}: {} gave rows {:?}, expected rows {:?}", $what, stringify!($e), got, want); } )+
    };
}
fn elementwise<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let (a, b) = (all::<S, R, C>(s), all::<S, R, C>(s));
    let (k, d) = (S::any(s), S::any(s));
    s.note("a", &a);
    s.note("b", &b);
    s.note("k, d", &(k, d));
    let (zero, one) = (S::i(0), S::i(1));
    let x = mat(a);

    let bs = zip(&a, &b, |x, y| if S::can_add(x, y) { y } else { zero });
    let y = mat(bs);
    forms!(same, zip(&a, &bs, |x, y| x + y), "sum", ma; x + y, x + &y, &x + y, &x + &y,
        { let mut z = x; z += y; z }, { let mut z = x; z += &y; z });

    let bd = zip(&a, &b, |x, y| if S::can_sub(x, y) { y } else { x });
    let y = mat(bd);
    forms!(same, zip(&a, &bd, |x, y| x - y), "difference", ma; x - y, x - &y, &x - y, &x - &y,
        { let mut z = x; z -= y; z }, { let mut z = x; z -= &y; z });

    let am = map(&a, |x| if S::can_mul(x, k) { x } else { one });
    let xm = mat(am);
    forms!(same, map(&am, |x| x * k), "matrix * scalar", ma; xm * k, &xm * k, { let mut z = xm; z *= k; z });

    let bc = zip(&a, &b, |x, y| if S::can_mul(x, y) { y } else { one });
    let y = mat(bc);
    forms!(same, zip(&a, &bc, |x, y| x * y), "component product", ma; x.component_mul(&y), { let mut z = x; z.component_mul_assign(&y); z });

    if d != zero {
        let ad = map(&a, |x| if S::can_div(x, d) { x } else { one });
        let xd = mat(ad);
        forms!(close, map(&ad, |x| x / d), "matrix / scalar", ma; xd / d, &xd / d, { let mut z = xd; z /= d; z });
        forms!(same, map(&ad, |x| x % d), "matrix % scalar", ma; xd % d, &xd % d, { let mut z = xd; z %= d; z });
    }
    ck!(same(ma(&x), a), "an operand was changed");
    forms!(same, [[zero; C]; R], "zero", ma; Matrix::<S, R, C>::zero());
    ck!(x.is_zero() == a.iter().flatten().all(|t| *t == zero), "is_zero of rows {a:?} is {}", x.is_zero());
    Ok(())
}
fn signed<S: Sc + SimdScalarSigned, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let a = all::<S, R, C>(s);
    let a = map(&a, |x| if S::can_sub(S::i(0), x) { x } else { S::i(0) });
    s.note("a", &a);
    let x = mat(a);
    forms!(same, map(&a, |x| -x), "negated matrix", ma; -x, -&x, { let mut z = x; z.neg_mut(); z });
    Ok(())
}
fn floats<S: F, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let a = all::<S, R, C>(s);
    let u = Unit::from_value_unchecked(mat(a));
    forms!(same, map(&a, |x| -x), "negated unit matrix", ma; (-u).into_inner(), (-&u).into_inner());
    ck!(mat(a).is_finite() == a.iter().flatten().all(|t| t.f().is_finite()), "is_finite of rows {a:?} is {}", mat(a).is_finite());
    let (a, b): (A<S, R, C>, A<S, R, C>) = (std::array::from_fn(|_| s.arr(|s| s.fl::<S>())), std::array::from_fn(|_| s.arr(|s| s.fl::<S>())));
    let t = match s.draw(4) {
        0 => 0.0,
        1 => 1.0,
        2 => s.range(-3, 3) as f64,
        _ => S::of(s.unit()).f(),
    };
    s.note("a", &a);
    s.note("b", &b);
    s.note("t", &t);
    let got = ma(&mat(a).lerp(&mat(b), S::of(t)));
    for r in 0..R {
        for c in 0..C {
            let (x, y) = (E::of(a[r][c].f()), E::of(b[r][c].f()));
            let w = x + (y - x) * E::of(t);
            ck!(w.near(got[r][c], 8.0), "row {r}, column {c} of lerp of rows {a:?} and {b:?} by {t}: got {:?}, expected {}", got[r][c], w.v);
        }
    }
    Ok(())
}
fn small<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> A<S, R, C> {
    match s.draw(7) {
        0 => {
            let mut a = [[S::i(0); C]; R];
            let (r, c) = (s.below(R), s.below(C));
            a[r][c] = S::wide(s);
            a
        }
        1 => std::array::from_fn(|r| std::array::from_fn(|c| S::i((r == c) as i64))),
        _ => std::array::from_fn(|_| s.arr(|s| S::wide(s))),
    }
}
fn prod<S: Sc, const R: usize, const K: usize, const C: usize>(a: &A<S, R, K>, b: &A<S, K, C>) -> A<S, R, C> {
    std::array::from_fn(|r| {
        std::array::from_fn(|c| {
            let mut t = S::i(0);
            for k in 0..K {
                t = t + a[r][k] * b[k][c];
            }
            t
        })
    })
}
fn tr<S: Copy, const R: usize, const C: usize>(a: &A<S, R, C>) -> A<S, C, R> {
    std::array::from_fn(|c| std::array::from_fn(|r| a[r][c]))
}
/// exact products of small integers
fn products<S: Sc, const R: usize, const K: usize, const C: usize>(s: &mut Src, tr_mul: impl Fn(&Matrix<S, K, R>, &Matrix<S, K, C>) -> Matrix<S, R, C>) -> Res
where
    Matrix<S, R, K>: Mul<Matrix<S, K, C>, Output = Matrix<S, R, C>> + for<'a> Mul<&'a Matrix<S, K, C>, Output = Matrix<S, R, C>>,
    for<'a> &'a Matrix<S, R, K>: Mul<Matrix<S, K, C>, Output = Matrix<S, R, C>> + Mul<&'a Matrix<S, K, C>, Output = Matrix<S, R, C>>,
{
    let (a, b): (A<S, R, K>, A<S, K, C>) = (small(s), small(s));
    let w: [S; K] = s.arr(|s| S::wide(s));
    s.note("a", &a);
    s.note("b", &b);
    s.note("w", &w);
    let (x, y) = (mat(a), mat(b));
    forms!(same, prod(&a, &b), "product", ma; x * y, x * &y, &x * y, &x * &y);
    forms!(same, prod(&a, &b), "product of the transpose of the first's transpose", ma; tr_mul(&mat(tr(&a)), &y));
    // matrix * vector
    let want: [S; R] = prod(&a, &w.map(|x| [x])).map(|x| x[0]);
    let u = v(w);
    for (n, got) in [va(&(x * u)), va(&(x * &u)), va(&(&x * u)), va(&(&x * &u))].into_iter().enumerate() {
        ck!(got == want, "matrix of rows {a:?} * vector {w:?} (form {n}) gave {got:?}, expected {want:?}");
    }
    // dot products of matrices
    let b2: A<S, R, K> = small(s);
    s.note("b2", &b2);
    let mut want = S::i(0);
    let mut fits = true;
    for r in 0..R {
        for k in 0..K {
            let t = a[r][k] * b2[r][k];
            if !S::can_add(want, t) {
                fits = false;
                break;
            }
            want = want + t;
        }
        if !fits {
            break;
        }
    }
    if fits && (S::FLOAT || R * K <= 4 || !["u8", "i8", "u16", "i16"].contains(&S::N)) {
        s.label("dot");
        ck!(x.dot(&mat(b2)) == want, "dot of rows {a:?} and {b2:?} is {:?}, expected {want:?}", x.dot(&mat(b2)));
        let t: Matrix<S, K, R> = mat(tr(&b2));
        ck!(x.tr_dot(&t) == want, "transposed dot of rows {a:?} and {:?} is {:?}, expected {want:?}", tr(&b2), x.tr_dot(&t));
    }
    Ok(())
}
/// a matrix of any shape times a vector
fn applied<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let a: A<S, R, C> = small(s);
    let w: [S; C] = s.arr(|s| S::wide(s));
    s.note("rows, vector", &(a, w));
    let want: [S; R] = prod(&a, &w.map(|x| [x])).map(|x| x[0]);
    let (x, u) = (mat(a), v(w));
    for (n, got) in [va(&(x * u)), va(&(x * &u)), va(&(&x * u)), va(&(&x * &u))].into_iter().enumerate() {
        ck!(got == want, "matrix of rows {a:?} * vector {w:?} (form {n}) gave {got:?}, expected {want:?}");
    }
    Ok(())
}
/// products of reals, within rounding
fn real_products<S: F, const R: usize, const K: usize, const C: usize>(s: &mut Src, tr_mul: impl Fn(&Matrix<S, K, R>, &Matrix<S, K, C>) -> Matrix<S, R, C>) -> Res
where
    for<'a> &'a Matrix<S, R, K>: Mul<&'a Matrix<S, K, C>, Output = Matrix<S, R, C>>,
{
    let (a, b): (A<S, R, K>, A<S, K, C>) = (std::array::from_fn(|_| s.arr(|s| s.fl::<S>())), std::array::from_fn(|_| s.arr(|s| s.fl::<S>())));
    s.note("a", &a);
    s.note("b", &b);
    let got = ma(&(&mat(a) * &mat(b)));
    let gott = ma(&tr_mul(&mat(tr(&a)), &mat(b)));
    for r in 0..R {
        for c in 0..C {
            let mut t = E::zero();
            for k in 0..K {
                t = t + E::of(a[r][k].f()) * E::of(b[k][c].f());
            }
            ck!(t.near(got[r][c], 8.0), "row {r}, column {c} of the product of rows {a:?} and {b:?}: got {:?}, expected {}", got[r][c], t.v);
            ck!(t.near(gott[r][c], 8.0), "row {r}, column {c} of tr_mul for the product of rows {a:?} and {b:?}: got {:?}, expected {}", gott[r][c], t.v);
        }
    }
    Ok(())
}
macro_rules! shapes {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        shapes!(@r $suite, $name, $w, $f, $T, 1);
        shapes!(@r $suite, $name, $w, $f, $T, 2);
        shapes!(@r $suite, $name, $w, $f, $T, 3);
        shapes!(@r $suite, $name, $w, $f, $T, 4);
    )+};
    (@r $suite:ident, $name:expr, $w:expr, $f:ident, $T:ty, $R:expr) => {
        $suite.add_w(concat!($name, " ", $R, "xK * KxC ", stringify!($T)), $w, |s: &mut Src| -> Res {
            match s.below(4) {
                0 => shapes!(@k s, $f, $T, $R, 1),
                1 => shapes!(@k s, $f, $T, $R, 2),
                2 => shapes!(@k s, $f, $T, $R, 3),
                _ => shapes!(@k s, $f, $T, $R, 4),
            }
        });
    };
    (@k $s:ident, $f:ident, $T:ty, $R:expr, $K:expr) => {
        match $s.below(4) {
            0 => $f::<$T, $R, $K, 1>($s, |a, b| a.tr_mul(b)),
            1 => $f::<$T, $R, $K, 2>($s, |a, b| a.tr_mul(b)),
            2 => $f::<$T, $R, $K, 3>($s, |a, b| a.tr_mul(b)),
            _ => $f::<$T, $R, $K, 4>($s, |a, b| a.tr_mul(b)),
        }
    };
}
/// shapes beyond those with names
macro_rules! larger {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, ", larger ", stringify!($T)), $w, |s: &mut Src| -> Res {
            match s.below(4) {
                0 => $f::<$T, 2, 7, 3>(s, |a, b| a.tr_mul(b)),
                1 => $f::<$T, 3, 5, 4>(s, |a, b| a.tr_mul(b)),
                2 => $f::<$T, 1, 16, 1>(s, |a, b| a.tr_mul(b)),
                _ => $f::<$T, 4, 9, 4>(s, |a, b| a.tr_mul(b)),
            }
        });
    )+};
}
macro_rules! left {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("scalar on the left ", stringify!($T)), 0.5, |s: &mut Src| -> Res {
            fn go<X, const R: usize, const C: usize>(s: &mut Src) -> Res {
                let k = <$T as Sc>::any(s);
                let a = map(&all::<$T, R, C>(s), |x| if Sc::can_mul(x, k) { x } else { 1 as $T });
                s.note("k", &k);
                s.note("a", &a);
                let x = mat(a);
                forms!(same, map(&a, |t| k * t), "scalar * matrix", ma; k * x, k * &x, &k * x, &k * &x);
                Ok(())
            }
            match s.below(5) {
                0 => go::<(), 1, 1>(s),
                1 => go::<(), 2, 3>(s),
                2 => go::<(), 3, 3>(s),
                3 => go::<(), 4, 2>(s),
                _ => go::<(), 4, 4>(s),
            }
        });
    )+};
}
/// (A B) C = A (B C), distributivity and transposition, over a chain of square matrices
fn ring<S: F, const N: usize>(s: &mut Src) -> Res
where
    Matrix<S, N, N>: Mul<Output = Matrix<S, N, N>>,
{
    let g = |s: &mut Src| -> Matrix<S, N, N> { mat(std::array::from_fn::<[S; N], N, _>(|_| s.arr(|s| s.fint::<S>(12)))) };
    let (a, b, c) = (g(s), g(s), g(s));
    s.note("a, b, c", &(a, b, c));
    ck!((a * b) * c == a * (b * c), "the product of {a:?}, {b:?}, {c:?} is not associative");
    ck!(a * (b + c) == a * b + a * c, "the product of {a:?} with {b:?} + {c:?} is not distributive");
    ck!((a + b) * c == a * c + b * c, "the product of {a:?} + {b:?} with {c:?} is not distributive");
    ck!((a * b).transpose() == b.transpose() * a.transpose(), "the transposed product of {a:?} and {b:?}");
    let i = Matrix::<S, N, N>::identity();
    ck!(a * i == a && i * a == a, "the identity is not neutral for {a:?}");
    ck!(a + (-a) == Matrix::zero(), "{a:?} minus itself is not zero");
    Ok(())
}
fn ring_any<S: F>(s: &mut Src) -> Res {
    match s.below(4) {
        0 => ring_n::<S>(s, 1),
        1 => ring_n::<S>(s, 2),
        2 => ring_n::<S>(s, 3),
        _ => ring_n::<S>(s, 4),
    }
}
fn ring_n<S: F>(s: &mut Src, n: usize) -> Res {
    match n {
        1 => ring::<S, 1>(s),
        2 => ring::<S, 2>(s),
        3 => ring::<S, 3>(s),
        _ => ring::<S, 4>(s),
    }
}
fn main() {
    let mut suite = Suite::new("P15", "an element or scalar other than 0, 1 and -1 was drawn");
    suite.extremes = 8.0;
    suite.quick = 60_000;
    suite.thorough = 3_000_000;
    suite.assumptions = vec!["operands are chosen so that the primitive operations do not overflow"];
    subs!(suite, "elementwise", 1.0, shape16 elementwise; u8, i32, u64, f32, f64);
    subs!(suite, "negation", 0.5, shape16 signed; i8, i64, f32, f64);
    subs!(suite, "lerp, finiteness", 1.0, shape16 floats; f32, f64);
    shapes!(suite, "products, exact", 1.0, products; u8, i32, i64, i128, f32, f64);
    shapes!(suite, "products, reals", 0.5, real_products; f32, f64);
    subs!(suite, "matrix times vector", 0.5, shape16 applied; u8, u16, u64, i8, i16, i32, i128, f32, f64);
    larger!(suite, "products, exact", 0.7, products; u32, i64, u128, f64);
    larger!(suite, "products, reals", 0.5, real_products; f32, f64);
    subs!(suite, "ring laws", 1.0, ring_any; f32, f64);
    left!(suite; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    pbt::main(suite);
}
