//! P16: rearranging a matrix: transposition, rows and columns, swaps, diagonals, embeddings.
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};
use std::panic::{catch_unwind, AssertUnwindSafe};

type A<S, const R: usize, const C: usize> = [[S; C]; R];
fn gen<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> A<S, R, C> {
    if s.one_in(4) {
        std::array::from_fn(|_| s.arr(|s| held::<S>(s)))
    } else {
        let k = s.draw(20) as i64;
        let mut all: Vec<i64> = (0..(R * C) as i64).map(|i| k + i).collect();
        for i in (1..all.len()).rev() {
            let j = s.below(i + 1);
            all.swap(i, j);
        }
        s.nontrivial = true;
        std::array::from_fn(|r| std::array::from_fn(|c| S::i(all[r * C + c])))
    }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
fn shapes<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let a: A<S, R, C> = gen(s);
    s.note("rows", &a);
    let x = mat(a);
    let t: Matrix<S, C, R> = x.transpose();
    for r in 0..R {
        for c in 0..C {
            ck_eq!(t[r][c], a[r][c], "row {c}, column {r} of the transpose");
        }
    }
    ck!(t.transpose() == x, "transposing {a:?} twice");
    for r in 0..R {
        ck_eq!(va(&x.row(r)), a[r], "row {r}");
    }
    for c in 0..C {
        ck_eq!(va(&x.column(c)), std::array::from_fn::<S, R, _>(|r| a[r][c]), "column {c}");
    }
    ck!(Matrix::from_rows(&std::array::from_fn::<Vector<S, C>, R, _>(|r| x.row(r))) == x, "matrix of the rows of {a:?}");
    ck!(Matrix::from_columns(&std::array::from_fn::<Vector<S, R>, C, _>(|c| x.column(c))) == x, "matrix of the columns of {a:?}");
    // few elements, or none, other than zero
    let mut z: A<S, R, C> = [[S::i(0); C]; R];
    for _ in 0..s.below(3) {
        z[s.below(R)][s.below(C)] = held::<S>(s);
    }
    for m in [a, z] {
        ck_eq!(mat(m).is_zero(), m.iter().flatten().all(|t| *t == S::i(0)), "is_zero of {m:?}");
    }
    // a sequence of swaps against the same swaps of the rows
    let mut m = a;
    let mut y = x;
    for _ in 0..1 + s.below(4) {
        match s.below(3) {
            0 => {
                let (i, j) = (s.below(R), s.below(R));
                y.swap_rows(i, j);
                m.swap(i, j);
                ck_eq!(ma(&y), m, "after swap_rows({i}, {j})");
            }
            1 => {
                let (i, j) = (s.below(C), s.below(C));
                y.swap_columns(i, j);
                m.iter_mut().for_each(|r| r.swap(i, j));
                ck_eq!(ma(&y), m, "after swap_columns({i}, {j})");
            }
            _ => {
                // positions are (column, row), as in indexing
                let (p, q) = ((s.below(C), s.below(R)), (s.below(C), s.below(R)));
                y.swap(p, q);
                let e = m[p.1][p.0];
                m[p.1][p.0] = m[q.1][q.0];
                m[q.1][q.0] = e;
                ck_eq!(ma(&y), m, "after swap({p:?}, {q:?})");
            }
        }
    }
    if s.one_in(64) {
        ck!(panics(|| { let mut y = x; y.swap_rows(0, R) }), "swapping with row {R} of {R} is not refused");
        ck!(panics(|| { let mut y = x; y.swap_columns(C, 0) }), "swapping with column {C} of {C} is not refused");
        ck!(panics(|| { let mut y = x; y.swap((0, R), (0, 0)) }), "swapping with row {R} of {R} is not refused");
        ck!(panics(|| { let mut y = x; y.swap((0, 0), (C, 0)) }), "swapping with column {C} of {C} is not refused");
    }
    Ok(())
}
fn square<S: Sc, const N: usize>(s: &mut Src) -> Res {
    let a: A<S, N, N> = gen(s);
    let d: [S; N] = gen::<S, 1, N>(s)[0];
    let k = held::<S>(s);
    s.note("rows", &a);
    s.note("d, k", &(d, k));
    let x = mat(a);
    let mut y = x;
    y.transpose_mut();
    ck_eq!(ma(&y), std::array::from_fn::<[S; N], N, _>(|r| std::array::from_fn(|c| a[c][r])), "transpose_mut");
    let diag = |f: &dyn Fn(usize) -> S| -> A<S, N, N> { std::array::from_fn(|r| std::array::from_fn(|c| if r == c { f(r) } else { S::i(0) })) };
    ck_eq!(ma(&Matrix::<S, N, N>::identity()), diag(&|_| S::i(1)), "identity");
    ck_eq!(ma(&Matrix::<S, N, N>::from_diagonal_value(k)), diag(&|_| k), "from_diagonal_value");
    ck_eq!(ma(&Matrix::from_diagonal(&v(d))), diag(&|i| d[i]), "from_diagonal");
    // the diagonal is given as a vector of four elements
    if N <= 4 {
        let g = x.diagonal();
        for i in 0..N {
            ck_eq!(g[i], a[i][i], "element {i} of the diagonal");
        }
    }
    // sums of these are exact in any order
    let b: A<S, N, N> = std::array::from_fn(|_| s.arr(|s| S::wide(s)));
    ck_eq!(mat(b).trace(), (0..N).fold(S::i(0), |t, i| t + b[i][i]), "trace of rows {b:?}");
    ck!(Matrix::<S, N, N>::identity().is_identity(), "the identity is not the identity");
    // one element off
    let (r, c) = (s.below(N), s.below(N));
    let mut m = Matrix::<S, N, N>::identity();
    m[c][r] = k;
    ck_eq!(m.is_identity(), k == S::i((r == c) as i64), "is_identity with {k:?} at row {r}, column {c}");
    let mut z = Matrix::<S, N, N>::zero();
    ck!(z.is_zero(), "zero is not zero");
    z[c][r] = k;
    ck_eq!(z.is_zero(), k == S::i(0), "is_zero with {k:?} at row {r}, column {c}");
    ck_eq!(x.is_identity(), a == diag(&|_| S::i(1)), "is_identity of {a:?}");
    Ok(())
}
fn predicates<S: F, const N: usize>(s: &mut Src) -> Res {
    // symmetric and diagonal matrices, then one element clearly off
    let mut a = [[0.0f64; N]; N];
    let sym = s.coin();
    for r in 0..N {
        for c in 0..=r {
            if r == c || sym {
                let e = S::of(s.real()).f();
                a[r][c] = e;
                a[c][r] = e;
            }
        }
    }
    s.note("rows", &a);
    let x = matf::<S, N, N>(a);
    ck!(x.is_symmetric(), "{a:?} is not found symmetric");
    let off = (0..N).any(|r| (0..r).any(|c| a[r][c].abs() > 64.0 * S::EPS));
    let clear = (0..N).all(|r| (0..r).all(|c| a[r][c] == 0.0));
    if off {
        ck!(!x.is_diagonal(), "{a:?} is found diagonal");
    } else if clear {
        ck!(x.is_diagonal(), "{a:?} is not found diagonal");
    }
    if N > 1 {
        let r = s.below(N);
        let c = (r + 1 + s.below(N - 1)) % N;
        let lo = if s.coin() { 1e-2 } else { 1e-7 };
        let k = s.real_nz(lo, 1e3);
        a[r][c] += k;
        s.note("row, column, by", &(r, c, k));
        if S::of(a[r][c]).f() != S::of(a[c][r]).f() && (a[r][c] - a[c][r]).abs() > 64.0 * S::EPS * (1.0 + a[r][c].abs() + a[c][r].abs()) {
            s.label("asymmetric");
            ck!(!matf::<S, N, N>(a).is_symmetric(), "{a:?} is found symmetric");
        }
        if a[r][c].abs() > 64.0 * S::EPS {
            ck!(!matf::<S, N, N>(a).is_diagonal(), "{a:?} is found diagonal");
        }
    }
    Ok(())
}
macro_rules! embed {
    ($suite:ident, $M:expr, $N:expr; $($T:ty),+) => {$(
        $suite.add_w(concat!("embedding ", $M, " in ", $N, " ", stringify!($T)), 0.3, |s: &mut Src| -> Res {
            let a: A<$T, $M, $M> = gen(s);
            s.note("rows", &a);
            let want: A<$T, $N, $N> = std::array::from_fn(|r| std::array::from_fn(|c| if r < $M && c < $M { a[r][c] } else { <$T as Sc>::i((r == c) as i64) }));
            let x: Matrix<$T, $M, $M> = mat(a);
            ck_eq!(ma(&Matrix::<$T, $N, $N>::from(x)), want, "matrix in a larger one");
            ck_eq!(ma(&Matrix::<$T, $N, $N>::from(&x)), want, "borrowed matrix in a larger one");
            Ok(())
        });
    )+};
}
fn main() {
    let mut suite = Suite::new("P16", "elements are pairwise distinct, or one of them is other than 0, 1 and -1");
    suite.quick = 60_000;
    suite.thorough = 3_000_000;
    subs!(suite, "rearrangements", 2.0, shape16 shapes; u8, i32, f32, f64);
    subs!(suite, "square matrices", 1.0, dim5 square; u8, u16, i8, i32, u64, i128, f32, f64);
    subs!(suite, "predicates", 1.0, dim5 predicates; f32, f64);
    embed!(suite, 1, 2; u8, i32, f32, f64);
    embed!(suite, 1, 3; u8, i32, f32, f64);
    embed!(suite, 1, 4; u8, i32, f32, f64);
    embed!(suite, 2, 3; u8, i32, f32, f64);
    embed!(suite, 2, 4; u8, i32, f32, f64);
    embed!(suite, 3, 4; u8, i32, f32, f64);
    suite.add_w("one by one", 0.1, |s: &mut Src| -> Res {
        let k = f64::small(s);
        ck_eq!(Matrix1x1::new(k).to_scalar(), k, "to_scalar");
        Ok(())
    });
    pbt::main(suite);
}
