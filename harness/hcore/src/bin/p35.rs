//! P35: matrices are stored by columns, whatever way they are made, viewed or taken apart.
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn gen<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> [[S; R]; C] {
    if s.one_in(4) {
        std::array::from_fn(|_| std::array::from_fn(|_| held::<S>(s)))
    } else {
        // a permutation of distinct values
        let k = s.draw(20) as i64;
        let mut all: Vec<i64> = (0..(R * C) as i64).map(|i| k + i).collect();
        for i in (1..all.len()).rev() {
            let j = s.below(i + 1);
            all.swap(i, j);
        }
        s.nontrivial = true;
        std::array::from_fn(|c| std::array::from_fn(|r| S::i(all[c * R + r])))
    }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
fn cols<S: Copy, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> [[S; R]; C] {
    *AsRef::<[[S; R]; C]>::as_ref(m)
}
/// A value that knows whether it was ever made.
#[derive(Debug)]
struct Made(u64);
const MARK: u64 = 0x5eed_5eed_1234_5678;
impl Drop for Made {
    fn drop(&mut self) {
        if self.0 != MARK && !std::thread::panicking() {
            panic!("a value that was never made is dropped");
        }
    }
}

fn views<S: Sc, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let (a, b): ([[S; R]; C], [[S; R]; C]) = (gen(s), gen(s));
    s.note("columns", &a);
    let x: Matrix<S, R, C> = Matrix::from(a);
    ck_eq!(cols(&x), a, "from an array of columns");
    ck_eq!(cols(<&Matrix<S, R, C>>::from(&a)), a, "viewed in an array of columns");
    let vs: [Vector<S, R>; C] = a.map(v);
    ck_eq!(cols(<&Matrix<S, R, C>>::from(&vs)), a, "viewed in an array of vectors");
    ck_eq!(cols(&Matrix::from_columns(&vs)), a, "from columns");
    let rows: [Vector<S, C>; R] = std::array::from_fn(|r| v(std::array::from_fn(|c| a[c][r])));
    ck_eq!(cols(&Matrix::from_rows(&rows)), a, "from rows");
    ck_eq!((x.len(), x.is_empty(), x.shape(), x.is_square()), (R * C, false, (R, C), R == C), "len, is_empty, shape, is_square");
    ck_eq!(size_of::<Matrix<S, R, C>>(), R * C * size_of::<S>(), "size");
    ck_eq!(align_of::<Matrix<S, R, C>>(), align_of::<S>(), "alignment");
    ck_eq!(AsRef::<[Vector<S, R>; C]>::as_ref(&x).map(|c| va(&c)), a, "as an array of vectors");
    ck!(x.as_ptr() as usize == &x as *const _ as usize, "as_ptr is not the address");
    for c in 0..C {
        ck_eq!(va(&x[c]), a[c], "column {c} by index");
        ck_eq!(va(&x.column(c)), a[c], "column {c}");
        for r in 0..R {
            ck_eq!(x[c][r], a[c][r], "column {c}, row {r} by double index");
            ck_eq!(x[(c, r)], a[c][r], "column {c}, row {r} by index pair");
            ck_eq!(unsafe { *x.as_ptr().add(c * R + r) }, a[c][r], "column {c}, row {r} through as_ptr");
        }
    }
    for r in 0..R {
        ck_eq!(va(&x.row(r)), va(&rows[r]), "row {r}");
    }
    // single writes by every route
    let (c, r) = (s.below(C), s.below(R));
    let mut w = a;
    w[c][r] = b[c][r];
    let k = b[c][r];
    let mut y = x;
    y[c][r] = k;
    ck_eq!(cols(&y), w, "writing column {c}, row {r} by double index");
    let mut y = x;
    y[(c, r)] = k;
    ck_eq!(cols(&y), w, "writing column {c}, row {r} by index pair");
    let mut y = x;
    AsMut::<[[S; R]; C]>::as_mut(&mut y)[c][r] = k;
    ck_eq!(cols(&y), w, "writing column {c}, row {r} through the columns");
    let mut y = x;
    AsMut::<[Vector<S, R>; C]>::as_mut(&mut y)[c][r] = k;
    ck_eq!(cols(&y), w, "writing column {c}, row {r} through the vectors");
    let mut y = x;
    unsafe { *y.as_mut_ptr().add(c * R + r) = k };
    ck_eq!(cols(&y), w, "writing column {c}, row {r} through as_mut_ptr");
    // a whole column
    let mut y = x;
    y[c] = v(b[c]);
    let mut w = a;
    w[c] = b[c];
    ck_eq!(cols(&y), w, "writing column {c}");
    if s.one_in(64) {
        s.label("out of range");
        let k = s.below(4);
        ck!(panics(|| x[C + k]), "column {} of {C} is not refused", C + k);
        ck!(panics(|| x[(C + k, 0)]), "column {} of {C} is not refused", C + k);
        ck!(panics(|| x[(0, R + k)]), "row {} of {R} is not refused", R + k);
        ck!(panics(|| x[0][R + k]), "row {} of {R} is not refused", R + k);
        let mut y = x;
        let e = x[0][0];
        ck!(panics(|| y[C + k] = v(a[0])), "writing column {} of {C} is not refused", C + k);
        ck!(panics(|| y[(C + k, 0)] = e), "writing to column {} of {C} is not refused", C + k);
        ck!(panics(|| y[(0, R + k)] = e), "writing to row {} of {R} is not refused", R + k);
        ck!(panics(|| y[0][R + k] = e), "writing to row {} of {R} is not refused", R + k);
        ck!(y == x, "a refused write changed {x:?} to {y:?}");
        ck!(panics(|| x.row(R + k)), "row {} of {R} is not refused", R + k);
        ck!(panics(|| x.column(C + k)), "column {} of {C} is not refused", C + k);
    }
    ck_eq!(cols(&Matrix::<S, R, C>::from_fill(k)), [[k; R]; C], "from_fill");
    ck_eq!(cols(&Matrix::<S, R, C>::default()), [[S::i(0); R]; C], "default");
    ck!(x == Matrix::from(a) && (x == Matrix::from(b)) == (a == b), "equality is not componentwise");
    // map: every element once, in place, for any result type
    let mut seen = 0;
    let m = x.map(|e| {
        seen += 1;
        (e, e)
    });
    ck_eq!(seen, R * C, "elements seen by map");
    for c in 0..C {
        for r in 0..R {
            ck_eq!(m[(c, r)], (a[c][r], a[c][r]), "column {c}, row {r} after map");
        }
    }
    let m = x.map(|_| Made(MARK));
    for c in 0..C {
        for r in 0..R {
            ck!(m[(c, r)].0 == MARK, "column {c}, row {r} after map was never made");
        }
    }
    Ok(())
}
macro_rules! fixed {
    ($suite:ident, $M:ident, $R:expr, $C:expr, $fs:tt; $A:ty, $B:ty, $D:ty) => {
        fixed!(@ $suite, $M, $R, $C, $fs, $A);
        fixed!(@ $suite, $M, $R, $C, $fs, $B);
        fixed!(@ $suite, $M, $R, $C, $fs, $D);
    };
    (@ $suite:ident, $M:ident, $R:expr, $C:expr, [$($f:ident $i:expr),+], $T:ty) => {
        $suite.add_w(concat!(stringify!($M), " ", stringify!($T)), 0.3, |s: &mut Src| -> Res {
            const RC: usize = $R * $C;
            let (a, b): ([[$T; $R]; $C], [[$T; $R]; $C]) = (gen(s), gen(s));
            let flat = |a: &[[$T; $R]; $C]| -> [$T; RC] { std::array::from_fn(|i| a[i / $R][i % $R]) };
            let (fa, fb) = (flat(&a), flat(&b));
            s.note("columns", &a);
            let x = $M::new($(fa[$i]),+);
            ck_eq!(cols(&x), a, "new");
            let y: $M<$T> = $M::from(fa);
            ck_eq!(cols(&y), a, "from a flat array");
            ck_eq!(cols(<&$M<$T>>::from(&fa)), a, "viewed in a flat array");
            ck_eq!(*AsRef::<[$T; RC]>::as_ref(&x), fa, "as a flat array");
            ck_eq!(x.as_slice(), &fa[..], "as a slice");
            let mut y = x;
            *AsMut::<[$T; RC]>::as_mut(&mut y) = fb;
            ck_eq!(cols(&y), b, "written as a flat array");
            ck_eq!([$(x.$f),+], fa, "element fields");
            // each field is the element its name says
            $({
                let n = stringify!($f).as_bytes();
                let (c, r) = ((n[1] - b'0') as usize, (n[3] - b'0') as usize);
                ck_eq!(x.$f, a[c][r], "field {}", stringify!($f));
                let mut y = x;
                y.$f = b[c][r];
                let mut w = a;
                w[c][r] = b[c][r];
                ck_eq!(cols(&y), w, "writing the field {}", stringify!($f));
            })+
            Ok(())
        });
    };
}

fn main() {
    let mut suite = Suite::new("P35", "elements are pairwise distinct, or one of them is other than 0, 1 and -1");
    suite.quick = 60_000;
    suite.thorough = 3_000_000;
    subs!(suite, "views", 2.0, shape16 views; u8, i16, u32, i64, i128, f32, f64);
    fixed!(suite, Matrix1x1, 1, 1, [c0r0 0]; u8, i32, f64);
    fixed!(suite, Matrix2x2, 2, 2, [c0r0 0, c0r1 1, c1r0 2, c1r1 3]; u8, i32, f64);
    fixed!(suite, Matrix3x3, 3, 3, [c0r0 0, c0r1 1, c0r2 2, c1r0 3, c1r1 4, c1r2 5, c2r0 6, c2r1 7, c2r2 8]; u8, i32, f64);
    fixed!(suite, Matrix4x4, 4, 4, [c0r0 0, c0r1 1, c0r2 2, c0r3 3, c1r0 4, c1r1 5, c1r2 6, c1r3 7, c2r0 8, c2r1 9, c2r2 10, c2r3 11, c3r0 12, c3r1 13, c3r2 14, c3r3 15]; u8, i32, f64);
    fixed!(suite, Matrix1x2, 1, 2, [c0r0 0, c1r0 1]; u8, i32, f64);
    fixed!(suite, Matrix1x3, 1, 3, [c0r0 0, c1r0 1, c2r0 2]; u8, i32, f64);
    fixed!(suite, Matrix1x4, 1, 4, [c0r0 0, c1r0 1, c2r0 2, c3r0 3]; u8, i32, f64);
    fixed!(suite, Matrix2x3, 2, 3, [c0r0 0, c0r1 1, c1r0 2, c1r1 3, c2r0 4, c2r1 5]; u8, i32, f64);
    fixed!(suite, Matrix3x2, 3, 2, [c0r0 0, c0r1 1, c0r2 2, c1r0 3, c1r1 4, c1r2 5]; u8, i32, f64);
    fixed!(suite, Matrix2x4, 2, 4, [c0r0 0, c0r1 1, c1r0 2, c1r1 3, c2r0 4, c2r1 5, c3r0 6, c3r1 7]; u8, i32, f64);
    fixed!(suite, Matrix4x2, 4, 2, [c0r0 0, c0r1 1, c0r2 2, c0r3 3, c1r0 4, c1r1 5, c1r2 6, c1r3 7]; u8, i32, f64);
    fixed!(suite, Matrix3x4, 3, 4, [c0r0 0, c0r1 1, c0r2 2, c1r0 3, c1r1 4, c1r2 5, c2r0 6, c2r1 7, c2r2 8, c3r0 9, c3r1 10, c3r2 11]; u8, i32, f64);
    fixed!(suite, Matrix4x3, 4, 3, [c0r0 0, c0r1 1, c0r2 2, c0r3 3, c1r0 4, c1r1 5, c1r2 6, c1r3 7, c2r0 8, c2r1 9, c2r2 10, c2r3 11]; u8, i32, f64);
    pbt::main(suite);
}
