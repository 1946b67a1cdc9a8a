//! P18: matrices of scalings, shears, reflections, translations and cross products act as named.
use hcore::*;
use pbt::kit::{add, cross, dot, norm, scale, sub, E};
use pbt::{ck, ck_eq, ck_vec, Res, Src, Suite};

type R<S, const N: usize> = [[S; N]; N];
fn id<S: Sc, const N: usize>() -> R<S, N> {
    std::array::from_fn(|r| std::array::from_fn(|c| S::i((r == c) as i64)))
}
/// scalings and translations, elementwise, over any scalar type
fn exact<S: Sc, const N: usize>(s: &mut Src) -> Res {
    let k = S::any(s);
    let d: [S; N] = s.arr(|s| S::any(s));
    s.note("k, d", &(k, d));
    let eq = |got: R<S, N>, want: R<S, N>| (0..N).all(|r| (0..N).all(|c| S::same(got[r][c], want[r][c])));
    let mut w = id::<S, N>();
    (0..N).for_each(|i| w[i][i] = k);
    let got = ma(&Matrix::<S, N, N>::from_scale(k));
    ck!(eq(got, w), "from_scale({k:?}) has rows {got:?}");
    (0..N).for_each(|i| w[i][i] = d[i]);
    let got = ma(&Matrix::<S, N, N>::from_nonuniform_scale(&v(d)));
    ck!(eq(got, w), "from_nonuniform_scale({d:?}) has rows {got:?}");
    let mut w = id::<S, N>();
    (0..N - 1).for_each(|i| w[i][i] = k);
    let got = ma(&Matrix::<S, N, N>::from_affine_scale(k));
    ck!(eq(got, w), "from_affine_scale({k:?}) has rows {got:?}");
    Ok(())
}
macro_rules! affine {
    ($name:ident, $N:expr, $NM:expr) => {
        fn $name<S: Sc>(s: &mut Src) -> Res {
            let d: [S; $NM] = s.arr(|s| S::any(s));
            s.note("d", &d);
            let eq = |got: R<S, $N>, want: R<S, $N>| (0..$N).all(|r| (0..$N).all(|c| S::same(got[r][c], want[r][c])));
            let mut w = id::<S, $N>();
            (0..$NM).for_each(|i| w[i][i] = d[i]);
            let got = ma(&Matrix::<S, $N, $N>::from_affine_nonuniform_scale(&v(d)));
            ck!(eq(got, w), "from_affine_nonuniform_scale({d:?}) has rows {got:?}");
            let mut w = id::<S, $N>();
            (0..$NM).for_each(|i| w[i][$NM] = d[i]);
            let got = ma(&Matrix::<S, $N, $N>::from_affine_translation(&v(d)));
            ck!(eq(got, w), "from_affine_translation({d:?}) has rows {got:?}");
            // what they do to points and vectors
            let a: [S; $NM] = s.arr(|s| S::wide(s));
            let t: [S; $NM] = s.arr(|s| S::wide(s));
            s.note("a, t", &(a, t));
            let m = Matrix::<S, $N, $N>::from_affine_translation(&v(t));
            let g = m * p(a).to_homogeneous();
            ck!((0..$NM).all(|i| g[i] == a[i] + t[i]) && g[$NM] == S::i(1), "point {a:?} translated by {t:?} is {g:?}");
            let g = m * v(a).to_homogeneous();
            ck!((0..$NM).all(|i| g[i] == a[i]) && g[$NM] == S::i(0), "vector {a:?} translated by {t:?} is {g:?}");
            let m = Matrix::<S, $N, $N>::from_affine_nonuniform_scale(&v(t));
            let g = m * p(a).to_homogeneous();
            ck!((0..$NM).all(|i| g[i] == a[i] * t[i]) && g[$NM] == S::i(1), "point {a:?} scaled by {t:?} is {g:?}");
            Ok(())
        }
    };
}
affine!(affine2, 2, 1);
affine!(affine3, 3, 2);
affine!(affine4, 4, 3);

/// shears along an axis: the first named coordinate gains the factor times the second
fn axis_shears<S: Sc>(s: &mut Src) -> Res {
    let k = S::any(s);
    s.note("k", &k);
    macro_rules! one {
        ($M:ident, $N:expr, $f:ident, $i:expr, $j:expr) => {
            let got = ma(&$M::<S>::$f(k));
            let mut w = id::<S, $N>();
            w[$i][$j] = k;
            ck!((0..$N).all(|r| (0..$N).all(|c| S::same(got[r][c], w[r][c]))), "{}::{}({k:?}) has rows {got:?}, expected {w:?}", stringify!($M), stringify!($f));
        };
    }
    one!(Matrix2x2, 2, from_shear_xy, 0, 1);
    one!(Matrix2x2, 2, from_shear_yx, 1, 0);
    one!(Matrix3x3, 3, from_shear_xy, 0, 1);
    one!(Matrix3x3, 3, from_shear_xz, 0, 2);
    one!(Matrix3x3, 3, from_shear_yx, 1, 0);
    one!(Matrix3x3, 3, from_shear_yz, 1, 2);
    one!(Matrix3x3, 3, from_shear_zx, 2, 0);
    one!(Matrix3x3, 3, from_shear_zy, 2, 1);
    one!(Matrix3x3, 3, from_affine_shear_xy, 0, 1);
    one!(Matrix3x3, 3, from_affine_shear_yx, 1, 0);
    one!(Matrix4x4, 4, from_affine_shear_xy, 0, 1);
    one!(Matrix4x4, 4, from_affine_shear_xz, 0, 2);
    one!(Matrix4x4, 4, from_affine_shear_yx, 1, 0);
    one!(Matrix4x4, 4, from_affine_shear_yz, 1, 2);
    one!(Matrix4x4, 4, from_affine_shear_zx, 2, 0);
    one!(Matrix4x4, 4, from_affine_shear_zy, 2, 1);
    Ok(())
}
/// unit vectors as the type holds them
fn unit<S: F, const N: usize>(s: &mut Src) -> ([f64; N], Unit<Vector<S, N>>) {
    let u = rnd::<S, N>(s.unit_vec());
    (u, Unit::from_value_unchecked(vf(u)))
}
/// a direction in the plane of a normal
fn plane<S: F, const N: usize>(s: &mut Src) -> (([f64; N], Unit<Vector<S, N>>), ([f64; N], Unit<Vector<S, N>>)) {
    let (n, un) = unit::<S, N>(s);
    let w: [f64; N] = s.unit_vec();
    let d = sub(w, scale(n, dot(&w, &n) / dot(&n, &n)));
    let d = if norm(&d) > 1e-2 {
        scale(d, 1.0 / norm(&d))
    } else {
        // any perpendicular one: from the axis least along the normal
        let i = (0..N).min_by(|a, b| n[*a].abs().partial_cmp(&n[*b].abs()).unwrap()).unwrap();
        let mut e = [0.0; N];
        e[i] = 1.0;
        let d = sub(e, scale(n, n[i] / dot(&n, &n)));
        scale(d, 1.0 / norm(&d))
    };
    let d = rnd::<S, N>(d);
    ((d, Unit::from_value_unchecked(vf(d))), (n, un))
}
macro_rules! general {
    ($shear:ident, $reflect:ident, $N:expr, $NP:expr, $Lin:ident, $Aff:ident) => {
        fn $shear<S: F>(s: &mut Src) -> Res {
            let ((d, ud), (n, un)) = if s.one_in(4) { (unit::<S, $N>(s), unit::<S, $N>(s)) } else { plane::<S, $N>(s) };
            let k = S::of(s.real()).f();
            let o = rnd::<S, $N>(s.rvec());
            let x = rnd::<S, $N>(s.rvec());
            s.note("factor, direction, normal, origin, point", &(k, d, n, o, x));
            // linear part: I + k d n^T
            let lin = f_m(&$Lin::<S>::from_shear(S::of(k), &ud, &un));
            let aff = f_m(&$Aff::<S>::from_affine_shear(S::of(k), &pf(o), &ud, &un));
            let along = E::of(dot(&o, &n));
            for r in 0..$N {
                for c in 0..$N {
                    let w = E::of((r == c) as i64 as f64) + E::of(k) * E::of(d[r]) * E::of(n[c]);
                    ck!(w.near(S::of(lin[r][c]), 8.0), "row {r}, column {c} of the shear by {k} along {d:?} off {n:?} is {}, expected {}", lin[r][c], w.v);
                    ck!(w.near(S::of(aff[r][c]), 8.0), "row {r}, column {c} of the affine shear by {k} along {d:?} off {n:?} is {}, expected {}", aff[r][c], w.v);
                }
                let w = -along.v * k * d[r];
                let tol = 16.0 * S::EPS * (norm(&o) * norm(&n) * k.abs() * d[r].abs()) + 1e-300;
                ck!((aff[r][$N] - w).abs() <= tol, "row {r} of the translation of the affine shear by {k} at {o:?} along {d:?} off {n:?} is {}, expected {w}", aff[r][$N]);
                ck_eq!(aff[$N][r], 0.0, "last row of the affine shear");
            }
            ck_eq!(aff[$N][$N], 1.0, "last element of the affine shear");
            // a point moves along the direction, by the factor times its distance from the plane
            let m = $Aff::<S>::from_affine_shear(S::of(k), &pf(o), &ud, &un);
            let g = f_v(&(m * pf::<S, $N>(x).to_homogeneous()));
            let want = add(x, scale(d, k * dot(&sub(x, o), &n)));
            let got: [f64; $N] = std::array::from_fn(|i| g[i]);
            let tol = 32.0 * S::EPS * (norm(&x) + (k.abs() + 1.0) * (norm(&x) + norm(&o)) + 1e-30);
            ck_vec!(got, want, tol, "point {x:?} sheared by {k} at {o:?} along {d:?} off {n:?}");
            // the plane through the origin of the shear stays where it is
            let g = f_v(&(m * pf::<S, $N>(o).to_homogeneous()));
            let got: [f64; $N] = std::array::from_fn(|i| g[i]);
            ck_vec!(got, o, tol, "origin {o:?} sheared by {k} along {d:?} off {n:?}");
            Ok(())
        }
        fn $reflect<S: F>(s: &mut Src) -> Res {
            let (n, un) = unit::<S, $N>(s);
            let b = rnd::<S, $N>(s.rvec());
            let x = rnd::<S, $N>(s.rvec());
            s.note("normal, bias, point", &(n, b, x));
            let l = $Lin::<S>::from_reflection(&un);
            let lin = f_m(&l);
            let m = $Aff::<S>::from_affine_reflection(&un, &pf(b));
            let aff = f_m(&m);
            for r in 0..$N {
                for c in 0..$N {
                    let w = E::of((r == c) as i64 as f64) - E::of(2.0 * n[r]) * E::of(n[c]);
                    ck!(w.near(S::of(lin[r][c]), 8.0), "row {r}, column {c} of the reflection in {n:?} is {}, expected {}", lin[r][c], w.v);
                    ck!(w.near(S::of(aff[r][c]), 8.0), "row {r}, column {c} of the affine reflection in {n:?} is {}, expected {}", aff[r][c], w.v);
                }
                let w = 2.0 * dot(&b, &n) * n[r];
                let tol = 16.0 * S::EPS * norm(&b) * n[r].abs() + 1e-300;
                ck!((aff[r][$N] - w).abs() <= tol, "row {r} of the translation of the reflection in {n:?} at {b:?} is {}, expected {w}", aff[r][$N]);
                ck_eq!(aff[$N][r], 0.0, "last row of the affine reflection");
            }
            ck_eq!(aff[$N][$N], 1.0, "last element of the affine reflection");
            // twice is once too often; the plane stays where it is; lengths are kept
            let tol = 64.0 * S::EPS * (norm(&x) + norm(&b) + 1e-30);
            let g = f_v(&(m * (m * pf::<S, $N>(x).to_homogeneous())));
            ck_vec!(std::array::from_fn::<f64, $N, _>(|i| g[i]), x, tol, "{x:?} reflected twice in {n:?} at {b:?}");
            let g = f_v(&(m * pf::<S, $N>(b).to_homogeneous()));
            ck_vec!(std::array::from_fn::<f64, $N, _>(|i| g[i]), b, tol, "{b:?} reflected in {n:?} at itself");
            let g = f_v(&(m * pf::<S, $N>(x).to_homogeneous()));
            ck_vec!(std::array::from_fn::<f64, $N, _>(|i| g[i]), sub(x, scale(n, 2.0 * dot(&sub(x, b), &n))), tol, "{x:?} reflected in {n:?} at {b:?}");
            let g = f_v(&(l * vf::<S, $N>(x)));
            ck!((norm(&g) - norm(&x)).abs() <= tol, "{x:?} reflected in {n:?} changes its length");
            Ok(())
        }
    };
}
general!(shear2, reflect2, 2, 3, Matrix2x2, Matrix3x3);
general!(shear3, reflect3, 3, 4, Matrix3x3, Matrix4x4);

fn cross_matrices<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let m = if S::N == "i8" { 5 } else { 60 };
    let (a, b) = (s.ivec::<3>(m), s.ivec::<3>(m));
    s.note("a, b", &(a, b));
    let f = |x: [i64; 3]| -> Vector3<S> { v(x.map(S::i)) };
    let w = cross(a.map(|x| x as f64), b.map(|x| x as f64)).map(|x| S::i(x as i64));
    let c = Matrix3x3::cross_matrix(&f(a));
    let got = va(&(c * f(b)));
    ck!(got == w, "cross matrix of {a:?} applied to {b:?} gives {got:?}, expected {w:?}");
    // antisymmetric
    let r = ma(&c);
    ck!((0..3).all(|i| (0..3).all(|j| r[i][j] == S::i(0) - r[j][i])), "cross matrix of {a:?} is not antisymmetric: rows {r:?}");
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P18", "a factor or component other than 0, 1 and -1 was drawn");
    suite.extremes = 6.0;
    suite.quick = 60_000;
    suite.thorough = 3_000_000;
    subs!(suite, "scalings", 0.5, dim4 exact; u8, u32, u64, i8, i32, i128, f32, f64);
    subs!(suite, "translation and scaling of one dimension", 0.5, affine2; u8, u32, u64, i8, i32, i128, f32, f64);
    subs!(suite, "translation and scaling of two dimensions", 0.5, affine3; u8, u32, u64, i8, i32, i128, f32, f64);
    subs!(suite, "translation and scaling of three dimensions", 0.5, affine4; u8, u32, u64, i8, i32, i128, f32, f64);
    subs!(suite, "shears along axes", 0.3, axis_shears; u8, u32, i8, i64, f32, f64);
    subs!(suite, "shears in two dimensions", 1.0, shear2; f32, f64);
    subs!(suite, "shears in three dimensions", 1.0, shear3; f32, f64);
    subs!(suite, "reflections in two dimensions", 1.0, reflect2; f32, f64);
    subs!(suite, "reflections in three dimensions", 1.0, reflect3; f32, f64);
    subs!(suite, "cross product matrices", 0.5, cross_matrices; i8, i16, i32, i64, f32, f64);
    pbt::main(suite);
}
