//! P31: general transformations: matrices acting on points and vectors, composed of the other kinds.
use hxform::*;
use pbt::kit::{add, dot, ident, maxabs, mvec, norm, scale, sub, M};
use pbt::{ck, ck_mat, ck_vec, Res, Src, Suite};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! acting {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident) => {{
        let s = &mut *$s;
        let zero = <$S as Sc>::i(0);
        let projective = s.one_in(3);
        let gen = |s: &mut Src| -> [[$S; $P]; $P] {
            let mut a: [[$S; $P]; $P] = std::array::from_fn(|_| s.arr(|s| <$S as Sc>::wide(s)));
            if !projective {
                a[$N] = [zero; $P];
                a[$N][$N] = <$S as Sc>::i(1);
            }
            a
        };
        let (a, b) = (gen(s), gen(s));
        let x: [$S; $N] = s.arr(|s| <$S as Sc>::wide(s));
        let y: [$S; $N] = s.arr(|s| <$S as Sc>::wide(s));
        s.note("matrix, vector, point", &(a, x, y));
        if projective { s.label("projective"); }
        let (am, bm): (Matrix<$S, $P, $P>, Matrix<$S, $P, $P>) = (mat(a), mat(b));
        let (t, u) = ($T::from_matrix_unchecked(am), $T::from_matrix_unchecked(bm));
        let from: [Matrix<$S, $P, $P>; 2] = [t.into(), (&t).into()];
        for (form, m) in [("matrix", *t.matrix()), ("to_matrix", t.to_matrix()), ("as_ref", *AsRef::<Matrix<$S, $P, $P>>::as_ref(&t)), ("Matrix::from(owned)", from[0]), ("Matrix::from(borrowed)", from[1])] {
            ck!(ma(&m) == a, "{form} of {t:?} is {m:?}, expected rows {a:?}");
        }
        let mut w = u;
        *w.matrix_mut() = am;
        ck!(w == t && ma(w.matrix()) == a, "writing a matrix through matrix_mut gave {w:?}");
        let row = |r: usize, v: &[$S]| { let mut t = zero; for c in 0..v.len() { t = t + a[r][c] * v[c]; } t };
        let wv: [$S; $N] = std::array::from_fn(|r| row(r, &x));
        let mut h = [<$S as Sc>::i(1); $P];
        h[..$N].copy_from_slice(&y);
        let hw = row($N, &h);
        let (xv, yp) = (v(x), p(y));
        forms!(same, wv, format!("{t:?} of {xv:?}"), va; t.apply_vector(&xv), t * xv, t * &xv, &t * xv, &t * &xv);
        if hw != zero {
            let wp: [$S; $N] = std::array::from_fn(|r| row(r, &h) / hw);
            forms!(close, wp, format!("{t:?} of {yp:?}"), pa; t.apply_point(&yp), t * yp, t * &yp, &t * yp, &t * &yp);
        } else {
            s.label("point at infinity");
            ck!(catch_unwind(AssertUnwindSafe(|| t.apply_point(&yp))).is_err(), "{t:?} sends {yp:?} to infinity, but gives a point");
        }
        let ab: [[$S; $P]; $P] = std::array::from_fn(|r| std::array::from_fn(|c| { let mut t = zero; for k in 0..$P { t = t + a[r][k] * b[k][c]; } t }));
        for (form, g) in [("a * b", t * u), ("a * &b", t * &u), ("&a * b", &t * u), ("&a * &b", &t * &u)] {
            ck!(ma(g.matrix()) == ab, "{form}: product of {t:?} and {u:?} is {g:?}");
        }
        let id = $T::<$S>::identity();
        let idm: [[$S; $P]; $P] = std::array::from_fn(|r| std::array::from_fn(|c| <$S as Sc>::i((r == c) as i64)));
        ck!(ma(id.matrix()) == idm, "identity is {id:?}");
        forms!(same, x, "identity", va; id * xv);
        forms!(same, y, "identity", pa; id * yp);
    }};
}
fn action<S: Sc>(s: &mut Src) -> Res {
    acting!(s, S, 2, 3, Transform2);
    acting!(s, S, 3, 4, Transform3);
    Ok(())
}
fn idet(a: &[Vec<i128>]) -> i128 {
    if a.len() == 1 {
        return a[0][0];
    }
    (0..a.len())
        .map(|c| {
            let minor: Vec<Vec<i128>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, x)| *x).collect()).collect();
            (if c % 2 == 0 { 1 } else { -1 }) * a[0][c] * idet(&minor)
        })
        .sum()
}
/// the adjugate, so that the inverse is known
fn adjugate<const P: usize>(a: &[[i64; P]; P]) -> M<P, P> {
    std::array::from_fn(|r| std::array::from_fn(|c| {
        let minor: Vec<Vec<i128>> = (0..P).filter(|i| *i != c).map(|i| (0..P).filter(|j| *j != r).map(|j| a[i][j] as i128).collect()).collect();
        let d = if minor.is_empty() { 1 } else { idet(&minor) };
        (if (r + c) % 2 == 0 { d } else { -d }) as f64
    }))
}
macro_rules! undoing {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let mut a: [[i64; $P]; $P] = std::array::from_fn(|_| s.arr(|s| s.int(9)));
        let projective = s.one_in(3);
        if !projective {
            a[$N] = [0; $P];
            a[$N][$N] = 1;
        }
        match s.draw(5) {
            0 => { let (i, j) = (s.below($N), s.below($N)); a[i] = a[j]; }
            1 => { let i = s.below($N); a[i] = [0; $P]; }
            _ => {}
        }
        let whole = s.coin();
        let gen = |s: &mut Src| -> [f64; $N] { if whole { s.ivec::<$N>(20).map(|c| c as f64) } else { rnd::<$S, $N>(s.rvec()) } };
        let (x, y) = (gen(s), gen(s));
        s.note("matrix, vector, point", &(a, x, y));
        // of any size: a power of two is exact
        let two = if s.coin() { 1.0 } else { 2f64.powi(s.range(-18, 18) as i32) };
        s.note("size", &two);
        let t = $T::<$S>::from_matrix_unchecked(matf(a.map(|r| r.map(|c| c as f64 * two))));
        let d = idet(&a.iter().map(|r| r.iter().map(|c| *c as i128).collect()).collect::<Vec<_>>()) as f64;
        let (xv, yp) = (vf::<$S, $N>(x), pf::<$S, $N>(y));
        if d == 0.0 {
            s.label("singular");
            ck!(t.try_inverse().is_none(), "{t:?} is singular, but has the inverse {:?}", t.try_inverse());
            ck!(t.inverse_apply_vector(&xv).is_none() && t.inverse_apply_point(&yp).is_none(), "{t:?} is singular, but can be undone");
            if s.one_in(50) {
                ck!(catch_unwind(AssertUnwindSafe(|| t.inverse())).is_err(), "{t:?} is singular, but inverse() returned");
            }
        } else {
            let w = adjugate(&a).map(|r| r.map(|c| c / d / two));
            let size = maxabs(&w.iter().flatten().copied().collect::<Vec<f64>>());
            let g = t.try_inverse().ok_or(format!("{t:?} has determinant {d}, but no inverse"))?;
            // cofactors and determinants of small integers are exact
            let k = 16.0 * e;
            ck_mat!(f_m(g.matrix()), w, k * size, "try_inverse of {t:?}");
            ck_mat!(f_m(t.inverse().matrix()), w, k * size, "inverse of {t:?}");
            let wv: [f64; $N] = std::array::from_fn(|r| dot(&w[r][..$N], &x));
            let gv = t.inverse_apply_vector(&xv).ok_or(format!("{t:?} can not be undone"))?;
            ck_vec!(f_v(&gv), wv, 4.0 * k * size * (1.0 + norm(&x)), "inverse_apply_vector of {t:?} and {x:?}");
            let h = |r: usize| dot(&w[r][..$N], &y) + w[r][$N];
            let hw = h($N);
            if hw.abs() * d.abs() * two > 0.5 {
                let gp = t.inverse_apply_point(&yp).ok_or(format!("{t:?} can not be undone"))?;
                let wp: [f64; $N] = std::array::from_fn(|r| h(r) / hw);
                let tol = 4.0 * k * size * (1.0 + norm(&y)) / hw.abs() * (1.0 + maxabs(&wp));
                ck_vec!(f_p(&gp), wp, tol, "inverse_apply_point of {t:?} and {y:?}");
            }
        }
    }};
}
fn inverses<S: F>(s: &mut Src) -> Res {
    undoing!(s, S, 2, 3, Transform2);
    undoing!(s, S, 3, 4, Transform3);
    Ok(())
}
/// A chain of transformations of every kind, composed into one, moves points as the links do one after another.
macro_rules! chain {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident, $R:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        s.note("vector, point", &(x, y));
        let mut all = $T::<$S>::identity();
        let (mut v, mut p) = (x, y);
        let (mut sv, mut sp) = (norm(&x), norm(&y));
        let steps = 1 + s.below(6);
        for i in 0..steps {
            let (n, nu) = unit::<$S, $N>(s);
            let o = rnd::<$S, $N>(s.rvec());
            let no = norm(&o);
            let link = match s.draw(7) {
                0 => { p = add(p, o); sp += no; Translation::from_vector(&vf(o)).to_transform() }
                1 => {
                    let f = rnd::<$S, $N>(s.arr(|s| s.real_nz(1e-2, 1e2)));
                    for c in 0..$N { v[c] *= f[c]; p[c] *= f[c]; }
                    let m = maxabs(&f);
                    sv *= m; sp *= m;
                    Scale::<$S, $N>::from_nonuniform_scale(&vf(f)).to_transform()
                }
                2 => {
                    v = sub(v, scale(n, 2.0 * dot(&v, &n)));
                    p = sub(p, scale(n, 2.0 * dot(&sub(p, o), &n)));
                    sp += 2.0 * no;
                    Reflection::<$S, $N>::from_normal_bias(&nu, &pf(o)).to_transform()
                }
                3 => {
                    let r = $R::<$S>(s);
                    let l = f_m(r.matrix());
                    v = mvec(l, v); p = mvec(l, p);
                    r.to_transform()
                }
                4 => {
                    let r = $R::<$S>(s);
                    let l = f_m(r.matrix());
                    v = mvec(l, v); p = add(mvec(l, p), o);
                    sp += no;
                    Isometry::<$S, $N>::from_parts(&Translation::from_vector(&vf(o)), &r).to_transform()
                }
                5 => {
                    let r = $R::<$S>(s);
                    let l = f_m(r.matrix());
                    let f = <$S as pbt::kit::Fl>::of(s.real_nz(1e-2, 1e2));
                    v = scale(mvec(l, v), f.f()); p = add(scale(mvec(l, p), f.f()), o);
                    sv *= f.f().abs(); sp = sp * f.f().abs() + no;
                    Similarity::<$S, $N>::from_parts(&Translation::from_vector(&vf(o)), &r, f).to_transform()
                }
                7 => {
                    // a shear along any direction
                    let f = <$S as pbt::kit::Fl>::of(s.real_nz(1e-2, 1e2));
                    let q = s.unit_vec::<$N>();
                    let q = sub(q, scale(n, dot(&q, &n)));
                    let l = norm(&q);
                    let d = if l > 1e-2 { scale(q, 1.0 / l) } else { let mut d = [0.0; $N]; (d[0], d[1]) = (-n[1], n[0]); let l = norm(&d); if l > 1e-2 { scale(d, 1.0 / l) } else { let mut d = [0.0; $N]; d[0] = 1.0; let d = sub(d, scale(n, n[0])); scale(d, 1.0 / norm(&d)) } };
                    let d = rnd::<$S, $N>(d);
                    v = add(v, scale(d, f.f() * dot(&v, &n)));
                    p = add(p, scale(d, f.f() * dot(&sub(p, o), &n)));
                    sv *= 1.0 + f.f().abs(); sp = sp + f.f().abs() * (sp + no);
                    Shear::<$S, $N>::from_affine_shear(f, &pf(o), &Unit::from_value_unchecked(vf(d)), &nu).to_transform()
                }
                _ => {
                    // a shear along one axis
                    let f = <$S as pbt::kit::Fl>::of(s.real_nz(1e-2, 1e2));
                    let (d, k) = (s.below($N), s.below($N - 1));
                    let k = (d + 1 + k) % $N;
                    let ax = |i: usize| -> Unit<Vector<$S, $N>> { let mut a = [0.0; $N]; a[i] = 1.0; Unit::from_value_unchecked(vf(a)) };
                    v[d] += f.f() * v[k];
                    p[d] += f.f() * (p[k] - o[k]);
                    sv *= 1.0 + f.f().abs(); sp = sp + f.f().abs() * (sp + no);
                    Shear::<$S, $N>::from_affine_shear(f, &pf(o), &ax(d), &ax(k)).to_transform()
                }
            };
            all = match i % 4 { 0 => link * all, 1 => &link * &all, 2 => link * &all, _ => &link * all };
        }
        // the composed matrix is rounded relative to its largest part
        let n = 16.0 * (1.0 + steps as f64) * e;
        let big = f_m(all.matrix());
        let lim = maxabs(&big.iter().flatten().copied().collect::<Vec<f64>>());
        ck_vec!(f_v(&all.apply_vector(&vf(x))), v, n * (4.0 * sv + lim * norm(&x)), "chain of {steps} on {x:?}");
        ck_vec!(f_p(&all.apply_point(&pf(y))), p, n * (4.0 * sp + lim * (1.0 + norm(&y))), "chain of {steps} on {y:?}");
        ck!(big[$N] == ident::<$P>()[$N], "the last row of an affine chain is {:?}", big[$N]);
    }};
}
fn rot_2<S: F>(s: &mut Src) -> Rotation2<S> {
    Rotation2::from_angle(ang::<S>(s).r.1)
}
fn rot_3<S: F>(s: &mut Src) -> Rotation3<S> {
    let (_, u) = unit::<S, 3>(s);
    Rotation3::from_axis_angle(&u, ang::<S>(s).r.1)
}
fn chains2<S: F>(s: &mut Src) -> Res {
    chain!(s, S, 2, 3, Transform2, rot_2);
    Ok(())
}
fn chains3<S: F>(s: &mut Src) -> Res {
    chain!(s, S, 3, 4, Transform3, rot_3);
    Ok(())
}
/// a motion and then a projection, as one transformation
fn projections<S: F>(s: &mut Src) -> Res {
    let e = S::EPS;
    let [l, r, b, t, n] = rnd::<S, 5>(s.arr(|s| s.between(0.5, 4.0)));
    let f = S::of(n * s.between(2.0, 20.0)).f();
    let q = rot_3::<S>(s);
    let m = f_m(q.matrix());
    let o = rnd::<S, 3>(s.arr(|s| s.between(-20.0, 20.0)));
    let y = rnd::<S, 3>(s.arr(|s| s.between(-20.0, 20.0)));
    s.note("planes, offset, point", &([l, r, b, t, n, f], o, y));
    let motion = Isometry3::from_parts(&Translation3::from_vector(&vf(o)), &q).to_transform();
    let p = add(mvec(m, y), o);
    let size = 1.0 + norm(&y) + norm(&o);
    let [ll, rr, bb, tt, nn, ff] = [l, r, b, t, n, f].map(|x| S::of(x));
    // the box
    let w = [(2.0 * p[0] - (r - l)) / (r + l), (2.0 * p[1] - (t - b)) / (t + b), -(2.0 * p[2] + (f + n)) / (f - n)];
    let box_ = Orthographic3::<S>::new(ll, rr, bb, tt, nn, ff).to_transform();
    let tol = 128.0 * e * (size + f);
    for (form, g) in [("after", (box_ * motion).apply_point(&pf(y))), ("one by one", box_.apply_point(&motion.apply_point(&pf(y))))] {
        ck_vec!(f_p(&g), w, tol / (f - n).min(1.0), "box projection after a motion of {y:?} ({form})");
    }
    // the frustum: divided by the depth
    let h = -p[2];
    if h.abs() > 0.05 * size {
        let w = [(2.0 * n * p[0] + (r - l) * p[2]) / (r + l) / h, (2.0 * n * p[1] + (t - b) * p[2]) / (t + b) / h, (-(f + n) * p[2] - 2.0 * f * n) / (f - n) / h];
        let cone = Perspective3::<S>::new(ll, rr, bb, tt, nn, ff).to_transform();
        let tol = 128.0 * e * (n + 4.0) * (size + f) / h.abs() * (1.0 + maxabs(&w));
        let all = cone * motion;
        for (form, g) in [("after", all.apply_point(&pf(y))), ("one by one", cone.apply_point(&motion.apply_point(&pf(y))))] {
            ck_vec!(f_p(&g), w, tol, "perspective projection after a motion of {y:?} ({form})");
        }
        let undo = all.try_inverse().ok_or(format!("{all:?} has no inverse"))?;
        let i = pbt::kit::mmul(f_m(undo.matrix()), f_m(all.matrix()));
        let k = f * f * size;
        ck_mat!(i, ident::<4>(), 256.0 * e * k * k, "inverse of {all:?} times it");
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P31", "an element or coordinate other than 0 and 1 was drawn");
    suite.extremes = 5.0;
    suite.quick = 80_000;
    suite.thorough = 5_000_000;
    subs!(suite, "action", 0.4, action; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "inverses", 1.0, inverses; f32, f64);
    subs!(suite, "chains in the plane", 1.0, chains2; f32, f64);
    subs!(suite, "chains in space", 1.0, chains3; f32, f64);
    subs!(suite, "projections", 0.5, projections; f32, f64);
    pbt::main(suite);
}
