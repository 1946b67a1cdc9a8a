//! P29: translations, scalings, shears and reflections as types.
use hxform::*;
use pbt::kit::{add, cross, dot, ident, maxabs, mmul, norm, normalize, scale, sub, M};
use pbt::{ck, ck_mat, ck_vec, Res, Src, Suite};

/// every way of moving a vector and a point, compared exactly
macro_rules! moves {
    ($t:expr, $v:expr, $p:expr, $wv:expr, $wp:expr) => {{
        let (t, vv, pp) = ($t, v($v), p($p));
        forms!(same, $wv, format!("{t:?} of {vv:?}"), va; t.apply_vector(&vv), t * vv, t * &vv, &t * vv, &t * &vv);
        forms!(same, $wp, format!("{t:?} of {pp:?}"), pa; t.apply_point(&pp), t * pp, t * &pp, &t * pp, &t * &pp);
    }};
}
fn small<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    s.arr(|s| S::wide(s))
}
macro_rules! exact_affine {
    ($t:expr, $N:literal, $P:literal, $l:expr, $o:expr, $S:ty) => {{
        let t = $t;
        let l: [[$S; $N]; $N] = $l;
        let o: [$S; $N] = $o;
        let w: [[$S; $P]; $P] = std::array::from_fn(|r| std::array::from_fn(|c| match (r < $N, c < $N) {
            (true, true) => l[r][c],
            (true, false) => o[r],
            (false, true) => <$S as Sc>::i(0),
            _ => <$S as Sc>::i(1),
        }));
        let from: [Matrix<$S, $P, $P>; 2] = [t.into(), (&t).into()];
        for (form, m) in [("to_affine_matrix", t.to_affine_matrix()), ("Matrix::from(owned)", from[0]), ("Matrix::from(borrowed)", from[1]), ("to_transform", *t.to_transform().matrix())] {
            ck!(ma(&m) == w, "{form} of {t:?} is {m:?}, expected rows {w:?}");
        }
    }};
}
macro_rules! translation {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident) => {{
        let s = &mut *$s;
        let (a, b, x, y): ([$S; $N], [$S; $N], [$S; $N], [$S; $N]) = (small(s), small(s), small(s), small(s));
        s.note("a, b, vector, point", &(a, b, x, y));
        let plus = |a: [$S; $N], b: [$S; $N]| -> [$S; $N] { std::array::from_fn(|i| a[i] + b[i]) };
        let minus = |a: [$S; $N], b: [$S; $N]| -> [$S; $N] { std::array::from_fn(|i| a[i] - b[i]) };
        let zero = [<$S as Sc>::i(0); $N];
        let t = $T::from_vector(&v(a));
        let u = $T::from_vector(&v(b));
        ck!(va(t.vector()) == a && va(&t.to_vector()) == a && va(AsRef::<Vector<$S, $N>>::as_ref(&t)) == a, "{t:?} does not hold {a:?}");
        moves!(t, x, y, x, plus(y, a));
        moves!($T::<$S>::identity(), x, y, x, y);
        let mut m = t;
        m.inverse_mut();
        for i in [t.inverse(), m] {
            ck!(va(i.vector()) == minus(zero, a), "the inverse of {t:?} is {i:?}");
            moves!(i, x, y, x, minus(y, a));
        }
        ck!(va(&t.inverse_apply_vector(&v(x))) == x, "inverse_apply_vector of {t:?} moved a vector");
        ck!(pa(&t.inverse_apply_point(&p(y))) == minus(y, a), "inverse_apply_point of {t:?} moved {y:?} wrongly");
        for g in [t * u, t * &u, &t * u, &t * &u] {
            ck!(va(g.vector()) == plus(a, b), "{t:?} times {u:?} is {g:?}");
        }
        let bv = $T::between_vectors(&v(x), &v(y));
        let bp = $T::between_points(&p(x), &p(y));
        ck!(va(bv.vector()) == minus(y, x) && va(bp.vector()) == minus(y, x), "translations between {x:?} and {y:?} are {bv:?} and {bp:?}");
        ck!(pa(&bp.apply_point(&p(x))) == y, "{bp:?} does not take {x:?} to {y:?}");
        let one: [[$S; $N]; $N] = std::array::from_fn(|r| std::array::from_fn(|c| <$S as Sc>::i((r == c) as i64)));
        exact_affine!(t, $N, $P, one, a, $S);
        t
    }};
}
/// of a line, which has no names of its own
type Translation1<S> = Translation<S, 1>;
type Scale1<S> = Scale<S, 1>;
fn translations<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    translation!(s, S, 1, 2, Translation1);
    let t = translation!(s, S, 2, 3, Translation2);
    ck!(Translation2::new(t.vector()[0], t.vector()[1]) == t, "Translation2::new disagrees with {t:?}");
    let t = translation!(s, S, 3, 4, Translation3);
    ck!(Translation3::new(t.vector()[0], t.vector()[1], t.vector()[2]) == t, "Translation3::new disagrees with {t:?}");
    Ok(())
}
macro_rules! scaling {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident) => {{
        let s = &mut *$s;
        let (a, b, x, y): ([$S; $N], [$S; $N], [$S; $N], [$S; $N]) = (small(s), small(s), small(s), small(s));
        s.note("a, b, vector, point", &(a, b, x, y));
        let times = |a: [$S; $N], b: [$S; $N]| -> [$S; $N] { std::array::from_fn(|i| a[i] * b[i]) };
        let t = $T::from_nonuniform_scale(&v(a));
        let u = $T::from_nonuniform_scale(&v(b));
        ck!(va(&t.to_vector()) == a, "{t:?} does not hold {a:?}");
        moves!(t, x, y, times(x, a), times(y, a));
        moves!($T::<$S>::identity(), x, y, x, y);
        let k = $T::from_scale(b[0]);
        ck!(va(&k.to_vector()) == [b[0]; $N], "from_scale({:?}) is {k:?}", b[0]);
        moves!(k, x, y, times(x, [b[0]; $N]), times(y, [b[0]; $N]));
        for g in [t * u, t * &u, &t * u, &t * &u] {
            ck!(va(&g.to_vector()) == times(a, b), "{t:?} times {u:?} is {g:?}");
        }
        let zero = <$S as Sc>::i(0);
        let diag: [[$S; $N]; $N] = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { a[r] } else { zero }));
        ck!(ma(&t.to_matrix()) == diag, "matrix of {t:?} is {:?}", t.to_matrix());
        exact_affine!(t, $N, $P, diag, [zero; $N], $S);
        t
    }};
}
fn scales<S: Sc>(s: &mut Src) -> Res {
    scaling!(s, S, 1, 2, Scale1);
    let t = scaling!(s, S, 2, 3, Scale2);
    ck!(Scale2::new(t.to_vector()[0], t.to_vector()[1]) == t, "Scale2::new disagrees with {t:?}");
    let t = scaling!(s, S, 3, 4, Scale3);
    ck!(Scale3::new(t.to_vector()[0], t.to_vector()[1], t.to_vector()[2]) == t, "Scale3::new disagrees with {t:?}");
    Ok(())
}
macro_rules! inverse_scaling {
    ($s:expr, $S:ty, $N:literal) => {{
        let s = &mut *$s;
        let wide = if s.one_in(4) { 1e15 } else { 1e6 };
        let a = rnd::<$S, $N>(s.arr(|s| s.real_nz(1.0 / wide, wide)));
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        s.note("factors, vector, point", &(a, x, y));
        let t = Scale::<$S, $N>::from_nonuniform_scale(&vf(a));
        let e = <$S as pbt::kit::Fl>::EPS;
        let i = t.inverse();
        for c in 0..$N {
            let near = |g: $S, w: f64| (g.f() - w).abs() <= 4.0 * e * w.abs();
            ck!(near(i.to_vector()[c], 1.0 / a[c]), "the inverse of {t:?} is {i:?}");
            for (g, w) in [(t.inverse_apply_vector(&vf(x))[c], x[c]), ((i * vf::<$S, $N>(x))[c], x[c]), (t.inverse_apply_point(&pf(y))[c], y[c]), ((i * pf::<$S, $N>(y))[c], y[c])] {
                ck!(near(g, w / a[c]), "undoing {t:?} takes the component {w} to {g:?}");
            }
            ck!(near((t * t.inverse_apply_vector(&vf(x)))[c], x[c]), "{t:?} after its inverse takes {x:?} elsewhere");
        }
    }};
}
fn unscales<S: F>(s: &mut Src) -> Res {
    inverse_scaling!(s, S, 1);
    inverse_scaling!(s, S, 2);
    inverse_scaling!(s, S, 3);
    Ok(())
}
/// shears along the axes, over all signed scalars
fn axis_shears<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let f = S::wide(s);
    macro_rules! one {
        ($N:literal, $T:ident, $($f:ident, $d:literal, $n:literal);+) => {
            let (x, y): ([S; $N], [S; $N]) = (small(s), small(s));
            s.note("factor, vector, point", &(f, x, y));
            $({
                let t = $T::$f(f);
                let by = |a: [S; $N], f: S| -> [S; $N] { let mut b = a; b[$d] = a[$d] + f * a[$n]; b };
                let neg = S::i(0) - f;
                moves!(t, x, y, by(x, f), by(y, f));
                moves!(t.inverse(), x, y, by(x, neg), by(y, neg));
                ck!(va(&t.inverse_apply_vector(&v(x))) == by(x, neg) && pa(&t.inverse_apply_point(&p(y))) == by(y, neg), "undoing {t:?}");
                ck!(t.shear_factor() == f && t.inverse().shear_factor() == neg, "{t:?} does not hold the factor {f:?}");
                let ax = |k: usize| -> [S; $N] { std::array::from_fn(|i| S::i((i == k) as i64)) };
                ck!(va(&t.direction()) == ax($d) && va(&t.normal()) == ax($n) && pa(&t.origin()) == [S::i(0); $N], "{t:?} is not along its axes");
            })+
            let t = $T::<S>::identity();
            moves!(t, x, y, x, y);
            let (d, n) = (va(&t.direction()), va(&t.normal()));
            let dot = |a: [S; $N], b: [S; $N]| (0..$N).fold(S::i(0), |sum, i| sum + a[i] * b[i]);
            ck!(t.shear_factor() == S::i(0) && dot(d, d) == S::i(1) && dot(n, n) == S::i(1) && dot(d, n) == S::i(0),
                "the identity {t:?} is not a shear by zero along a unit direction at right angles to a unit normal");
        };
    }
    one!(2, Shear2, from_shear_xy, 0, 1; from_shear_yx, 1, 0);
    one!(3, Shear3, from_shear_xy, 0, 1; from_shear_xz, 0, 2; from_shear_yx, 1, 0; from_shear_yz, 1, 2; from_shear_zx, 2, 0; from_shear_zy, 2, 1);
    Ok(())
}
fn frame2(s: &mut Src) -> ([f64; 2], [f64; 2]) {
    let d: [f64; 2] = s.unit_vec();
    (d, if s.coin() { [-d[1], d[0]] } else { [d[1], -d[0]] })
}
fn frame3(s: &mut Src) -> ([f64; 3], [f64; 3]) {
    let d: [f64; 3] = s.unit_vec();
    let c = cross(d, s.unit_vec());
    if norm(&c) > 0.1 {
        return (d, normalize(c));
    }
    let axis = if d[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    (d, normalize(cross(d, axis)))
}
macro_rules! shearing {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident, $frame:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let make = |s: &mut Src| {
            let (d, n) = $frame(s);
            let (d, n) = (rnd::<$S, $N>(d), rnd::<$S, $N>(n));
            let f = <$S as pbt::kit::Fl>::of(s.real());
            let o = if s.one_in(3) { [0.0; $N] } else { rnd::<$S, $N>(s.rvec()) };
            let (du, nu) = (Unit::from_value_unchecked(vf::<$S, $N>(d)), Unit::from_value_unchecked(vf::<$S, $N>(n)));
            let t = if o == [0.0; $N] && s.coin() { $T::from_shear(f, &du, &nu) } else { $T::from_affine_shear(f, &pf(o), &du, &nu) };
            (t, f.f(), d, n, o)
        };
        let (t, f, d, n, o) = make(s);
        let (u, g, d2, n2, o2) = make(s);
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        s.note("shear, vector, point", &(t, x, y));
        ck!(t.shear_factor().f() == f && f_p(&t.origin()) == o && f_v(&t.direction()) == d && f_v(&t.normal()) == n, "{t:?} does not hold its parts");
        let point = |f: f64, p: [f64; $N]| add(p, scale(d, f * dot(&sub(p, o), &n)));
        let vector = |f: f64, p: [f64; $N]| add(p, scale(d, f * dot(&p, &n)));
        let tp = 32.0 * e * (norm(&y) + f.abs() * (norm(&y) + norm(&o)));
        let tv = 32.0 * e * (norm(&x) + f.abs() * (norm(&x) + norm(&o)));
        for (what, q, f) in [("shear", t, f), ("inverse shear", t.inverse(), -f)] {
            let (vv, pp) = (vf::<$S, $N>(x), pf::<$S, $N>(y));
            let mut vs = vec![("apply_vector", q.apply_vector(&vv)), ("t * v", q * vv), ("t * &v", q * &vv), ("&t * v", &q * vv), ("&t * &v", &q * &vv)];
            let mut ps = vec![("apply_point", q.apply_point(&pp)), ("t * p", q * pp), ("t * &p", q * &pp), ("&t * p", &q * pp), ("&t * &p", &q * &pp)];
            if what != "shear" {
                vs.push(("inverse_apply_vector", t.inverse_apply_vector(&vv)));
                ps.push(("inverse_apply_point", t.inverse_apply_point(&pp)));
            }
            for (form, g) in ps {
                ck_vec!(f_p(&g), point(f, y), tp, "{what} {form}: {q:?} of {y:?}");
            }
            for (form, g) in vs {
                let g = f_v(&g);
                if maxabs(&sub(g, vector(f, x))) <= tv {
                    continue;
                }
                // a vector is sheared as if it were the position of a point: a recorded finding
                if maxabs(&sub(g, point(f, x))) <= tv {
                    s.finding("shear-of-vectors", format!("{what} {form}: {q:?} takes the vector {x:?} to {g:?}, not {:?}", vector(f, x)));
                    continue;
                }
                return Err(format!("{what} {form}: {q:?} of {x:?} is {g:?}, expected {:?}", vector(f, x)));
            }
        }
        // points go there and back, and points of the plane stay
        let back = t.inverse_apply_point(&t.apply_point(&pf(y)));
        let tb = 64.0 * e * (1.0 + f.abs()) * (1.0 + f.abs()) * (norm(&y) + norm(&o));
        ck_vec!(f_p(&back), y, tb, "{t:?} there and back");
        let fixed = sub(y, scale(n, dot(&sub(y, o), &n)));
        ck_vec!(f_p(&t.apply_point(&pf(fixed))), fixed, tp + tb, "{t:?} moved a point of its plane");
        let lin = |f: f64, d: [f64; $N], n: [f64; $N]| -> M<$N, $N> { std::array::from_fn(|r| std::array::from_fn(|c| (r == c) as i32 as f64 + f * d[r] * n[c])) };
        let off = |f: f64, d: [f64; $N], n: [f64; $N], o: [f64; $N]| scale(d, -f * dot(&o, &n));
        let a: M<$P, $P> = aff(lin(f, d, n), off(f, d, n, o));
        let b: M<$P, $P> = aff(lin(g, d2, n2), off(g, d2, n2, o2));
        affine!(t, a, 32.0 * e * (1.0 + f.abs() * (1.0 + norm(&o))));
        for (form, m) in [("a * b", t * u), ("a * &b", t * &u), ("&a * b", &t * u), ("&a * &b", &t * &u)] {
            let tol = 64.0 * e * (1.0 + f.abs() * (1.0 + norm(&o))) * (1.0 + g.abs() * (1.0 + norm(&o2)));
            ck_mat!(f_m(m.matrix()), mmul(a, b), tol, "{form}: product of {t:?} and {u:?}");
        }
        Ok(())
    }};
}
fn shears2<S: F>(s: &mut Src) -> Res {
    shearing!(s, S, 2, 3, Shear2, frame2)
}
fn shears3<S: F>(s: &mut Src) -> Res {
    shearing!(s, S, 3, 4, Shear3, frame3)
}
macro_rules! reflecting {
    ($s:expr, $S:ty, $N:literal, $P:literal, $T:ident) => {{
        let s = &mut *$s;
        let e = <$S as pbt::kit::Fl>::EPS;
        let (n, nu) = unit::<$S, $N>(s);
        let o = if s.one_in(3) { [0.0; $N] } else { rnd::<$S, $N>(s.rvec()) };
        let (x, y) = (rnd::<$S, $N>(s.rvec()), rnd::<$S, $N>(s.rvec()));
        s.note("normal, point of the plane, vector, point", &(n, o, x, y));
        let t = $T::from_normal_bias(&nu, &pf(o));
        ck!(f_v(&t.normal()) == n && f_p(&t.bias()) == o, "{t:?} does not hold its normal and bias");
        let vector = |x: [f64; $N]| sub(x, scale(n, 2.0 * dot(&x, &n)));
        let point = |y: [f64; $N]| sub(y, scale(n, 2.0 * dot(&sub(y, o), &n)));
        let (tv, tp) = (32.0 * e * norm(&x), 32.0 * e * (norm(&y) + norm(&o)));
        images!(t, vf::<$S, $N>(x), pf::<$S, $N>(y), vector(x), point(y), tv, tp);
        images!(t.inverse(), vf::<$S, $N>(x), pf::<$S, $N>(y), vector(x), point(y), tv, tp);
        ck_vec!(f_v(&t.inverse_apply_vector(&vf(x))), vector(x), tv, "inverse_apply_vector of {t:?}");
        ck_vec!(f_p(&t.inverse_apply_point(&pf(y))), point(y), tp, "inverse_apply_point of {t:?}");
        ck_vec!(f_p(&(t * (t * pf::<$S, $N>(y)))), y, 4.0 * tp, "{t:?} twice");
        let lin: M<$N, $N> = std::array::from_fn(|r| std::array::from_fn(|c| ident::<$N>()[r][c] - 2.0 * n[r] * n[c]));
        affine!(t, aff::<$N, $P>(lin, scale(n, 2.0 * dot(&o, &n))), 32.0 * e * (1.0 + norm(&o)));
        Ok(())
    }};
}
fn reflections2<S: F>(s: &mut Src) -> Res {
    reflecting!(s, S, 2, 3, Reflection2)
}
fn reflections3<S: F>(s: &mut Src) -> Res {
    reflecting!(s, S, 3, 4, Reflection3)
}
fn main() {
    let mut suite = Suite::new("P29", "a coordinate or factor other than 0 and 1 was drawn");
    suite.extremes = 6.0;
    suite.quick = 100_000;
    suite.thorough = 6_000_000;
    suite.assumptions = vec!["factors of scalings that are undone are not zero; directions of shears are at right angles to the normals"];
    subs!(suite, "translations", 0.5, translations; i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "scalings", 0.3, scales; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "undoing scalings", 1.0, unscales; f32, f64);
    subs!(suite, "shears along axes", 0.4, axis_shears; i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "shears of the plane", 1.5, shears2; f32, f64);
    subs!(suite, "shears of space", 1.5, shears3; f32, f64);
    subs!(suite, "reflections of the plane", 1.5, reflections2; f32, f64);
    subs!(suite, "reflections of space", 1.5, reflections3; f32, f64);
    pbt::main(suite);
}
