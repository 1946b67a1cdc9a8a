//! P32: approximate comparisons compare every component, each within its own tolerance.
use approx_cmp::{
    AbsDiffAllEq, AbsDiffEq, AssertAbsDiffAllEq, AssertAbsDiffEq, AssertRelativeAllEq, AssertRelativeEq, AssertUlpsAllEq, AssertUlpsEq,
    RelativeAllEq, RelativeEq, UlpsAllEq, UlpsEq,
};
use hxform::*;
use pbt::kit::Fl;
use pbt::{ck, Res, Src, Suite};
use std::fmt::Debug;

/// The numbers of a debug text, in any order: names, braces and the order of fields are not part of the claim.
/// Each comes with the name of the field it stands in, if any.
fn numbers<T: Debug>(x: &T) -> Numbers {
    let t = format!("{x:?} ");
    // the names of the fields around a place, outermost first
    let mut path: Vec<String> = vec![String::new()];
    let (mut word, mut out) = (String::new(), vec![]);
    for c in t.chars() {
        if c.is_ascii_alphanumeric() || ".+-_".contains(c) {
            word.push(c);
            continue;
        }
        let w = std::mem::take(&mut word);
        let b = w.trim_start_matches('-');
        if b.starts_with(|c: char| c.is_ascii_digit()) || ["inf", "NaN", "None"].contains(&b) {
            out.push((path.join("."), b.to_string()));
        }
        match c {
            ':' => *path.last_mut().unwrap() = w,
            '{' | '[' | '(' => path.push(String::new()),
            '}' | ']' | ')' if path.len() > 1 => {
                path.pop();
            }
            _ => {}
        }
    }
    out
}
type Numbers = Vec<(String, String)>;
fn sorted(x: impl Iterator<Item = String>) -> Vec<String> {
    let mut x: Vec<String> = x.collect();
    x.sort();
    x
}
/// Two lists of parameters: equal, different at one place, or different in many places.
fn pair<S: F, const K: usize>(s: &mut Src, special: bool) -> ([S; K], [S; K]) {
    let of = <S as pbt::kit::Fl>::of;
    let a: [S; K] = s.arr(|s| of(s.real_nz(1e-2, 1e2)));
    let mut b = a;
    let change = |s: &mut Src, x: S| {
        let x = x.f();
        let d = (2f64).powf(s.between(-18.0, -1.0)) * if s.coin() { 1.0 } else { -1.0 };
        match s.draw(5) {
            0 => of(-x),
            1 => of(x + d),
            _ => of(x * (1.0 + d)),
        }
    };
    match s.draw(7) {
        0 => s.label("equal"),
        1 | 2 | 3 => {
            let i = s.below(K);
            b[i] = change(s, a[i]);
            s.label("different in one parameter");
        }
        _ => {
            for i in 0..K {
                if s.coin() {
                    b[i] = change(s, a[i]);
                }
            }
            s.label("different in many");
        }
    }
    let mut a = a;
    if special && s.one_in(8) {
        let i = s.below(K);
        let x = of(s.pick(&[f64::NAN, f64::INFINITY, 0.0]));
        match s.draw(2) {
            0 => a[i] = x,
            1 => b[i] = x,
            _ => (a[i], b[i]) = (x, x),
        }
        s.label("with a special value");
    }
    (a, b)
}
/// A tolerance around a distance: below, at or above it; or far above, when this place is not to decide.
fn around(s: &mut Src, d: f64, decides: bool) -> f64 {
    let d = if d.is_finite() { d } else { 1.0 };
    if !decides {
        return d * (1.5 + s.unit()) + 1e-6 * s.unit();
    }
    match s.draw(5) {
        0 => d,
        1 => d * 0.999,
        2 => d * 1.001,
        3 => d * 0.5,
        4 => 0.0,
        _ => d * 2.0,
    }
}
/// What the comparisons of two values of a type say, with tolerances given as lists.
struct Say<'a, S, U> {
    text: &'a dyn Fn() -> String,
    /// equal, not unequal, and equal the other way round
    abs: &'a dyn Fn(&[S]) -> [bool; 3],
    rel: &'a dyn Fn(&[S], &[S]) -> [bool; 3],
    ulps: &'a dyn Fn(&[S], &[U]) -> [bool; 3],
    abs_all: &'a dyn Fn(S) -> [bool; 3],
    rel_all: &'a dyn Fn(S, S) -> [bool; 3],
    ulps_all: &'a dyn Fn(S, U) -> [bool; 3],
    /// the numbers that a failed assertion reports
    report: &'a dyn Fn(&Tols<S, U>) -> Vec<(&'static str, Numbers)>,
    /// the numbers of a tolerance made of a list
    layout: &'a dyn Fn(&[S]) -> Numbers,
}
struct Tols<S, U> {
    t: Vec<S>,
    ta: Vec<S>,
    tr: Vec<S>,
    tb: Vec<S>,
    tu: Vec<U>,
    one: S,
    one_a: S,
    one_r: S,
    one_u: U,
}
trait Num: F + AbsDiffEq<Tolerance = Self> {
    type U: Copy + Debug;
    fn steps(a: Self, b: Self) -> Option<u64>;
    fn u(x: u64) -> Self::U;
    fn rel(a: Self, b: Self, t: Self, r: Self) -> bool;
    fn ulps(a: Self, b: Self, t: Self, u: Self::U) -> bool;
    /// one component's report
    fn report(i: usize, a: &[Self], b: &[Self], t: &Tols<Self, Self::U>) -> Vec<(&'static str, Numbers)>;
}
macro_rules! report {
    ($x:expr, $y:expr, $all:expr, $t:expr, $ta:expr, $tr:expr, $tb:expr, $tu:expr) => {
        vec![
            ("debug_abs_diff (absolute)", numbers(&AssertAbsDiffEq::debug_abs_diff($x, $y))),
            ("debug_abs_diff_tolerance (absolute)", numbers(&AssertAbsDiffEq::debug_abs_diff_tolerance($x, $y, $t))),
            ("debug_abs_diff_all_tolerance (absolute)", numbers(&AssertAbsDiffAllEq::debug_abs_diff_all_tolerance($x, $y, &$all.one))),
            ("debug_abs_diff (relative)", numbers(&AssertRelativeEq::debug_abs_diff($x, $y))),
            ("debug_abs_diff_tolerance (relative)", numbers(&AssertRelativeEq::debug_abs_diff_tolerance($x, $y, $ta))),
            ("debug_relative_tolerance", numbers(&AssertRelativeEq::debug_relative_tolerance($x, $y, $tr))),
            ("debug_abs_diff_all_tolerance (relative)", numbers(&AssertRelativeAllEq::debug_abs_diff_all_tolerance($x, $y, &$all.one_a))),
            ("debug_relative_all_tolerance", numbers(&AssertRelativeAllEq::debug_relative_all_tolerance($x, $y, &$all.one_r))),
            ("debug_abs_diff (steps)", numbers(&AssertUlpsEq::debug_abs_diff($x, $y))),
            ("debug_ulps_diff", numbers(&AssertUlpsEq::debug_ulps_diff($x, $y))),
            ("debug_abs_diff_tolerance (steps)", numbers(&AssertUlpsEq::debug_abs_diff_tolerance($x, $y, $tb))),
            ("debug_ulps_tolerance", numbers(&AssertUlpsEq::debug_ulps_tolerance($x, $y, $tu))),
            ("debug_abs_diff_all_tolerance (steps)", numbers(&AssertUlpsAllEq::debug_abs_diff_all_tolerance($x, $y, &$all.one_a))),
            ("debug_ulps_all_tolerance", numbers(&AssertUlpsAllEq::debug_ulps_all_tolerance($x, $y, &$all.one_u))),
        ]
    };
}
macro_rules! num {
    ($S:ty, $U:ty) => {
        impl Num for $S {
            type U = $U;
            fn steps(a: $S, b: $S) -> Option<u64> {
                AssertUlpsEq::debug_ulps_diff(&a, &b).map(|x| x as u64)
            }
            fn u(x: u64) -> $U {
                <$U>::try_from(x).unwrap_or(<$U>::MAX)
            }
            fn rel(a: $S, b: $S, t: $S, r: $S) -> bool {
                RelativeEq::relative_eq(&a, &b, &t, &r)
            }
            fn ulps(a: $S, b: $S, t: $S, u: $U) -> bool {
                UlpsEq::ulps_eq(&a, &b, &t, &u)
            }
            fn report(i: usize, a: &[$S], b: &[$S], t: &Tols<$S, $U>) -> Vec<(&'static str, Numbers)> {
                report!(&a[i], &b[i], t, &t.t[i], &t.ta[i], &t.tr[i], &t.tb[i], &t.tu[i])
            }
        }
    };
}
num!(f32, u32);
num!(f64, u64);
fn check<S: Num>(s: &mut Src, a: &[S], b: &[S], say: Say<S, S::U>) -> Res {
    let of = <S as Fl>::of;
    let n = a.len();
    let text = say.text;
    let differ: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).collect();
    let hinge = if differ.is_empty() || s.one_in(6) { s.below(n) } else { s.pick(&differ) };
    // distances of the components
    let d: Vec<f64> = (0..n).map(|i| (a[i] - b[i]).f().abs()).collect();
    let big: Vec<f64> = (0..n).map(|i| a[i].f().abs().max(b[i].f().abs())).map(|x| if x == 0.0 || !x.is_finite() { 1.0 } else { x }).collect();
    let ulps: Vec<Option<u64>> = (0..n).map(|i| S::steps(a[i], b[i])).collect();
    // one component decides, or all of them may
    let free = s.one_in(5);
    let agree = |what: &str, got: [bool; 3], want: bool, t: String| -> Res {
        ck!(got == [want; 3], "{what} of {} within {t} gave {} (not equal: {}, operands exchanged: {}), of the components {want}", text(), got[0], !got[1], got[2]);
        Ok(())
    };
    // by absolute difference
    let t: Vec<S> = (0..n).map(|i| of(around(s, d[i], free || i == hinge))).collect();
    let one = of(around(s, d[hinge], true));
    s.note("left, right", &(a, b));
    s.note("absolute tolerances", &t);
    let want = (0..n).all(|i| AbsDiffEq::abs_diff_eq(&a[i], &b[i], &t[i]));
    s.label(if want { "equal within tolerance" } else { "not equal within tolerance" });
    agree("abs_diff_eq", (say.abs)(&t), want, format!("{t:?}"))?;
    let want = (0..n).all(|i| AbsDiffEq::abs_diff_eq(&a[i], &b[i], &one));
    agree("abs_diff_all_eq", (say.abs_all)(one), want, format!("{one:?}"))?;
    // by absolute or relative difference
    let (mut ta, mut tr): (Vec<S>, Vec<S>) = (vec![], vec![]);
    for i in 0..n {
        let r = d[i] / big[i];
        let (pa, pr) = if free || i == hinge {
            (if s.coin() { 0.0 } else { around(s, d[i], true) }, around(s, r, true))
        } else if s.coin() {
            (around(s, d[i], false), 0.0)
        } else {
            (0.0, around(s, r, false))
        };
        ta.push(of(pa));
        tr.push(of(pr));
    }
    s.note("absolute and relative tolerances", &(&ta, &tr));
    let want = (0..n).all(|i| S::rel(a[i], b[i], ta[i], tr[i]));
    agree("relative_eq", (say.rel)(&ta, &tr), want, format!("{ta:?} or {tr:?}"))?;
    let one_r = of(around(s, d[hinge] / big[hinge], true));
    let one_a = if s.coin() { of(0.0) } else { one };
    let want = (0..n).all(|i| S::rel(a[i], b[i], one_a, one_r));
    agree("relative_all_eq", (say.rel_all)(one_a, one_r), want, format!("{one_a:?} or {one_r:?}"))?;
    // by absolute difference or floating point steps
    let steps = |s: &mut Src, i: usize, decides: bool| -> S::U {
        let k = ulps[i].unwrap_or(3);
        S::u(match (decides, s.draw(4)) {
            (false, x) => k.saturating_add(1 + x),
            (_, 0) => k,
            (_, 1) => k.saturating_sub(1),
            (_, 2) => 0,
            (_, 3) => k / 2,
            _ => k.saturating_add(1),
        })
    };
    let (mut tb, mut tu): (Vec<S>, Vec<S::U>) = (vec![], vec![]);
    for i in 0..n {
        let (pa, pu) = if free || i == hinge {
            (if s.coin() { 0.0 } else { around(s, d[i], true) }, steps(s, i, true))
        } else if ulps[i].is_none() || s.coin() {
            (around(s, d[i], false), S::u(0))
        } else {
            (0.0, steps(s, i, false))
        };
        tb.push(of(pa));
        tu.push(pu);
    }
    s.note("absolute tolerances and steps", &(&tb, &tu));
    let want = (0..n).all(|i| S::ulps(a[i], b[i], tb[i], tu[i]));
    agree("ulps_eq", (say.ulps)(&tb, &tu), want, format!("{tb:?} or {tu:?} steps"))?;
    let one_u = steps(s, hinge, true);
    let want = (0..n).all(|i| S::ulps(a[i], b[i], one_a, one_u));
    agree("ulps_all_eq", (say.ulps_all)(one_a, one_u), want, format!("{one_a:?} or {one_u:?} steps"))?;
    // a failed assertion reports per component what the scalars report
    if s.one_in(4) {
        let tols = Tols { t, ta, tr, tb, tu, one, one_a, one_r, one_u };
        let parts: Vec<_> = (0..n).map(|i| S::report(i, a, b, &tols)).collect();
        // which components stand in which field, found from a tolerance that counts them
        let count: Vec<S> = (0..n).map(|i| of(i as f64)).collect();
        let place = |i: usize, l: &Numbers| l.iter().find(|x| x.1.parse::<f64>() == Ok(i as f64)).map(|x| x.0.clone());
        let layout = (say.layout)(&count);
        let fields: Option<Vec<String>> = (0..n).map(|i| place(i, &layout)).collect();
        for (k, (what, got)) in (say.report)(&tols).into_iter().enumerate() {
            let want = |f: &dyn Fn(usize) -> bool| sorted((0..n).filter(|&i| f(i)).flat_map(|i| parts[i][k].1.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
            let (g, w) = (sorted(got.iter().map(|x| x.1.clone())), want(&|_| true));
            ck!(g == w, "{what} of {} reports {g:?}, the components {w:?}", text());
            // field by field, where the report has the fields of the tolerance
            let Some(fields) = &fields else { continue };
            if got.iter().all(|x| fields.contains(&x.0)) {
                for f in fields {
                    let (g, w) = (sorted(got.iter().filter(|x| x.0 == *f).map(|x| x.1.clone())), want(&|i| fields[i] == *f));
                    ck!(g == w, "{what} of {} reports for {f} {g:?}, its components {w:?}", text());
                }
            }
        }
    }
    Ok(())
}
macro_rules! compare {
    ($s:expr, $S:ty, $U:ty, $x:expr, $y:expr, $a:expr, $b:expr, $tol:expr, $utol:expr) => {{
        let (x, y) = ($x, $y);
        check::<$S>($s, &$a, &$b, Say {
            text: &|| format!("{x:?} and {y:?}"),
            abs: &|t| { let t = &$tol(t); [AbsDiffEq::abs_diff_eq(&x, &y, t), !AbsDiffEq::abs_diff_ne(&x, &y, t), AbsDiffEq::abs_diff_eq(&y, &x, t)] },
            rel: &|t, r| { let (t, r) = (&$tol(t), &$tol(r)); [RelativeEq::relative_eq(&x, &y, t, r), !RelativeEq::relative_ne(&x, &y, t, r), RelativeEq::relative_eq(&y, &x, t, r)] },
            ulps: &|t, u| { let (t, u) = (&$tol(t), &$utol(u)); [UlpsEq::ulps_eq(&x, &y, t, u), !UlpsEq::ulps_ne(&x, &y, t, u), UlpsEq::ulps_eq(&y, &x, t, u)] },
            abs_all: &|t| [AbsDiffAllEq::abs_diff_all_eq(&x, &y, &t), !AbsDiffAllEq::abs_diff_all_ne(&x, &y, &t), AbsDiffAllEq::abs_diff_all_eq(&y, &x, &t)],
            rel_all: &|t, r| [RelativeAllEq::relative_all_eq(&x, &y, &t, &r), !RelativeAllEq::relative_all_ne(&x, &y, &t, &r), RelativeAllEq::relative_all_eq(&y, &x, &t, &r)],
            ulps_all: &|t, u| [UlpsAllEq::ulps_all_eq(&x, &y, &t, &u), !UlpsAllEq::ulps_all_ne(&x, &y, &t, &u), UlpsAllEq::ulps_all_eq(&y, &x, &t, &u)],
            layout: &|t| numbers(&$tol(t)),
            report: &|t| report!(&x, &y, t, &$tol(&t.t), &$tol(&t.ta), &$tol(&t.tr), &$tol(&t.tb), &$utol(&t.tu)),
        })
    }};
}
/// slices into the shapes of the types
fn arr<T: Copy, const N: usize>(t: &[T]) -> [T; N] {
    std::array::from_fn(|i| t[i])
}
fn tv<T: Copy, const N: usize>(t: &[T]) -> Vector<T, N> {
    v(arr(t))
}
fn tp<T: Copy, const N: usize>(t: &[T]) -> Point<T, N> {
    p(arr(t))
}
fn tm<T: Copy, const R: usize, const C: usize>(t: &[T]) -> Matrix<T, R, C> {
    mat(std::array::from_fn(|r| std::array::from_fn(|c| t[r * C + c])))
}
fn tc<T: Copy>(t: &[T]) -> Complex<T> {
    cx(arr(t))
}
fn te<T: Copy>(t: &[T]) -> Euler<T> {
    Euler::new(t[0], t[1], t[2])
}
fn t0<T: Copy>(t: &[T]) -> T {
    t[0]
}
fn me<S: Copy, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
    ma(m).iter().flatten().copied().collect()
}
macro_rules! plain {
    ($s:expr, $S:ty, $U:ty, $K:expr, $mk:expr, $t:expr, $u:expr) => {{
        let (a, b) = pair::<$S, { $K }>($s, true);
        compare!($s, $S, $U, $mk(a), $mk(b), a, b, $t, $u)
    }};
}
macro_rules! vectors {
    ($s:expr, $S:ty, $U:ty; $($N:literal),+) => {
        match ($s.draw(4), $s.draw(5)) {
            $((k, n) if n + 1 == $N && k < 2 => plain!($s, $S, $U, $N, v::<$S, $N>, tv::<$S, $N>, tv::<$U, $N>),
            (2 | 3, n) if n + 1 == $N => plain!($s, $S, $U, $N, p::<$S, $N>, tv::<$S, $N>, tv::<$U, $N>),
            (_, n) if n + 1 == $N => plain!($s, $S, $U, $N, |a: [$S; $N]| Unit::from_value_unchecked(v(a)), tv::<$S, $N>, tv::<$U, $N>),)+
            _ => Ok(()),
        }
    };
}
macro_rules! matrices {
    ($s:expr, $S:ty, $U:ty; $($i:literal: $R:literal $C:literal),+) => {
        match $s.draw(17) {
            $($i => plain!($s, $S, $U, $R * $C, |a: [$S; $R * $C]| tm::<$S, $R, $C>(&a), tm::<$S, $R, $C>, tm::<$U, $R, $C>),)+
            _ => Ok(()),
        }
    };
}
macro_rules! motions {
    ($s:expr, $S:ty, $U:ty, $N:literal, $P:literal, $rot:expr) => {{
        let s = &mut *$s;
        let k = s.draw(8);
        if k < 5 {
            return match k {
                0 => plain!(s, $S, $U, $N, |a: [$S; $N]| Translation::<$S, $N>::from_vector(&v(a)), |t: &[$S]| TranslationTol::from(tv::<$S, $N>(t)), |t: &[$U]| TranslationTol::from(&tv::<$U, $N>(t))),
                1 => plain!(s, $S, $U, $N, |a: [$S; $N]| Scale::<$S, $N>::from_nonuniform_scale(&v(a)), |t: &[$S]| ScaleTol::from(tv::<$S, $N>(t)), |t: &[$U]| ScaleTol::from(&tv::<$U, $N>(t))),
                2 => plain!(s, $S, $U, 2 * $N, |a: [$S; 2 * $N]| Reflection::<$S, $N>::from_normal_bias(&Unit::from_value_unchecked(tv(&a[..$N])), &tp(&a[$N..])),
                    |t: &[$S]| ReflectionTol::from_parts(tv::<$S, $N>(&t[..$N]), tv::<$S, $N>(&t[$N..])), |t: &[$U]| ReflectionTol::from_parts(tv::<$U, $N>(&t[..$N]), tv::<$U, $N>(&t[$N..]))),
                3 => plain!(s, $S, $U, 3 * $N + 1, |a: [$S; 3 * $N + 1]| Shear::<$S, $N>::from_affine_shear(a[0], &tp(&a[1..]), &Unit::from_value_unchecked(tv(&a[1 + $N..])), &Unit::from_value_unchecked(tv(&a[1 + 2 * $N..]))),
                    |t: &[$S]| ShearTol::from_parts(t[0], tv::<$S, $N>(&t[1..]), tv::<$S, $N>(&t[1 + $N..]), tv::<$S, $N>(&t[1 + 2 * $N..])),
                    |t: &[$U]| ShearTol::from_parts(t[0], tv::<$U, $N>(&t[1..]), tv::<$U, $N>(&t[1 + $N..]), tv::<$U, $N>(&t[1 + 2 * $N..]))),
                _ => plain!(s, $S, $U, $P * $P, |a: [$S; $P * $P]| Transform::<$S, $N, $P>::from_matrix_unchecked(tm(&a)), |t: &[$S]| TransformTol::<$S, $N, $P>::from(tm::<$S, $P, $P>(t)), |t: &[$U]| TransformTol::<$U, $N, $P>::from(&tm::<$U, $P, $P>(t))),
            };
        }
        // kinds that hold a rotation: the elements are those it reports
        let (a, b) = pair::<$S, { 5 + $N }>(s, false);
        let (ra, rb) = ($rot(&a[1 + $N..]), $rot(&b[1 + $N..]));
        let (oa, ob) = (Translation::from_vector(&tv::<$S, $N>(&a[1..])), Translation::from_vector(&tv::<$S, $N>(&b[1..])));
        let list = |r: &Rotation<$S, $N>, x: &[$S], parts: usize| -> Vec<$S> {
            let mut l = me(r.matrix());
            if parts > 0 { l.extend_from_slice(&x[1..1 + $N]); }
            if parts > 1 { l.push(x[0]); }
            l
        };
        let m = $N * $N;
        match k {
            5 | 6 => compare!(s, $S, $U, ra, rb, list(&ra, &a, 0), list(&rb, &b, 0), |t: &[$S]| RotationTol::from(tm::<$S, $N, $N>(t)), |t: &[$U]| RotationTol::from(&tm::<$U, $N, $N>(t))),
            7 => compare!(s, $S, $U, Isometry::from_parts(&oa, &ra), Isometry::from_parts(&ob, &rb), list(&ra, &a, 1), list(&rb, &b, 1),
                |t: &[$S]| IsometryTol::from_parts(tv::<$S, $N>(&t[m..]), tm::<$S, $N, $N>(t)), |t: &[$U]| IsometryTol::from_parts(tv::<$U, $N>(&t[m..]), tm::<$U, $N, $N>(t))),
            _ => compare!(s, $S, $U, Similarity::from_parts(&oa, &ra, a[0]), Similarity::from_parts(&ob, &rb, b[0]), list(&ra, &a, 2), list(&rb, &b, 2),
                |t: &[$S]| SimilarityTol::from_parts(tv::<$S, $N>(&t[m..]), tm::<$S, $N, $N>(t), t[m + $N]), |t: &[$U]| SimilarityTol::from_parts(tv::<$U, $N>(&t[m..]), tm::<$U, $N, $N>(t), t[m + $N])),
        }
    }};
}
macro_rules! of_type {
    ($suite:ident, $S:ty, $U:ty) => {
        $suite.add_w(concat!("vectors, points and unit vectors ", stringify!($S)), 1.0, |s: &mut Src| -> Res { vectors!(s, $S, $U; 1, 2, 3, 4, 5, 6) });
        $suite.add_w(concat!("matrices ", stringify!($S)), 1.5, |s: &mut Src| -> Res {
            matrices!(s, $S, $U; 0: 1 1, 1: 1 2, 2: 1 3, 3: 1 4, 4: 2 1, 5: 2 2, 6: 2 3, 7: 2 4, 8: 3 1, 9: 3 2, 10: 3 3, 11: 3 4, 12: 4 1, 13: 4 2, 14: 4 3, 15: 4 4, 16: 5 5, 17: 2 6)
        });
        $suite.add_w(concat!("quaternions, complex numbers and angles ", stringify!($S)), 1.0, |s: &mut Src| -> Res {
            match s.draw(7) {
                0 | 1 => plain!(s, $S, $U, 4, q::<$S>, tv::<$S, 4>, tv::<$U, 4>),
                2 => plain!(s, $S, $U, 4, |a: [$S; 4]| Unit::from_value_unchecked(q(a)), tv::<$S, 4>, tv::<$U, 4>),
                3 => plain!(s, $S, $U, 2, cx::<$S>, tc::<$S>, tc::<$U>),
                4 => plain!(s, $S, $U, 3, |a: [$S; 3]| Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2])), te::<$S>, te::<$U>),
                5 => plain!(s, $S, $U, 3, |a: [$S; 3]| Euler::new(Degrees(a[0]), Degrees(a[1]), Degrees(a[2])), te::<$S>, te::<$U>),
                6 => plain!(s, $S, $U, 1, |a: [$S; 1]| Radians(a[0]), t0::<$S>, t0::<$U>),
                _ => plain!(s, $S, $U, 1, |a: [$S; 1]| Degrees(a[0]), t0::<$S>, t0::<$U>),
            }
        });
        $suite.add_w(concat!("transformations of the plane ", stringify!($S)), 1.5, |s: &mut Src| -> Res {
            motions!(s, $S, $U, 2, 3, |a: &[$S]| Rotation2::from_angle(Radians(a[0])))
        });
        $suite.add_w(concat!("transformations of space ", stringify!($S)), 1.5, |s: &mut Src| -> Res {
            motions!(s, $S, $U, 3, 4, |a: &[$S]| Rotation3::from_axis_angle(&Unit::from_value(tv::<$S, 3>(&a[1..])), Radians(a[0])))
        });
        $suite.add_w(concat!("projections ", stringify!($S)), 1.0, |s: &mut Src| -> Res {
            let perspective = s.coin();
            let (a, b) = pair::<$S, 6>(s, false);
            let planes = |a: [$S; 6]| {
                let a = a.map(|x| x.abs());
                [-a[0], a[1], -a[2], a[3], a[4], a[4] + a[5]]
            };
            let ([a0, a1, a2, a3, a4, a5], [b0, b1, b2, b3, b4, b5]) = (planes(a), planes(b));
            if perspective {
                let (x, y) = (Perspective3::new(a0, a1, a2, a3, a4, a5), Perspective3::new(b0, b1, b2, b3, b4, b5));
                compare!(s, $S, $U, x, y, me(x.matrix()), me(y.matrix()), |t: &[$S]| Perspective3Tol::from(tm::<$S, 4, 4>(t)), |t: &[$U]| Perspective3Tol::from(&tm::<$U, 4, 4>(t)))
            } else {
                let (x, y) = (Orthographic3::new(a0, a1, a2, a3, a4, a5), Orthographic3::new(b0, b1, b2, b3, b4, b5));
                compare!(s, $S, $U, x, y, me(x.matrix()), me(y.matrix()), |t: &[$S]| Orthographic3Tol::from(tm::<$S, 4, 4>(t)), |t: &[$U]| Orthographic3Tol::from(&tm::<$U, 4, 4>(t)))
            }
        });
    };
}
fn main() {
    let mut suite = Suite::new("P32", "the operands differ in some component");
    suite.quick = 30_000;
    suite.thorough = 1_000_000;
    of_type!(suite, f32, u32);
    of_type!(suite, f64, u64);
    pbt::main(suite);
}
