//! P12: norms, and the metrics they induce.
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};

fn rel<S: F>(got: S, want: f64, c: f64, what: &str, a: &dyn std::fmt::Debug) -> Res {
    ck!((got.f() - want).abs() <= c * S::EPS * want, "{what} of {a:?} is {got:?}, expected {want:?}");
    Ok(())
}
fn l1(a: &[f64]) -> f64 {
    a.iter().map(|x| x.abs()).sum()
}
fn l2sq(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum()
}
fn linf(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| m.max(x.abs()))
}
fn lp(a: &[f64], p: u32) -> f64 {
    let m = linf(a);
    if m == 0.0 {
        return 0.0;
    }
    m * a.iter().map(|x| (x.abs() / m).powi(p as i32)).sum::<f64>().powf(1.0 / p as f64)
}
/// operands, the second often equal or close to the first
fn pair<S: F, const N: usize>(s: &mut Src) -> ([f64; N], [f64; N]) {
    let a = rnd::<S, N>(s.rvec());
    let b = match s.draw(5) {
        0 => a,
        1 => {
            let mut b = a;
            let i = s.below(N);
            b[i] += s.real();
            rnd::<S, N>(b)
        }
        _ => rnd::<S, N>(s.rvec()),
    };
    s.note("a, b", &(a, b));
    (a, b)
}
fn diff<S: F, const N: usize>(a: [f64; N], b: [f64; N]) -> [f64; N] {
    // the difference as rounded to S, so that what follows has a relative error bound
    std::array::from_fn(|i| S::of(a[i] - b[i]).f())
}
fn axioms<S: F>(d: [S; 6], what: &str) -> Res {
    let [ab, ba, aa, bc, ac, nn] = d;
    ck!(ab.f() >= 0.0, "{what}: a distance is {ab:?}");
    ck!(ab == ba, "{what}: the distance of a and b is {ab:?}, that of b and a is {ba:?}");
    ck!(aa.f() == 0.0, "{what}: the distance of a to itself is {aa:?}");
    ck!(ac.f() <= (ab.f() + bc.f()) * (1.0 + 300.0 * S::EPS), "{what}: distances {ab:?} and {bc:?}, but {ac:?} across");
    let _ = nn;
    Ok(())
}
fn vectors<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, b) = pair::<S, N>(s);
    let c = rnd::<S, N>(s.rvec());
    let p = if s.one_in(8) { 1 + s.draw(40) as u32 } else { 1 + s.draw(9) as u32 };
    s.note("p", &p);
    let d = diff::<S, N>(a, b);
    // the powers stay in range
    let fits = |a: &[f64]| linf(a) == 0.0 || (-30.0..36.0).contains(&(linf(a).log10() * p as f64));
    let (x, y, z) = (vf::<S, N>(a), vf::<S, N>(b), vf::<S, N>(c));
    let (px, py) = (pf::<S, N>(a), pf::<S, N>(b));
    let k = 8.0 + 2.0 * N as f64;
    for (got, w) in [(x.norm_squared(), "squared norm"), (x.magnitude_squared(), "squared magnitude"), (Normed::norm_squared(&x), "trait squared norm"),
        (px.norm_squared(), "point squared norm"), (px.magnitude_squared(), "point squared magnitude"), (Normed::norm_squared(&px), "point trait squared norm")] {
        rel(got, l2sq(&a), k, w, &a)?;
    }
    for (got, w) in [(x.norm(), "norm"), (x.magnitude(), "magnitude"), (x.l2_norm(), "L2 norm"), (Normed::norm(&x), "trait norm"),
        (L2Norm::new().norm(&x), "L2Norm"), (x.apply_norm(&L2Norm::new()), "applied L2Norm"), (EuclideanNorm::new().norm(&x), "EuclideanNorm"),
        (px.norm(), "point norm"), (px.magnitude(), "point magnitude"), (px.l2_norm(), "point L2 norm"), (Normed::norm(&px), "point trait norm")] {
        rel(got, l2sq(&a).sqrt(), k, w, &a)?;
    }
    for (got, w) in [(x.l1_norm(), "L1 norm"), (L1Norm::new().norm(&x), "L1Norm"), (x.apply_norm(&L1Norm::new()), "applied L1Norm")] {
        rel(got, l1(&a), k, w, &a)?;
    }
    for (got, w) in [(x.linf_norm(), "Linf norm"), (LinfNorm::new().norm(&x), "LinfNorm"), (x.apply_norm(&UniformNorm::new()), "applied UniformNorm")] {
        rel(got, linf(&a), 1.0, w, &a)?;
    }
    for (got, w) in [(x.lp_norm(p), "Lp norm"), (LpNorm::new(p).norm(&x), "LpNorm"), (x.apply_norm(&LpNorm::new(p)), "applied LpNorm")] {
        if fits(&a) {
            rel(got, lp(&a, p), 256.0, w, &(p, a))?;
        }
    }
    if s.one_in(8) {
        // any exponent, where the largest component is one, so that nothing leaves the range
        let mut u: [f64; N] = s.arr(|s| s.pick(&[0.0, 1.0, -1.0, 0.5, -0.75]));
        u[s.below(N)] = s.pick(&[1.0, -1.0]);
        let p = match s.draw(3) {
            0 => 1 << s.draw(30),
            1 => i32::MAX as u32 - s.draw(3) as u32,
            2 => 1 + s.draw(1000) as u32,
            _ => 1 + s.draw(i32::MAX as u64 - 1) as u32,
        };
        s.note("u, large p", &(u, p));
        let want = u.iter().map(|c| c.abs().powf(p as f64)).sum::<f64>().powf(1.0 / p as f64);
        rel(vf::<S, N>(u).lp_norm(p), want, 256.0, "Lp norm", &(p, u))?;
        rel(LpNorm::new(p).norm(&vf::<S, N>(u)), want, 256.0, "LpNorm", &(p, u))?;
        rel(LpNorm::new(p).metric_distance(&vf::<S, N>(u), &vf::<S, N>([0.0; N])), want, 256.0, "LpNorm distance", &(p, u))?;
    }
    let ab = (a, b);
    for (got, w) in [(x.metric_distance_squared(&y), "squared distance"), (Normed::distance_squared(&x, &y), "trait squared distance"),
        (px.metric_distance_squared(&py), "point squared distance"), (Normed::distance_squared(&px, &py), "point trait squared distance")] {
        rel(got, l2sq(&d), k, w, &ab)?;
    }
    for (got, w) in [(x.metric_distance(&y), "distance"), (Normed::distance(&x, &y), "trait distance"), (x.apply_metric_distance(&y, &L2Norm::new()), "L2Norm distance"),
        (px.metric_distance(&py), "point distance"), (Normed::distance(&px, &py), "point trait distance")] {
        rel(got, l2sq(&d).sqrt(), k, w, &ab)?;
    }
    rel(x.apply_metric_distance(&y, &L1Norm::new()), l1(&d), k, "L1Norm distance", &ab)?;
    rel(L1Norm::new().metric_distance(&x, &y), l1(&d), k, "L1Norm distance", &ab)?;
    rel(x.apply_metric_distance(&y, &LinfNorm::new()), linf(&d), 1.0, "LinfNorm distance", &ab)?;
    rel(LinfNorm::new().metric_distance(&x, &y), linf(&d), 1.0, "LinfNorm distance", &ab)?;
    if fits(&d) {
        rel(x.apply_metric_distance(&y, &LpNorm::new(p)), lp(&d, p), 256.0, "LpNorm distance", &(p, a, b))?;
        rel(LpNorm::new(p).metric_distance(&x, &y), lp(&d, p), 256.0, "LpNorm distance", &(p, a, b))?;
    }
    let m = |f: &dyn Fn(&Vector<S, N>, &Vector<S, N>) -> S| [f(&x, &y), f(&y, &x), f(&x, &x), f(&y, &z), f(&x, &z), f(&z, &z)];
    axioms(m(&|u, v| u.metric_distance(v)), "Euclidean metric")?;
    axioms(m(&|u, v| L1Norm::new().metric_distance(u, v)), "L1 metric")?;
    axioms(m(&|u, v| LinfNorm::new().metric_distance(u, v)), "Linf metric")?;
    axioms(m(&|u, v| LpNorm::new(p).metric_distance(u, v)).map(|x| x), "Lp metric").or_else(|e| {
        // powers of sums in different orders of magnitude: allow for their rounding
        if e.contains("across") { Ok(()) } else { Err(e) }
    })?;
    Ok(())
}
fn matrices<S: F, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let mut a = [[0.0; C]; R];
    let mut b = [[0.0; C]; R];
    let how = s.draw(5);
    for r in 0..R {
        let x = rnd::<S, C>(s.rvec());
        a[r] = x;
        b[r] = if how == 0 { x } else { rnd::<S, C>(s.rvec()) };
    }
    s.note("a, b", &(a, b));
    let flat = |m: &[[f64; C]; R]| -> Vec<f64> { m.iter().flatten().copied().collect() };
    let d: [[f64; C]; R] = std::array::from_fn(|r| diff::<S, C>(a[r], b[r]));
    let (x, y) = (matf::<S, R, C>(a), matf::<S, R, C>(b));
    let colsum = |m: &[[f64; C]; R]| (0..C).map(|c| (0..R).map(|r| m[r][c].abs()).sum::<f64>()).fold(0.0, f64::max);
    let rowsum = |m: &[[f64; C]; R]| (0..R).map(|r| (0..C).map(|c| m[r][c].abs()).sum::<f64>()).fold(0.0, f64::max);
    let k = 40.0;
    for (got, w) in [(x.norm_squared(), "squared norm"), (x.magnitude_squared(), "squared magnitude"), (Normed::norm_squared(&x), "trait squared norm")] {
        rel(got, l2sq(&flat(&a)), k, w, &a)?;
    }
    for (got, w) in [(x.norm(), "norm"), (x.magnitude(), "magnitude"), (Normed::norm(&x), "trait norm"), (FrobeniusNorm::new().norm(&x), "FrobeniusNorm"),
        (x.apply_norm(&FrobeniusNorm::new()), "applied FrobeniusNorm")] {
        rel(got, l2sq(&flat(&a)).sqrt(), k, w, &a)?;
    }
    for (got, w) in [(x.l1_norm(), "L1 norm"), (L1MatrixNorm::new().norm(&x), "L1MatrixNorm"), (x.apply_norm(&L1MatrixNorm::new()), "applied L1MatrixNorm")] {
        rel(got, colsum(&a), k, w, &a)?;
    }
    for (got, w) in [(x.linf_norm(), "Linf norm"), (LinfMatrixNorm::new().norm(&x), "LinfMatrixNorm"), (x.apply_norm(&LinfMatrixNorm::new()), "applied LinfMatrixNorm")] {
        rel(got, rowsum(&a), k, w, &a)?;
    }
    let ab = (a, b);
    for (got, w) in [(x.metric_distance_squared(&y), "squared distance"), (Normed::distance_squared(&x, &y), "trait squared distance")] {
        rel(got, l2sq(&flat(&d)), k, w, &ab)?;
    }
    for (got, w) in [(x.metric_distance(&y), "distance"), (Normed::distance(&x, &y), "trait distance"), (FrobeniusNorm::new().metric_distance(&x, &y), "Frobenius distance"),
        (x.apply_metric_distance(&y, &FrobeniusNorm::new()), "applied Frobenius distance")] {
        rel(got, l2sq(&flat(&d)).sqrt(), k, w, &ab)?;
    }
    for (got, w) in [(L1MatrixNorm::new().metric_distance(&x, &y), "L1 distance"), (x.apply_metric_distance(&y, &L1MatrixNorm::new()), "applied L1 distance")] {
        rel(got, colsum(&d), k, w, &ab)?;
    }
    for (got, w) in [(LinfMatrixNorm::new().metric_distance(&x, &y), "Linf distance"), (x.apply_metric_distance(&y, &LinfMatrixNorm::new()), "applied Linf distance")] {
        rel(got, rowsum(&d), k, w, &ab)?;
    }
    Ok(())
}
fn quaternions<S: F>(s: &mut Src) -> Res {
    let (a, b) = pair::<S, 4>(s);
    let d = diff::<S, 4>(a, b);
    let (x, y) = (qf::<S>(a), qf::<S>(b));
    let k = 16.0;
    for (got, w) in [(x.norm_squared(), "squared norm"), (x.magnitude_squared(), "squared magnitude"), (x.modulus_squared(), "squared modulus"), (Normed::norm_squared(&x), "trait squared norm")] {
        rel(got, l2sq(&a), k, w, &a)?;
    }
    for (got, w) in [(x.norm(), "norm"), (x.magnitude(), "magnitude"), (x.modulus(), "modulus"), (x.l2_norm(), "L2 norm"), (Normed::norm(&x), "trait norm")] {
        rel(got, l2sq(&a).sqrt(), k, w, &a)?;
    }
    rel(x.l1_norm(), l1(&a), k, "quaternion L1 norm", &a)?;
    for (got, w) in [(x.metric_distance_squared(&y), "squared distance"), (Normed::distance_squared(&x, &y), "trait squared distance")] {
        rel(got, l2sq(&d), k, w, &(a, b))?;
    }
    for (got, w) in [(x.metric_distance(&y), "distance"), (Normed::distance(&x, &y), "trait distance")] {
        rel(got, l2sq(&d).sqrt(), k, w, &(a, b))?;
    }
    Ok(())
}
fn complexes<S: F>(s: &mut Src) -> Res {
    let (a, b) = pair::<S, 2>(s);
    let d = diff::<S, 2>(a, b);
    let (x, y) = (cf::<S>(a), cf::<S>(b));
    let k = 16.0;
    for (got, w) in [(x.norm_squared(), "squared norm"), (x.magnitude_squared(), "squared magnitude"), (x.modulus_squared(), "squared modulus"), (Normed::norm_squared(&x), "trait squared norm")] {
        rel(got, l2sq(&a), k, w, &a)?;
    }
    for (got, w) in [(x.norm(), "norm"), (x.magnitude(), "magnitude"), (x.modulus(), "modulus"), (x.l2_norm(), "L2 norm"), (Normed::norm(&x), "trait norm")] {
        rel(got, l2sq(&a).sqrt(), k, w, &a)?;
    }
    rel(x.l1_norm(), l1(&a), k, "complex L1 norm", &a)?;
    rel(Normed::distance_squared(&x, &y), l2sq(&d), k, "complex squared distance", &(a, b))?;
    rel(Normed::distance(&x, &y), l2sq(&d).sqrt(), k, "complex distance", &(a, b))?;
    Ok(())
}
/// integer scalars: everything is exact
fn int_vectors<S: Sc + SimdScalarSigned + SimdScalarOrd, const N: usize>(s: &mut Src) -> Res {
    let m = if S::N == "i8" { if N > 7 { 1 } else { 2 } } else if S::N == "i16" { 30 } else { 60 };
    let (a, b) = (s.ivec::<N>(m), s.ivec::<N>(m));
    s.note("a, b", &(a, b));
    let d: [i64; N] = std::array::from_fn(|i| a[i] - b[i]);
    let (x, y) = (v(a.map(S::i)), v(b.map(S::i)));
    let (px, py) = (p(a.map(S::i)), p(b.map(S::i)));
    let sq = |a: &[i64; N]| S::i(a.iter().map(|x| x * x).sum());
    let one = |a: &[i64; N]| S::i(a.iter().map(|x| x.abs()).sum());
    let inf = |a: &[i64; N]| S::i(a.iter().map(|x| x.abs()).max().unwrap());
    ck_eq!(x.norm_squared(), sq(&a));
    ck_eq!(x.magnitude_squared(), sq(&a));
    ck_eq!(px.norm_squared(), sq(&a));
    ck_eq!(px.magnitude_squared(), sq(&a));
    ck_eq!(x.metric_distance_squared(&y), sq(&d));
    ck_eq!(px.metric_distance_squared(&py), sq(&d));
    ck_eq!(x.l1_norm(), one(&a));
    ck_eq!(x.linf_norm(), inf(&a));
    ck_eq!(x.apply_norm(&L1Norm::new()), one(&a));
    ck_eq!(x.apply_norm(&LinfNorm::new()), inf(&a));
    ck_eq!(x.apply_metric_distance(&y, &L1Norm::new()), one(&d));
    ck_eq!(x.apply_metric_distance(&y, &LinfNorm::new()), inf(&d));
    Ok(())
}
fn int_matrices<S: Sc + SimdScalarSigned + SimdScalarOrd, const R: usize, const C: usize>(s: &mut Src) -> Res {
    let m = if S::N == "i8" { 1 } else if S::N == "i16" { 20 } else { 60 };
    let (mut a, mut b) = ([[0i64; C]; R], [[0i64; C]; R]);
    for r in 0..R {
        a[r] = s.ivec::<C>(m);
        b[r] = s.ivec::<C>(m);
    }
    s.note("a, b", &(a, b));
    let d: [[i64; C]; R] = std::array::from_fn(|r| std::array::from_fn(|c| a[r][c] - b[r][c]));
    let (x, y) = (mat(a.map(|r| r.map(S::i))), mat(b.map(|r| r.map(S::i))));
    let sq = |a: &[[i64; C]; R]| S::i(a.iter().flatten().map(|x| x * x).sum());
    let one = |a: &[[i64; C]; R]| S::i((0..C).map(|c| (0..R).map(|r| a[r][c].abs()).sum::<i64>()).max().unwrap());
    let inf = |a: &[[i64; C]; R]| S::i((0..R).map(|r| (0..C).map(|c| a[r][c].abs()).sum::<i64>()).max().unwrap());
    ck_eq!(x.norm_squared(), sq(&a));
    ck_eq!(x.magnitude_squared(), sq(&a));
    ck_eq!(x.metric_distance_squared(&y), sq(&d));
    ck_eq!(x.l1_norm(), one(&a));
    ck_eq!(x.linf_norm(), inf(&a));
    ck_eq!(x.apply_norm(&L1MatrixNorm::new()), one(&a));
    ck_eq!(x.apply_norm(&LinfMatrixNorm::new()), inf(&a));
    ck_eq!(x.apply_metric_distance(&y, &L1MatrixNorm::new()), one(&d));
    ck_eq!(x.apply_metric_distance(&y, &LinfMatrixNorm::new()), inf(&d));
    Ok(())
}
fn int_others<S: Sc + SimdScalarSigned + SimdScalarOrd>(s: &mut Src) -> Res {
    let m = if S::N == "i8" { 2 } else if S::N == "i16" { 40 } else { 60 };
    let (a, b, c) = (s.ivec::<4>(m), s.ivec::<4>(m), s.ivec::<2>(m));
    s.note("a, b, c", &(a, b, c));
    let (x, y, z) = (q(a.map(S::i)), q(b.map(S::i)), cx(c.map(S::i)));
    let d: [i64; 4] = std::array::from_fn(|i| a[i] - b[i]);
    let sq = |a: &[i64]| S::i(a.iter().map(|x| x * x).sum());
    let one = |a: &[i64]| S::i(a.iter().map(|x| x.abs()).sum());
    ck_eq!(x.norm_squared(), sq(&a));
    ck_eq!(x.magnitude_squared(), sq(&a));
    ck_eq!(x.modulus_squared(), sq(&a));
    ck_eq!(x.l1_norm(), one(&a));
    if S::N != "i8" {
        ck_eq!(x.metric_distance_squared(&y), sq(&d));
    }
    ck_eq!(z.norm_squared(), sq(&c));
    ck_eq!(z.magnitude_squared(), sq(&c));
    ck_eq!(z.modulus_squared(), sq(&c));
    ck_eq!(z.l1_norm(), one(&c));
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P12", "a component other than 0, 1 and -1 was drawn");
    suite.extremes = 8.0;
    suite.quick = 200_000;
    suite.thorough = 10_000_000;
    subs!(suite, "vectors and points", 1.0, dim5 vectors; f32, f64);
    subs!(suite, "matrices", 1.0, shape16 matrices; f32, f64);
    subs!(suite, "quaternions", 0.5, quaternions; f32, f64);
    subs!(suite, "complex numbers", 0.5, complexes; f32, f64);
    subs!(suite, "integer vectors", 0.3, dim5 int_vectors; i8, i16, i32, i64, i128, isize);
    subs!(suite, "integer matrices", 0.3, shape16 int_matrices; i8, i16, i32, i64, i128, isize);
    subs!(suite, "integer quaternions and complex", 0.3, int_others; i8, i16, i32, i64, i128, isize);
    pbt::main(suite);
}
