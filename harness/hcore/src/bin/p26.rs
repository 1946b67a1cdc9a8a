//! P26: the elementary functions of complex numbers.
use hcore::*;
use pbt::cplx;
use pbt::{ck, Res, Src, Suite};

fn lim<S: F>() -> f64 {
    if S::EPS > 1e-10 { 15.0 } else { 100.0 }
}
fn part(s: &mut Src, lim: f64) -> f64 {
    let v = match s.draw(9) {
        0 => 0.0,
        1 => s.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0, -0.0]),
        2 => s.angle(),
        3 => s.between(-lim, lim),
        4 => s.real_exp(3.0),
        _ => s.between(-3.0, 3.0),
    };
    v.clamp(-lim, lim)
}
fn num<S: F>(s: &mut Src, name: &str, lim: f64) -> ([f64; 2], Complex<S>) {
    let (a, b) = (part(s, lim), part(s, lim));
    let z = rnd::<S, 2>([a, b]);
    s.note(name, &z);
    (z, cf(z))
}
/// of any size whose square is in range
fn num_wide<S: F>(s: &mut Src, name: &str) -> ([f64; 2], Complex<S>) {
    if s.one_in(3) {
        let e = if S::EPS > 1e-10 { 15.0 } else { 140.0 };
        let k = 10f64.powf(s.between(-e, e));
        let (u, v) = match s.draw(3) {
            0 => (1.0, 0.0),
            1 => (0.0, 1.0),
            _ => s.angle().sin_cos(),
        };
        let z = rnd::<S, 2>(if s.coin() { [k * u, k * v] } else { [-k * u, k * v] });
        s.note(name, &z);
        return (z, cf(z));
    }
    num(s, name, 1000.0)
}
fn near<S: F>(f: &str, z: &dyn std::fmt::Debug, got: Complex<S>, want: [f64; 2], tol: f64) -> Res {
    let g = f_c(&got);
    for i in 0..2 {
        let d = (g[i] - want[i]).abs();
        ck!(d <= tol, "{f} of {z:?} is {g:?}, expected {want:?}, off by {d:e} > {tol:e}");
    }
    Ok(())
}
fn polar<S: F>(s: &mut Src) -> Res {
    let (z, x) = num_wide::<S>(s, "z");
    let n = cplx::abs(z);
    let a = z[1].atan2(z[0]);
    let (gn, ga) = x.polar_decomposition();
    for g in [gn, x.norm()] {
        ck!((g.f() - n).abs() <= 4.0 * S::EPS * n, "modulus of {z:?} is {g:?}, expected {n}");
    }
    for g in [ga.0, x.arg()] {
        ck!((g.f() - a).abs() <= 4.0 * S::EPS * a.abs(), "argument of {z:?} is {g:?}, expected {a}");
    }
    near("recomposition", &z, Complex::from_polar_decomposition(gn, ga), z, 16.0 * S::EPS * n)?;
    // now and then many turns
    let t = if s.one_in(8) { s.angle() * 10f64.powi(s.below(4) as i32) } else { s.angle() };
    let r = S::of(s.real()).f();
    let t = S::of(t).f();
    s.note("r, t", &(r, t));
    let w = [r * t.cos(), r * t.sin()];
    let tol = 4.0 * S::EPS;
    near("from_polar_decomposition", &(r, t), Complex::<S>::from_polar_decomposition(S::of(r), rad::<S>(t)), w, tol * r.abs())?;
    near("from_angle", &t, Complex::<S>::from_angle(rad::<S>(t)), [t.cos(), t.sin()], tol)?;
    near("cis", &t, Complex::<S>::cis(S::of(t)), [t.cos(), t.sin()], tol)?;
    let d = S::of(t.to_degrees());
    let td = d.f().to_radians();
    let tol = tol * (1.0 + td.abs());
    near("from_polar_decomposition, degrees,", &(r, d), Complex::<S>::from_polar_decomposition(S::of(r), Degrees(d)), [r * td.cos(), r * td.sin()], tol * r.abs())?;
    near("from_angle, degrees,", &d, Complex::<S>::from_angle(Degrees(d)), [td.cos(), td.sin()], tol)?;
    Ok(())
}
fn exponentials<S: F>(s: &mut Src) -> Res {
    let (z, x) = num::<S>(s, "z", 40.0);
    let e = S::EPS;
    near("exp", &z, x.exp(), cplx::exp(z), 8.0 * e * z[0].exp())?;
    let m = z[0].exp2();
    let a = z[1] * std::f64::consts::LN_2;
    near("exp2", &z, x.exp2(), [m * a.cos(), m * a.sin()], 8.0 * e * m * (1.0 + z[1].abs()))?;
    let (z, x) = num_wide::<S>(s, "w");
    let n = cplx::abs(z);
    if n > 0.0 {
        let w = cplx::ln(z);
        let t = 8.0 * e * (1.0 + w[0].abs() + w[1].abs());
        near("ln", &z, x.ln(), w, t)?;
        for (f, g, b) in [("log2", x.log2(), std::f64::consts::LN_2), ("log10", x.log10(), std::f64::consts::LN_10)] {
            near(f, &z, g, w.map(|c| c / b), t / b)?;
        }
        let mut b = S::of(s.between(0.1, 20.0));
        if b.f().ln().abs() < 0.05 {
            b = S::of(3.0);
        }
        s.note("base", &b);
        let l = b.f().ln();
        near("log to a base", &(z, b), x.log(b), w.map(|c| c / l), t / l.abs() * (1.0 + 1.0 / l.abs()))?;
        near("exp of ln", &z, x.ln().exp(), z, 16.0 * e * n * (1.0 + w[0].abs() + w[1].abs()))?;
    }
    Ok(())
}
fn roots<S: F>(s: &mut Src) -> Res {
    let (z, x) = num_wide::<S>(s, "z");
    let (n, a) = (cplx::abs(z), z[1].atan2(z[0]));
    let e = S::EPS;
    let r = x.sqrt();
    near("square root", &z, r, cplx::sqrt(z), 8.0 * e * n.sqrt())?;
    near("square of the square root", &z, r * r, z, 32.0 * e * n)?;
    let r = x.cbrt();
    near("cube root", &z, r, [n.cbrt() * (a / 3.0).cos(), n.cbrt() * (a / 3.0).sin()], 8.0 * e * n.cbrt())?;
    near("cube of the cube root", &z, r * r * r, z, 48.0 * e * n)?;
    Ok(())
}
fn powers<S: F>(s: &mut Src) -> Res {
    let (z, x) = if s.one_in(3) {
        // about the unit circle
        let (u, v) = s.angle().sin_cos();
        let r = 1.0 + s.between(-0.1, 0.1) * s.unit() * s.unit();
        let z = rnd::<S, 2>([r * u, r * v]);
        s.note("z", &z);
        (z, cf::<S>(z))
    } else {
        num::<S>(s, "z", 8.0)
    };
    let (n, a) = (cplx::abs(z), z[1].atan2(z[0]));
    let e = S::EPS;
    let k = match s.draw(3) {
        0 => s.draw(5),
        1 => 1 << s.draw(4),
        _ => s.draw(24),
    } as i32;
    s.note("k", &k);
    let w = |k: i32| {
        if k == 0 {
            return ([1.0, 0.0], 0.0);
        }
        let m = n.powi(k);
        let t = k as f64 * a;
        ([m * t.cos(), m * t.sin()], 16.0 * (1.0 + k.abs() as f64) * e * m + 1e-34)
    };
    let (v, t) = w(k);
    if n > 0.0 {
        // any exponent, as far as the result stays in range
        let top = (if S::EPS > 1e-10 { 60.0 } else { 600.0 }) / n.ln().abs().max(1e-9);
        let most = if s.coin() { 300 } else { 100_000 };
        let k = (s.draw(most) as f64).min(top) as i32;
        s.note("larger k", &k);
        let (v, t) = w(k);
        if t < 0.1 * cplx::abs(v) {
            near("power", &(z, k), x.powu(k as u32), v, t)?;
            near("signed power", &(z, k), x.powi(k), v, t)?;
            let (v, t) = w(-k);
            near("negative power", &(z, -k), x.powi(-k), v, 4.0 * t)?;
        }
    }
    near("power", &(z, k), x.powu(k as u32), v, t)?;
    near("signed power", &(z, k), x.powi(k), v, t)?;
    if n > 0.1 {
        let (v, t) = w(-k);
        near("negative power", &(z, -k), x.powi(-k), v, 4.0 * t)?;
    }
    if n > 1e-3 {
        let l = cplx::ln(z);
        let p = S::of(s.between(-4.0, 4.0));
        let c = num::<S>(s, "c", 3.0);
        s.note("p", &p);
        let cond = 1.0 + l[0].abs() + l[1].abs();
        let f = p.f();
        let w = cplx::exp([l[0] * f, l[1] * f]);
        near("real power", &(z, p), x.powf(p), w, 16.0 * e * cplx::abs(w) * (1.0 + f.abs() * cond))?;
        let w = cplx::exp(cplx::mul(c.0, l));
        near("complex power", &(z, c.0), x.powc(c.1), w, 16.0 * e * cplx::abs(w) * (1.0 + cplx::abs(c.0) * cond))?;
        if c.0 == [0.0, 0.0] {
            ck!(ca(&x.powc(c.1)) == [S::i(1), S::i(0)], "{z:?} to the power zero is {:?}", x.powc(c.1));
        }
    }
    Ok(())
}
fn trig<S: F>(s: &mut Src) -> Res {
    let (z, x) = num::<S>(s, "z", 20.0);
    // now and then one of the parts goes round many times, where the other one decides the size
    let (z, x) = match s.draw(11) {
        0 => {
            let z = rnd::<S, 2>([s.between(-1000.0, 1000.0), z[1]]);
            s.note("z", &z);
            let e = S::EPS;
            let x: Complex<S> = cf(z);
            near("cosine", &z, x.cos(), cplx::cos(z), 8.0 * e * z[1].cosh())?;
            return near("sine", &z, x.sin(), cplx::sin(z), 8.0 * e * z[1].cosh());
        }
        1 => {
            let z = rnd::<S, 2>([z[0], s.between(-1000.0, 1000.0)]);
            s.note("z", &z);
            let e = S::EPS;
            let x: Complex<S> = cf(z);
            near("exp", &z, x.exp(), cplx::exp(z), 8.0 * e * z[0].exp())?;
            near("hyperbolic cosine", &z, x.cosh(), cplx::cosh(z), 8.0 * e * z[0].cosh())?;
            near("hyperbolic sine", &z, x.sinh(), cplx::sinh(z), 8.0 * e * z[0].cosh())?;
            return Ok(());
        }
        2 => {
            let t = s.between(-1000.0, 1000.0);
            let z = rnd::<S, 2>(if s.coin() { [t, z[1]] } else { [z[0], t] });
            s.note("z", &z);
            (z, cf(z))
        }
        _ => (z, x),
    };
    let many = z[0].abs() > 20.5 || z[1].abs() > 20.5;
    let e = S::EPS;
    let [a, b] = z;
    if !many {
        near("cosine", &z, x.cos(), cplx::cos(z), 8.0 * e * b.cosh())?;
        near("sine", &z, x.sin(), cplx::sin(z), 8.0 * e * b.cosh())?;
        near("hyperbolic cosine", &z, x.cosh(), cplx::cosh(z), 8.0 * e * a.cosh())?;
        near("hyperbolic sine", &z, x.sinh(), cplx::sinh(z), 8.0 * e * a.cosh())?;
    }
    let t = |u: f64, v: f64| {
        let d = (2.0 * u).cosh() + (2.0 * v).cos();
        (d, 1.0 + (2.0 * u).cosh() / d * (1.0 + v.abs()))
    };
    let (d, c) = t(b, a);
    if d > 1e-3 && b.abs() <= 20.5 {
        let w = cplx::tan(z);
        near("tangent", &z, x.tan(), w, 8.0 * e * (1.0 + cplx::abs(w)) * c)?;
    }
    let (d, c) = t(a, b);
    if d > 1e-3 && a.abs() <= 20.5 {
        let w = cplx::tanh(z);
        near("hyperbolic tangent", &z, x.tanh(), w, 8.0 * e * (1.0 + cplx::abs(w)) * c)?;
    }
    Ok(())
}
fn inverses<S: F>(s: &mut Src) -> Res {
    let (z, x) = num::<S>(s, "z", lim::<S>());
    let n = cplx::abs(z);
    let e = S::EPS;
    // formulas through square roots and logarithms lose digits near the branch points and far out
    let one_minus = cplx::abs([1.0 - z[0] * z[0] + z[1] * z[1], -2.0 * z[0] * z[1]]);
    let one_plus = cplx::abs([1.0 + z[0] * z[0] - z[1] * z[1], 2.0 * z[0] * z[1]]);
    let n2 = 1.0 + n * n;
    let tol = |near_branch: f64| 16.0 * e * n2 + 16.0 * (1.0 + n) * (e * n2 / near_branch.sqrt()).min((e * n2).sqrt());
    // on a branch cut, or too close to it to tell the side, any solution will do
    let fuzz = 2.0 * e.sqrt() * n2;
    let cut_x = |on: bool| on && z[1].abs() < fuzz;
    let cut_y = |on: bool| on && z[0].abs() < fuzz;
    type Fun = fn([f64; 2]) -> [f64; 2];
    let side = |f: &str, g: Complex<S>, inv: Fun, fwd: Fun, on_cut: bool, tol: f64| {
        near(f, &z, g, inv(z), tol).or_else(|m| {
            let back = fwd(f_c(&g));
            if on_cut && pbt::kit::diff(&back, &z) <= 2.0 * tol * n2 { Ok(()) } else { Err(m) }
        })
    };
    let (ox, oy) = (z[0].abs() >= 1.0, z[1].abs() >= 1.0);
    side("inverse cosine", x.acos(), cplx::acos, cplx::cos, cut_x(ox), tol(one_minus))?;
    side("inverse sine", x.asin(), cplx::asin, cplx::sin, cut_x(ox), tol(one_minus))?;
    side("inverse hyperbolic sine", x.asinh(), cplx::asinh, cplx::sinh, cut_y(oy), tol(one_plus))?;
    side("inverse hyperbolic cosine", x.acosh(), cplx::acosh, cplx::cosh, cut_x(z[0] <= 1.0), tol(one_minus))?;
    let d = |a: f64, b: f64| cplx::abs([z[0] - a, z[1] - b]);
    let near_pole = d(1.0, 0.0).min(d(-1.0, 0.0));
    if near_pole > 1e-3 {
        side("inverse hyperbolic tangent", x.atanh(), cplx::atanh, cplx::tanh, cut_x(ox), 16.0 * e * (1.0 + n) * (1.0 + 1.0 / near_pole))?;
    }
    let near_pole = d(0.0, 1.0).min(d(0.0, -1.0));
    if near_pole > 1e-3 {
        side("inverse tangent", x.atan(), cplx::atan, cplx::tan, cut_y(oy), 16.0 * e * (1.0 + n) * (1.0 + 1.0 / near_pole))?;
    }
    Ok(())
}
/// numbers whose powers are exact: the four units, to any exponent at all, and 1 + i in its four quadrants
fn exact_powers<S: F>(s: &mut Src) -> Res {
    let turn = |[a, b]: [i128; 2], k: u64| match k % 4 {
        0 => [a, b],
        1 => [-b, a],
        2 => [-a, -b],
        _ => [b, -a],
    };
    let q = s.draw(3);
    let (z, k) = if s.coin() {
        let k: i64 = match s.draw(5) {
            0 => i32::MIN as i64 + s.draw(5) as i64,
            1 => i32::MAX as i64 - s.draw(5) as i64,
            2 => u32::MAX as i64 - s.draw(5) as i64,
            3 => 1 << s.draw(31),
            4 => s.draw(u32::MAX as u64) as i64,
            _ => s.range(i32::MIN as i64, i32::MAX as i64),
        };
        (turn([1, 0], q), k)
    } else {
        (turn([1, 1], q), s.range(-100, 100))
    };
    s.note("z, k", &(z, k));
    s.nontrivial = true;
    // i to the power q, times either 1 or 1 + i
    let mut w = [1i128, 0];
    let mut scale = 1.0;
    if z[0] != 0 && z[1] != 0 {
        for _ in 0..k.unsigned_abs() {
            w = [w[0] * z[0] - w[1] * z[1], w[0] * z[1] + w[1] * z[0]];
        }
        if k < 0 {
            w[1] = -w[1];
            scale = 0.5f64.powi(-k as i32);
        }
    } else {
        w = turn([1, 0], q * (k.rem_euclid(4) as u64));
    }
    let want = w.map(|c| c as f64 * scale);
    let tol = 64.0 * S::EPS * cplx::abs(want);
    let ok = |g: [f64; 2]| (g[0] - want[0]).abs() <= tol && (g[1] - want[1]).abs() <= tol;
    let x = cf::<S>([z[0] as f64, z[1] as f64]);
    if let Ok(k) = u32::try_from(k) {
        let g = f_c(&x.powu(k));
        ck!(ok(g), "{z:?} to the power {k} is {g:?}, expected {want:?}");
    }
    if let Ok(k) = i32::try_from(k) {
        let g = f_c(&x.powi(k));
        ck!(ok(g), "{z:?} to the signed power {k} is {g:?}, expected {want:?}");
    }
    Ok(())
}
fn specials<S: F>(s: &mut Src) -> Res {
    let sp = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, 1.0, -1.0, 2.5, -2.5, 0.5];
    let mut z = [s.pick(&sp), s.pick(&sp)];
    if s.coin() {
        // the finite part, if any, is arbitrary
        let t = if s.coin() { s.angle() } else { s.between(-20.0, 20.0) };
        z = z.map(|c| if c.is_finite() && c != 0.0 { S::of(t).f() } else { c });
    }
    let x0 = cf::<S>([0.0; 2]);
    let n = -1 - s.draw(9) as i32;
    ck!(!x0.powi(n).is_finite(), "zero to the power {n} is {:?}", x0.powi(n));
    for w in [1.0, -1.0] {
        let g = f_c(&cf::<S>([w, 0.0]).atanh());
        ck!(g[0] == w * f64::INFINITY, "atanh of {w} is {g:?}");
    }
    if z.iter().all(|t| t.is_finite()) {
        return Ok(());
    }
    s.nontrivial = true;
    s.note("z", &z);
    let x = cf::<S>(z);
    if z.iter().any(|t| t.is_nan()) {
        for (f, g) in [("exponential", x.exp()), ("logarithm", x.ln()), ("logarithm to base 2", x.log2()), ("logarithm to base 10", x.log10()), ("square root", x.sqrt()), ("cube root", x.cbrt()),
            ("cube", x.powi(3)), ("square", x.powu(2)), ("square, in reals", x.powf(S::of(2.0)))] {
            ck!(!g.is_finite(), "{f} of {z:?} is {g:?}");
        }
        ck!(!x.norm().is_finite() && !x.arg().is_finite(), "polar form of {z:?} is {:?}, {:?}", x.norm(), x.arg());
    }
    for (f, g, w) in [("cosh", x.cosh(), cplx::cosh(z)), ("sinh", x.sinh(), cplx::sinh(z)), ("tanh", x.tanh(), cplx::tanh(z)),
        ("acos", x.acos(), cplx::acos(z)), ("asin", x.asin(), cplx::asin(z)), ("atan", x.atan(), cplx::atan(z)),
        ("cos", x.cos(), cplx::cos(z)), ("sin", x.sin(), cplx::sin(z)), ("tan", x.tan(), cplx::tan(z)),
        ("acosh", x.acosh(), cplx::acosh(z)), ("asinh", x.asinh(), cplx::asinh(z)), ("atanh", x.atanh(), cplx::atanh(z))] {
        let g = f_c(&g);
        // limits, where there are any
        if w.iter().any(|t| t.is_nan()) {
            // what is not a number at either end does not come out as one
            ck!(g.iter().any(|t| !t.is_finite()), "{f} of {z:?} is {g:?}, expected {w:?}");
            continue;
        }
        for i in 0..2 {
            let same = if w[i].is_infinite() {
                // the sign of a zero imaginary part is not followed everywhere
                g[i].is_infinite() && (g[i] == w[i] || z[1] == 0.0)
            } else {
                (g[i] - w[i]).abs() <= 8.0 * S::EPS
            };
            ck!(same, "{f} of {z:?} is {g:?}, expected {w:?}");
        }
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P26", "a part other than a small integer or a simple fraction was drawn");
    suite.quick = 400_000;
    suite.thorough = 4_000_000;
    suite.assumptions = vec!["arguments are bounded so that results stay in range, and kept off the poles"];
    subs!(suite, "polar form", 1.0, polar; f32, f64);
    subs!(suite, "exponential and logarithms", 1.0, exponentials; f32, f64);
    subs!(suite, "roots", 1.0, roots; f32, f64);
    subs!(suite, "powers", 1.0, powers; f32, f64);
    subs!(suite, "exact powers", 0.2, exact_powers; f32, f64);
    subs!(suite, "trigonometric and hyperbolic functions", 1.0, trig; f32, f64);
    subs!(suite, "inverse functions", 2.0, inverses; f32, f64);
    subs!(suite, "special values", 0.02, specials; f32, f64);
    pbt::main(suite);
}
