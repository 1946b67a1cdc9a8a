//! P24: the elementary functions of quaternions are those of complex numbers along the axis of the argument.
use hcore::*;
use pbt::cplx;
use pbt::kit::{norm, scale};
use pbt::{ck, ck_vec, Res, Src, Suite};

struct Q<S> {
    /// components (s, x, y, z)
    a: [f64; 4],
    q: Quaternion<S>,
    /// as a complex number: scalar part, and norm of the vector part
    z: [f64; 2],
    /// direction of the vector part, zero if there is none
    u: [f64; 3],
}
fn of<S: F>(s: &mut Src, a: [f64; 4]) -> Q<S> {
    let a = rnd::<S, 4>(a);
    s.note("q", &a);
    let v = [a[1], a[2], a[3]];
    let n = norm(&v);
    let u = if n == 0.0 { [0.0; 3] } else { scale(v, 1.0 / n) };
    Q { a, q: qf(a), z: [a[0], n], u }
}
fn gen<S: F>(s: &mut Src, lim: f64) -> Q<S> {
    let part = |s: &mut Src| {
        let v = match s.draw(7) {
            0 => 0.0,
            1 => s.pick(&[1.0, -1.0, 0.5, -0.5, 2.0]),
            2 => s.angle(),
            3 => s.between(-lim, lim),
            4 => s.real(),
            _ => s.between(-3.0, 3.0),
        };
        v.clamp(-lim, lim)
    };
    let sc = part(s);
    let n = match s.draw(9) {
        // real, nearly real
        0 => 0.0,
        1 => 10f64.powf(s.between(-12.0, -2.0)),
        _ => part(s),
    };
    let sc = if s.one_in(12) { 0.0 } else { sc };
    let u = s.unit_vec::<3>();
    of(s, [sc, n * u[0], n * u[1], n * u[2]])
}
/// of any size
fn gen_wide<S: F>(s: &mut Src) -> Q<S> {
    if s.one_in(3) {
        // parts up to the machine epsilon count as zero
        let k = 10f64.powf(s.between(if S::EPS > 1e-10 { -4.0 } else { -12.0 }, 10.0));
        let a = match s.draw(3) {
            0 => s.ivec::<4>(9).map(|x| x as f64),
            _ => s.unit_vec::<4>(),
        };
        return of(s, scale(a, k));
    }
    gen(s, 1000.0)
}
impl<S: F> Q<S> {
    fn lift(&self, w: [f64; 2]) -> [f64; 4] {
        [w[0], w[1] * self.u[0], w[1] * self.u[1], w[1] * self.u[2]]
    }
}
fn near<S: F>(f: &str, x: &Q<S>, got: Quaternion<S>, w: [f64; 2], tol: f64) -> Res {
    ck_vec!(f_q(&got), x.lift(w), tol, "{f} of {:?}", x.a);
    Ok(())
}
/// one of the parts goes round many times: only where the other one decides the size
fn direct_many_turns<S: F>(s: &mut Src) -> Res {
    let e = S::EPS;
    let (sc, n) = if s.one_in(2) { (s.between(-1000.0, 1000.0), s.between(0.0, 60.0)) } else { (s.between(-60.0, 60.0), s.between(0.0, 1000.0)) };
    let u = s.unit_vec::<3>();
    let x = of::<S>(s, [sc, n * u[0], n * u[1], n * u[2]]);
    let [a, b] = x.z;
    let r = 1.0 + b;
    if b <= 60.5 {
        near("cosine", &x, x.q.cos(), cplx::cos(x.z), 8.0 * e * b.cosh() * r)?;
        near("sine", &x, x.q.sin(), cplx::sin(x.z), 8.0 * e * b.cosh() * r)?;
    }
    if a.abs() <= 60.5 {
        near("exp", &x, x.q.exp(), cplx::exp(x.z), 8.0 * e * a.exp() * (r + a.abs()))?;
        near("hyperbolic cosine", &x, x.q.cosh(), cplx::cosh(x.z), 8.0 * e * a.cosh() * (r + a.abs()))?;
        near("hyperbolic sine", &x, x.q.sinh(), cplx::sinh(x.z), 8.0 * e * a.cosh() * (r + a.abs()))?;
    }
    Ok(())
}
fn direct<S: F>(s: &mut Src) -> Res {
    if s.one_in(5) {
        return direct_many_turns::<S>(s);
    }
    let x = gen::<S>(s, 20.0);
    let e = S::EPS;
    let [a, b] = x.z;
    // the norm of the vector part is rounded before it is an argument
    let r = 1.0 + b;
    near("exp", &x, x.q.exp(), cplx::exp(x.z), 8.0 * e * a.exp() * r)?;
    near("cosine", &x, x.q.cos(), cplx::cos(x.z), 8.0 * e * b.cosh() * r)?;
    near("sine", &x, x.q.sin(), cplx::sin(x.z), 8.0 * e * b.cosh() * r)?;
    near("hyperbolic cosine", &x, x.q.cosh(), cplx::cosh(x.z), 8.0 * e * a.cosh() * r)?;
    near("hyperbolic sine", &x, x.q.sinh(), cplx::sinh(x.z), 8.0 * e * a.cosh() * r)?;
    let d = a.cos().powi(2) + b.sinh().powi(2);
    if d > 1e-3 {
        near("tangent", &x, x.q.tan(), cplx::tan(x.z), 16.0 * e * r * (1.0 + 1.0 / d) * (1.0 + 1.0 / d.sqrt()))?;
    }
    let d = a.sinh().powi(2) + b.cos().powi(2);
    if d > 1e-3 {
        near("hyperbolic tangent", &x, x.q.tanh(), cplx::tanh(x.z), 16.0 * e * r * (1.0 + 1.0 / d) * (1.0 + 1.0 / d.sqrt()))?;
    }
    Ok(())
}
fn logarithms<S: F>(s: &mut Src) -> Res {
    let x = gen_wide::<S>(s);
    let e = S::EPS;
    let n = norm(&x.a);
    let [a, b] = x.z;
    if n < 1e3 * e {
        return Ok(());
    }
    // the angle, where it is not decided to be a right one
    let want = b.atan2(a);
    let g = x.q.arg().f();
    ck!((g - want).abs() <= 8.0 * e * (1.0 + 1.0 / n), "argument of {:?} is {g}, expected {want}", x.a);
    // parts and recomposition
    let (gn, ga, gu) = x.q.polar_decomposition();
    ck!((gn.f() - n).abs() <= 8.0 * e * n, "norm in the polar form of {:?} is {gn:?}", x.a);
    let half = b.atan2(a.abs());
    ck!((ga.0.f() - half).abs() <= 8.0 * e, "half angle in the polar form of {:?} is {:?}, expected {half}", x.a, ga.0);
    ck!(gu.is_some() == (b > 0.0) || b < 1e-15, "axis in the polar form of {:?} is {gu:?}", x.a);
    if let Some(u) = gu {
        if b > 1e-15 {
            ck_vec!(f_v(u.as_ref()), x.u, 8.0 * e, "axis in the polar form of {:?}", x.a);
            let w = Quaternion::from_polar_decomposition(gn, ga + ga, &u);
            ck_vec!(f_q(&w), [a.abs(), x.a[1], x.a[2], x.a[3]], 64.0 * e * n, "recomposition of {:?} up to the sign of the scalar part", x.a);
        }
    }
    if a < 0.0 && b < 1e-6 {
        // the negative real axis has a logarithm along every direction
        return Ok(());
    }
    let w = cplx::ln(x.z);
    // an inverse cosine of a rounded quotient loses half of the digits where it is flat
    let tol = 8.0 * e * (1.0 + w[0].abs() + 1.0 / n) + 8.0 * (e * n / b.max(1e-300)).min(e.sqrt());
    near("ln", &x, x.q.ln(), w, tol)?;
    let p = S::of(if s.one_in(3) { s.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 1.5]) } else { s.between(-3.0, 3.0) });
    s.note("p", &p);
    let l = cplx::exp(w.map(|t| t * p.f()));
    let m = cplx::abs(l);
    near("power", &x, x.q.powf(p), l, m * (p.f().abs() * tol * 2.0 + 32.0 * e * (1.0 + p.f().abs() * (1.0 + cplx::abs(w)))))?;
    Ok(())
}
fn polar<S: F>(s: &mut Src) -> Res {
    let t = s.angle();
    let (r, t) = (S::of(s.real()).f(), S::of(t).f());
    let u = rnd::<S, 3>(s.unit_vec());
    s.note("r, t, u", &(r, t, u));
    let g = Quaternion::from_polar_decomposition(S::of(r), rad::<S>(t), &Unit::from_value_unchecked(vf::<S, 3>(u)));
    let (sn, cs) = (0.5 * t).sin_cos();
    ck_vec!(f_q(&g), [r * cs, r * sn * u[0], r * sn * u[1], r * sn * u[2]], 8.0 * S::EPS * r.abs(), "from_polar_decomposition of {r}, {t} and {u:?}");
    Ok(())
}
fn roots<S: F>(s: &mut Src) -> Res {
    let x = gen_wide::<S>(s);
    let e = S::EPS;
    let n = norm(&x.a);
    if n < 1e3 * e {
        return Ok(());
    }
    let r = x.q.sqrt();
    let g = f_q(&r);
    ck!(g[0] >= 0.0, "the square root of {:?} is {g:?}, of negative scalar part", x.a);
    ck!((norm(&g) - n.sqrt()).abs() <= 8.0 * e * n.sqrt(), "the square root of {:?} has norm {}, expected {}", x.a, norm(&g), n.sqrt());
    ck_vec!(f_q(&(r * r)), x.a, 32.0 * e * n + 4.0 * e, "square of the square root {g:?} of {:?}", x.a);
    if x.z[0] > 0.0 || x.z[1] > 1e-6 {
        near("square root", &x, r, cplx::sqrt(x.z), 16.0 * e * (n.sqrt() + 1.0 / n.sqrt()))?;
    }
    Ok(())
}
fn inverses<S: F>(s: &mut Src) -> Res {
    let x = gen::<S>(s, 10.0);
    let n = norm(&x.a);
    let n2 = 1.0 + n * n;
    let e = S::EPS;
    let [a, b] = x.z;
    // formulas through logarithms and square roots: half of the digits in the worst case
    let tol = 8.0 * e.sqrt() + 64.0 * e * n2;
    s.nontrivial = b > 1e-3;
    // the value, where it is on no cut
    let off = b > 1e-3;
    let inner = b == 0.0;
    type Fun = fn([f64; 2]) -> [f64; 2];
    let val = |f: &str, g: Quaternion<S>, inv: Fun| near(f, &x, g, inv(x.z), tol);
    // the axis of a square with a small vector part depends on the order in which a product is summed up
    let turn = if a == 0.0 || b == 0.0 { 0.0 } else { 16.0 * e * n2 / (a.abs() * b) };
    let val2 = |f: &str, g: Quaternion<S>, inv: Fun| -> Res {
        if turn > 0.1 {
            return Ok(());
        }
        let w = inv(x.z);
        near(f, &x, g, w, tol + 4.0 * turn * cplx::abs(w))
    };
    // the forward function gives the argument back
    let back = |f: &str, g: Quaternion<S>, fwd: Fun| -> Res {
        let g = f_q(&g);
        let v = [g[1], g[2], g[3]];
        let m = norm(&v);
        let w = fwd([g[0], m]);
        let u = if m == 0.0 { [0.0; 3] } else { scale(v, 1.0 / m) };
        ck_vec!([w[0], w[1] * u[0], w[1] * u[1], w[1] * u[2]], x.a, 4.0 * (tol + turn.min(4.0)) * n2, "forward function of the {f} {g:?} of {:?}", x.a);
        Ok(())
    };
    if off {
        // the cosine is even: both solutions are taken
        val2("inverse cosine", x.q.acos(), cplx::acos).or_else(|m| val2("inverse cosine", -x.q.acos(), cplx::acos).map_err(|_| m))?;
        back("inverse cosine", x.q.acos(), cplx::cos)?;
        val2("inverse sine", x.q.asin(), cplx::asin)?;
        val2("inverse hyperbolic cosine", x.q.acosh(), cplx::acosh)?;
        if a.abs() > 1e-2 || b < 0.99 {
            val2("inverse hyperbolic sine", x.q.asinh(), cplx::asinh)?;
        }
        val("inverse hyperbolic tangent", x.q.atanh(), cplx::atanh)?;
        if (a.abs() > 1e-2 || b < 0.99) && (a.hypot(b - 1.0)) > 1e-2 {
            val("inverse tangent", x.q.atan(), cplx::atan)?;
        }
        if a == 0.0 && b > 1.01 {
            // pure: on the cut of these two
            back("inverse hyperbolic sine", x.q.asinh(), cplx::sinh)?;
            back("inverse tangent", x.q.atan(), cplx::tan)?;
        }
    } else if inner {
        // real arguments, as the real functions have them
        if a.abs() < 0.999 {
            val("inverse cosine", x.q.acos(), cplx::acos)?;
            val("inverse sine", x.q.asin(), cplx::asin)?;
            val("inverse hyperbolic tangent", x.q.atanh(), cplx::atanh)?;
        }
        val("inverse hyperbolic sine", x.q.asinh(), cplx::asinh)?;
        val("inverse tangent", x.q.atan(), cplx::atan)?;
        if a > 1.0 {
            val("inverse hyperbolic cosine", x.q.acosh(), cplx::acosh)?;
        }
        // outside of the real range, a solution along some axis
        back("inverse cosine", x.q.acos(), cplx::cos)?;
        back("inverse sine", x.q.asin(), cplx::sin)?;
        back("inverse hyperbolic cosine", x.q.acosh(), cplx::cosh)?;
        if (a.abs() - 1.0).abs() > 1e-2 {
            let g = x.q.atanh();
            let r = back("inverse hyperbolic tangent", g, cplx::tanh);
            // the documented example asserts half the logarithm of the magnitude of the ratio: a recorded finding
            let dropped = [0.5 * ((1.0 + a) / (1.0 - a)).abs().ln(), 0.0, 0.0, 0.0];
            if r.is_err() && a.abs() > 1.0 && pbt::kit::diff(&f_q(&g), &dropped) <= tol {
                s.finding("atanh-beyond-one", format!("atanh of the real quaternion {a} is {:?}, whose hyperbolic tangent is {}", f_q(&g), dropped[0].tanh()));
            } else {
                r?;
            }
        }
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P24", "a part other than a small integer or a simple fraction was drawn; inverse functions: the vector part is not zero");
    suite.quick = 500_000;
    suite.thorough = 6_000_000;
    suite.assumptions = vec!["arguments are bounded so that results stay in range, and kept off the poles and, for values, off the branch cuts"];
    subs!(suite, "exponential, trigonometric and hyperbolic functions", 1.0, direct; f32, f64);
    subs!(suite, "polar form, logarithm and powers", 1.0, logarithms; f32, f64);
    subs!(suite, "from polar form", 0.5, polar; f32, f64);
    subs!(suite, "square roots", 1.0, roots; f32, f64);
    subs!(suite, "inverse functions", 1.0, inverses; f32, f64);
    pbt::main(suite);
}
