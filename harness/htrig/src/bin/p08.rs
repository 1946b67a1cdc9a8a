//! P08: trigonometry on typed angles.
use cglinalg_numeric::SimdScalarFloat;
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use pbt::kit::Fl;
use pbt::{ck_near, Res, Src, Suite};
use std::f64::consts::PI;

/// an angle in radians, as a value of the unit with `turn` per full turn
fn angle(s: &mut Src, turn: f64) -> f64 {
    let a = match s.draw(9) {
        0 => {
            // next to a multiple of a quarter turn
            let d = 10f64.powf(-1.0 - 9.0 * s.unit());
            s.range(-8, 8) as f64 * PI / 2.0 + if s.coin() { d } else { -d }
        }
        1 => (s.unit() - 0.5) * 1e4,
        2 => s.real_exp(25.0).clamp(-1e3, 1e3),
        _ => s.angle(),
    };
    if a != 0.0 {
        s.nontrivial = true;
    }
    a / (2.0 * PI) * turn
}

fn forward<S: Fl + SimdScalarFloat, A: Angle<Dimensionless = S>>(s: &mut Src, turn: f64, make: fn(S) -> A) -> Res {
    let x = S::of(angle(s, turn));
    s.note("angle", &x);
    let a = make(x);
    let t = x.f() * (2.0 * PI / turn);
    // argument error: the conversion of units rounds; so do the results
    let d = 8.0 * S::EPS * t.abs();
    let r = 8.0 * S::EPS;
    let (sin, cos) = t.sin_cos();
    let (es, ec) = (d + r * sin.abs() + 1e-36, d + r * cos.abs());
    ck_near!(a.sin().f(), sin, es, "sine of {a}");
    ck_near!(a.cos().f(), cos, ec, "cosine of {a}");
    let (p, q) = a.sin_cos();
    ck_near!(p.f(), sin, es, "sine (of the pair) of {a}");
    ck_near!(q.f(), cos, ec, "cosine (of the pair) of {a}");
    if cos.abs() > 32.0 * d {
        ck_near!(a.tan().f(), sin / cos, 2.0 * d / (cos * cos) + 4.0 * r * (sin / cos).abs() + 1e-36, "tangent of {a}");
        ck_near!(a.sec().f(), 1.0 / cos, 2.0 * d / (cos * cos) + 4.0 * r / cos.abs(), "secant of {a}");
    }
    // a single precision number has no reciprocal above about 1e38
    if sin.abs() > 32.0 * d && (1e-36..1e36).contains(&sin.abs()) {
        ck_near!(a.csc().f(), 1.0 / sin, 2.0 * d / (sin * sin) + 4.0 * r / sin.abs(), "cosecant of {a}");
        ck_near!(a.cot().f(), cos / sin, 2.0 * d / (sin * sin) + 4.0 * r * (cos / sin).abs() + 4.0 * d, "cotangent of {a}");
    }
    Ok(())
}

/// a ratio or side, signed zeros and extreme magnitudes included
fn side<S: Fl>(s: &mut Src) -> S {
    match s.draw(4) {
        0 => S::of(s.real_exp(18.0)),
        1 => S::of(s.pick(&[0.0, -0.0, 1.0, -1.0])),
        _ => s.fl(),
    }
}
fn inverse<S: Fl + SimdScalarFloat, A: Angle<Dimensionless = S>>(s: &mut Src, turn: f64, get: fn(A) -> S) -> Res {
    let unit = turn / (2.0 * PI);
    let r = match s.draw(6) {
        0 => S::of(s.range(-8, 8) as f64 / 8.0),
        1 => {
            let x = (1.0 - s.range(0, 4) as f64 * S::EPS) * if s.coin() { 1.0 } else { -1.0 };
            S::of(x)
        }
        2 => S::of(10f64.powf(-20.0 * s.unit()) * if s.coin() { 1.0 } else { -1.0 }),
        _ => S::of(s.unit() * 2.0 - 1.0),
    };
    let (y, x): (S, S) = (side(s), side(s));
    s.note("(ratio, y, x)", &(r, y, x));
    s.nontrivial = true;
    let v = r.f();
    let near = |what: &str, g: S, w: f64| -> Res {
        let w = w * unit;
        let (g, t) = (g.f(), 32.0 * S::EPS * w.abs() + 1e-36);
        ck_near!(g, w, t, "{what}");
        Ok(())
    };
    near(&format!("arcsine of {v:?}"), get(A::asin(r)), v.asin())?;
    // an arccosine near zero has the error of its argument's distance from one
    ck_near!(get(A::acos(r)).f(), v.acos() * unit, 32.0 * S::EPS * unit * (v.acos() + if v.acos() < 0.1 { S::EPS } else { 0.0 }) + 1e-36, "arccosine of {v:?}");
    let (t, b) = (y.f(), x.f());
    near(&format!("arctangent of {t:?}"), get(A::atan(y)), t.atan())?;
    near(&format!("arctangent of ({t:?}, {b:?})"), get(A::atan2(y, x)), t.atan2(b))?;
    Ok(())
}

fn main() {
    let mut suite = Suite::new("P08", "a non-zero angle, or a drawn ratio");
    suite.quick = 400_000;
    suite.thorough = 40_000_000;
    suite.assumptions = vec!["f64 elementary functions of the standard library are the reference"];
    suite.add("functions radians f32", |s: &mut Src| forward::<f32, _>(s, 2.0 * PI, Radians));
    suite.add("functions radians f64", |s: &mut Src| forward::<f64, _>(s, 2.0 * PI, Radians));
    suite.add("functions degrees f32", |s: &mut Src| forward::<f32, _>(s, 360.0, Degrees));
    suite.add("functions degrees f64", |s: &mut Src| forward::<f64, _>(s, 360.0, Degrees));
    suite.add("inverses radians f32", |s: &mut Src| inverse::<f32, Radians<f32>>(s, 2.0 * PI, |a| a.0));
    suite.add("inverses radians f64", |s: &mut Src| inverse::<f64, Radians<f64>>(s, 2.0 * PI, |a| a.0));
    suite.add("inverses degrees f32", |s: &mut Src| inverse::<f32, Degrees<f32>>(s, 360.0, |a| a.0));
    suite.add("inverses degrees f64", |s: &mut Src| inverse::<f64, Degrees<f64>>(s, 360.0, |a| a.0));
    pbt::main(suite);
}
