//! P09: normalizing an angle gives the congruent angle in the documented interval.
use cglinalg_numeric::SimdScalarFloat;
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use pbt::kit::Fl;
use pbt::{ck, Res, Src, Suite};

fn gen<S: Fl>(s: &mut Src, turn: S) -> S {
    let t = turn.f();
    s.nontrivial = true;
    match s.draw(10) {
        0 => S::of(0.0),
        1 => S::of(s.range(-40, 40) as f64 * t),
        2 => S::of(s.range(-40, 40) as f64 * t / 2.0),
        3 => S::of(s.range(-96, 96) as f64 * t / 8.0),
        4 => {
            // next to a multiple of a half turn
            let k = S::of(s.range(-8, 8) as f64 * t / 2.0);
            S::of(k.f() * (1.0 + s.range(-3, 3) as f64 * S::EPS))
        }
        5 => {
            // tiny
            let m = 10f64.powf(-s.unit() * 36.0);
            S::of(if s.coin() { -m } else { m })
        }
        6 => S::of((s.unit() - 0.5) * 2.0 * t),
        7 => S::of((s.unit() - 0.5) * 100.0 * t),
        8 => S::of((s.unit() - 0.5) * 1e4 * t),
        9 => {
            // of so many turns that little or nothing of the angle is left
            let m = 10f64.powf(4.0 + 16.0 * s.unit());
            S::of(if s.coin() { -m } else { m })
        }
        _ => S::of(s.range(-2000, 2000) as f64),
    }
}

fn congruent<S: Fl>(got: f64, want: f64, scale: f64, t: f64) -> bool {
    let k = ((want - got) / t).round();
    (want - got - k * t).abs() <= 16.0 * S::EPS * (scale + t)
}

fn check<S: Fl + SimdScalarFloat, A: Angle<Dimensionless = S>>(s: &mut Src, make: fn(S) -> A, get: fn(A) -> S) -> Res {
    let full = get(A::full_turn());
    let half = get(A::full_turn_div_2());
    let (a, b) = (gen(s, full), gen(s, full));
    s.note("angles", &(a, b));
    let (x, y, t) = (make(a), make(b), full.f());
    let zero = S::of(0.0);

    let n = get(x.normalize());
    ck!(n >= zero && n < full, "normalizing {a:?} gives {n:?}, outside [0, {full:?})");
    ck!(congruent::<S>(n.f(), a.f(), a.f().abs(), t), "normalizing {a:?} gives {n:?}, not congruent");
    if a >= zero && a < full {
        ck!((n.f() - a.f()).abs() <= 4.0 * S::EPS * a.f(), "normalizing {a:?}, already in range, gives {n:?}");
    }

    let m = get(x.normalize_signed());
    ck!(m >= -half && m < half, "signed normalizing {a:?} gives {m:?}, outside [-{half:?}, {half:?})");
    ck!(congruent::<S>(m.f(), a.f(), a.f().abs(), t), "signed normalizing {a:?} gives {m:?}, not congruent");

    if a >= -half && a < half {
        // a negative angle is a turn less than its congruent positive one
        let tol = if a >= zero { 4.0 * S::EPS * a.f() } else { 4.0 * S::EPS * t };
        ck!((m.f() - a.f()).abs() <= tol, "signed normalizing {a:?}, already in range, gives {m:?}");
    }

    let o = get(x.opposite());
    ck!(o >= zero && o < full, "the opposite of {a:?} is {o:?}, outside [0, {full:?})");
    ck!(congruent::<S>(o.f(), a.f() + t / 2.0, a.f().abs(), t), "the opposite of {a:?} is {o:?}");

    let c = get(x.bisect(y));
    ck!(c >= zero && c < full, "the bisector of {a:?} and {b:?} is {c:?}, outside [0, {full:?})");
    ck!(
        congruent::<S>(c.f(), (a.f() + b.f()) / 2.0, a.f().abs() + b.f().abs(), t),
        "the bisector of {a:?} and {b:?} is {c:?}"
    );
    Ok(())
}

fn main() {
    let mut suite = Suite::new("P09", "every case draws two angles; multiples of a half turn and their neighbours, tiny angles and angles of many turns are classes of the generator");
    suite.quick = 800_000;
    suite.thorough = 80_000_000;
    suite.add("radians f32", |s: &mut Src| check::<f32, _>(s, Radians, |a: Radians<f32>| a.0));
    suite.add("radians f64", |s: &mut Src| check::<f64, _>(s, Radians, |a: Radians<f64>| a.0));
    suite.add("degrees f32", |s: &mut Src| check::<f32, _>(s, Degrees, |a: Degrees<f32>| a.0));
    suite.add("degrees f64", |s: &mut Src| check::<f64, _>(s, Degrees, |a: Degrees<f64>| a.0));
    pbt::main(suite);
}
