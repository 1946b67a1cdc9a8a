//! P06: the scalar facade agrees with the primitive number types.
#![allow(irrefutable_let_patterns)]
use cglinalg_numeric as cn;
use cn::{SimdScalarBounded, SimdScalarCmp, SimdScalarFloat, SimdScalarOrd, SimdScalarSigned};
use pbt::{ck, ck_eq, Res, Src, Suite};

macro_rules! float_suite {
    ($suite:ident, $T:ident, $U:ident, $name:literal) => {{
        fn gen(s: &mut Src) -> $T {
            s.nontrivial = true;
            match s.draw(15) {
                0 => 0.0,
                1 => -0.0,
                2 => s.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1.5, -1.5, 2.5, -2.5, 0.1]),
                3 => s.pick(&[$T::INFINITY, $T::NEG_INFINITY, $T::NAN, $T::MAX, $T::MIN, $T::MIN_POSITIVE, -$T::MIN_POSITIVE, $T::EPSILON]),
                4 => {
                    let v = $T::from_bits(s.draw($U::MAX as u64) as $U);
                    if v.is_nan() { $T::NAN } else { v }
                }
                5 => $T::from_bits(s.draw(1 << 20) as $U),
                6 => s.range(-1000, 1000) as $T,
                7 => s.range(-1000, 1000) as $T + 0.5,
                8 | 9 => ((s.unit() - 0.5) * 2.0) as $T,
                10 => (s.range(-40, 40) as $T) / 4.0,
                _ => s.real_exp(6.0) as $T,
            }
        }
        // the same value, or both NaN (the sign of zero aside)
        fn same(a: $T, b: $T) -> bool {
            a == b || (a.is_nan() && b.is_nan())
        }
        // within a few units in the last place
        fn close(a: $T, b: $T) -> bool {
            same(a, b) || (a - b).abs() <= 16.0 * $T::EPSILON * b.abs() + 4.0 * $T::from_bits(1)
        }
        macro_rules! exact {
            ($s:ident, $x:ident, $l:ident, $what:expr, $want:expr) => {
                let (g, w): ($T, $T) = ($what, $want);
                ck!(same(g, w), "{} of {:?}: got {:?}, expected {:?}", stringify!($l), $x, g, w);
            };
        }
        macro_rules! near {
            ($s:ident, $x:ident, $l:ident, $what:expr, $want:expr) => {
                let (g, w): ($T, $T) = ($what, $want);
                ck!(close(g, w), "{} of {:?}: got {:?}, expected {:?}", stringify!($l), $x, g, w);
            };
        }
        $suite.add(concat!("exact unary ", $name), |s: &mut Src| -> Res {
            let x = gen(s);
            s.note("x", &x);
            exact!(s, x, floor, SimdScalarFloat::floor(x), x.floor());
            exact!(s, x, ceil, SimdScalarFloat::ceil(x), x.ceil());
            exact!(s, x, round, SimdScalarFloat::round(x), x.round());
            exact!(s, x, trunc, SimdScalarFloat::trunc(x), x.trunc());
            exact!(s, x, fract, SimdScalarFloat::fract(x), x.fract());
            exact!(s, x, abs, SimdScalarSigned::abs(x), x.abs());
            exact!(s, x, sqrt, SimdScalarFloat::sqrt(x), x.sqrt());
            exact!(s, x, recip, SimdScalarFloat::recip(x), 1.0 / x);
            exact!(s, x, signum, SimdScalarSigned::signum(x), x.signum());
            if !x.is_nan() {
                // the sign of zero included
                for (what, g, w) in [
                    ("floor", SimdScalarFloat::floor(x), x.floor()),
                    ("ceil", SimdScalarFloat::ceil(x), x.ceil()),
                    ("round", SimdScalarFloat::round(x), x.round()),
                    ("trunc", SimdScalarFloat::trunc(x), x.trunc()),
                    ("abs", SimdScalarSigned::abs(x), x.abs()),
                    ("recip", SimdScalarFloat::recip(x), 1.0 / x),
                ] {
                    ck!(g.to_bits() == w.to_bits(), "{what} of {x:?}: got {g:?}, expected {w:?}");
                }
                ck_eq!(SimdScalarSigned::is_sign_positive(x), x.is_sign_positive());
                ck_eq!(SimdScalarSigned::is_sign_negative(x), x.is_sign_negative());
            }
            ck_eq!(SimdScalarFloat::is_finite(x), x.is_finite());
            ck_eq!(SimdScalarFloat::is_infinite(x), x.is_infinite());
            ck_eq!(SimdScalarFloat::is_nan(x), x.is_nan());
            ck_eq!(SimdScalarFloat::is_normal(x), x.is_normal());
            ck_eq!(SimdScalarFloat::is_subnormal(x), x.is_subnormal());
            Ok(())
        });
        $suite.add(concat!("binary and ordering ", $name), |s: &mut Src| -> Res {
            let (x, y, z) = (gen(s), gen(s), gen(s));
            s.note("(x, y, z)", &(x, y, z));
            // a NaN gives way to a number
            exact!(s, x, max, SimdScalarOrd::max(x, y), x.max(y));
            exact!(s, x, min, SimdScalarOrd::min(x, y), x.min(y));
            if x.is_nan() && !y.is_nan() && !z.is_nan() {
                let g = SimdScalarOrd::clamp(x, y.min(z), y.max(z));
                ck!(g.is_nan(), "clamp(NaN, {y:?}, {z:?}) = {g:?}");
            }
            if !x.is_nan() && !y.is_nan() {
                let g = SimdScalarSigned::copysign(x, y);
                ck!(g.to_bits() == x.copysign(y).to_bits(), "copysign({x:?}, {y:?}) = {g:?}");
                if !z.is_nan() {
                    let (lo, hi) = if y <= z { (y, z) } else { (z, y) };
                    let g = SimdScalarOrd::clamp(x, lo, hi);
                    ck!(g == x.clamp(lo, hi), "clamp({x:?}, {lo:?}, {hi:?}) = {g:?}");
                }
            }
            exact!(s, x, mul_add, SimdScalarFloat::mul_add(x, y, z), x.mul_add(y, z));
            near!(s, x, hypot, SimdScalarFloat::hypot(x, y), x.hypot(y));
            near!(s, x, atan2, SimdScalarFloat::atan2(x, y), x.atan2(y));
            near!(s, x, powf, SimdScalarFloat::powf(x, y), x.powf(y));
            Ok(())
        });
        $suite.add(concat!("elementary functions ", $name), |s: &mut Src| -> Res {
            let x = gen(s);
            let n = match s.draw(5) {
                0 => s.range(-100_000, 100_000) as i32,
                1 => s.pick(&[i32::MAX, i32::MIN, i32::MIN + 1, 64, 65, -64, 255, 256, 1023, 1024, -1074]),
                _ => s.range(-20, 20) as i32,
            };
            let b = [2.0 as $T, 10.0, 3.0, 0.5, 7.25][s.below(5)];
            s.note("(x, n, base)", &(x, n, b));
            near!(s, x, sin, SimdScalarFloat::sin(x), x.sin());
            near!(s, x, cos, SimdScalarFloat::cos(x), x.cos());
            near!(s, x, tan, SimdScalarFloat::tan(x), x.tan());
            near!(s, x, asin, SimdScalarFloat::asin(x), x.asin());
            near!(s, x, acos, SimdScalarFloat::acos(x), x.acos());
            near!(s, x, atan, SimdScalarFloat::atan(x), x.atan());
            near!(s, x, sinh, SimdScalarFloat::sinh(x), x.sinh());
            near!(s, x, cosh, SimdScalarFloat::cosh(x), x.cosh());
            near!(s, x, tanh, SimdScalarFloat::tanh(x), x.tanh());
            near!(s, x, asinh, SimdScalarFloat::asinh(x), x.asinh());
            near!(s, x, acosh, SimdScalarFloat::acosh(x), x.acosh());
            if !(x.abs() < 1.0) {
                exact!(s, x, atanh, SimdScalarFloat::atanh(x), x.atanh());
            }
            if x.abs() < 1.0 {
                // ill-conditioned next to 1
                let (g, w, t) = (SimdScalarFloat::atanh(x), x.atanh(), 16.0 * $T::EPSILON * x.abs() / (1.0 - x.abs()));
                ck!((g - w).abs() <= t + 4.0 * $T::from_bits(1), "atanh of {x:?}: got {g:?}, expected {w:?}");
            }
            near!(s, x, ln, SimdScalarFloat::ln(x), x.ln());
            near!(s, x, log2, SimdScalarFloat::log2(x), x.log2());
            near!(s, x, log10, SimdScalarFloat::log10(x), x.log10());
            near!(s, x, log, SimdScalarFloat::log(x, b), x.log(b));
            near!(s, x, ln_1p, SimdScalarFloat::ln_1p(x), x.ln_1p());
            near!(s, x, cbrt, SimdScalarFloat::cbrt(x), x.cbrt());
            near!(s, x, exp, SimdScalarFloat::exp(x), x.exp());
            near!(s, x, exp2, SimdScalarFloat::exp2(x), x.exp2());
            near!(s, x, exp_m1, SimdScalarFloat::exp_m1(x), x.exp_m1());
            // the rounding errors of repeated multiplication add up
            let (g, w) = (SimdScalarFloat::powi(x, n), x.powi(n));
            let t = (64.0 + 4.0 * (n as f64).abs()) * $T::EPSILON as f64;
            if t < 0.1 {
                if w.is_normal() && (1.0 / w).is_normal() {
                    ck!(((g - w).abs() as f64) <= t * w.abs() as f64, "{x:?} to the power {n}: got {g:?}, expected {w:?}");
                }
            }
            if [0.0, 1.0].contains(&x.abs()) || !x.is_finite() || n.unsigned_abs() < 2 {
                ck!(close(g, w), "{x:?} to the power {n}: got {g:?}, expected {w:?}");
            }
            let (a, c) = SimdScalarFloat::sin_cos(x);
            near!(s, x, sin_cos, a, x.sin());
            near!(s, x, sin_cos, c, x.cos());
            let (a, c) = SimdScalarFloat::sinh_cosh(x);
            near!(s, x, sinh_cosh, a, x.sinh());
            near!(s, x, sinh_cosh, c, x.cosh());
            Ok(())
        });
        $suite.add_w(concat!("constants ", $name), 0.001, |s: &mut Src| -> Res {
            use std::$T::consts as k;
            s.nontrivial = true;
            let i = s.below(25);
            let (g, w): ($T, $T) = match i {
                0 => (SimdScalarFloat::pi(), k::PI),
                1 => (SimdScalarFloat::two_pi(), k::TAU),
                2 => (SimdScalarFloat::frac_pi_2(), k::FRAC_PI_2),
                3 => (SimdScalarFloat::frac_pi_3(), k::FRAC_PI_3),
                4 => (SimdScalarFloat::frac_pi_4(), k::FRAC_PI_4),
                5 => (SimdScalarFloat::frac_pi_6(), k::FRAC_PI_6),
                6 => (SimdScalarFloat::frac_pi_8(), k::FRAC_PI_8),
                7 => (SimdScalarFloat::frac_1_pi(), k::FRAC_1_PI),
                8 => (SimdScalarFloat::frac_2_pi(), k::FRAC_2_PI),
                9 => (SimdScalarFloat::frac_2_sqrt_pi(), k::FRAC_2_SQRT_PI),
                10 => (SimdScalarFloat::e(), k::E),
                11 => (SimdScalarFloat::log2_e(), k::LOG2_E),
                12 => (SimdScalarFloat::log10_e(), k::LOG10_E),
                13 => (SimdScalarFloat::ln_2(), k::LN_2),
                14 => (SimdScalarFloat::ln_10(), k::LN_10),
                15 => (SimdScalarFloat::sqrt_2(), k::SQRT_2),
                16 => (SimdScalarFloat::frac_1_sqrt_2(), k::FRAC_1_SQRT_2),
                17 => (SimdScalarFloat::nan(), $T::NAN),
                18 => (SimdScalarFloat::infinity(), $T::INFINITY),
                19 => (SimdScalarFloat::neg_infinity(), $T::NEG_INFINITY),
                20 => (SimdScalarFloat::machine_epsilon(), $T::EPSILON),
                21 => (SimdScalarCmp::default_epsilon(), $T::EPSILON),
                22 => (SimdScalarFloat::min_positive_value(), $T::MIN_POSITIVE),
                23 => (<$T as SimdScalarBounded>::min_value(), $T::MIN),
                _ => (<$T as SimdScalarBounded>::max_value(), $T::MAX),
            };
            s.note("constant", &i);
            let z: $T = SimdScalarFloat::neg_zero();
            ck!(z == 0.0 && z.is_sign_negative(), "neg_zero is {z:?}");
            ck!(close(g, w), "constant {i}: got {g:?}, expected {w:?}");
            Ok(())
        });
    }};
}

macro_rules! int_suite {
    ($suite:ident, $($T:ident),*) => {$({
        $suite.add_w(concat!("signed integers ", stringify!($T)), 0.5, |s: &mut Src| -> Res {
            fn gen(s: &mut Src) -> $T {
                s.nontrivial = true;
                match s.draw(5) {
                    0 => 0,
                    1 => s.pick(&[$T::MAX, $T::MAX - 1, $T::MIN, $T::MIN + 1, $T::MIN + 2]),
                    2 => s.range(-3, 3) as $T,
                    _ => {
                        (((s.draw(u64::MAX) as u128) << 64) | s.draw(u64::MAX) as u128) as $T
                    }
                }
            }
            let (x, y, z) = (gen(s), gen(s), gen(s));
            s.note("(x, y, z)", &(x, y, z));
            // the absolute value of the least integer is not one
            if x != $T::MIN {
                ck_eq!(SimdScalarSigned::abs(x), x.abs());
                ck_eq!(SimdScalarSigned::copysign(x, y), if y < 0 { -x.abs() } else { x.abs() });
            }
            ck_eq!(SimdScalarSigned::signum(x), x.signum());
            ck_eq!(SimdScalarSigned::is_sign_positive(x), x > 0);
            ck_eq!(SimdScalarSigned::is_sign_negative(x), x < 0);
            ck_eq!(SimdScalarOrd::max(x, y), if x > y { x } else { y });
            ck_eq!(SimdScalarOrd::min(x, y), if x < y { x } else { y });
            let (lo, hi) = if y <= z { (y, z) } else { (z, y) };
            ck_eq!(SimdScalarOrd::clamp(x, lo, hi), if x < lo { lo } else if x > hi { hi } else { x });
            ck_eq!(<$T as SimdScalarBounded>::min_value(), $T::MIN);
            ck_eq!(<$T as SimdScalarBounded>::max_value(), $T::MAX);
            Ok(())
        });
    })*};
}

fn wide(s: &mut Src) -> i128 {
    s.nontrivial = true;
    let edge = s.pick(&[0i128, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64, 1 << 100, i128::MAX - 2]);
    match s.draw(6) {
        0 => s.range(-200, 200) as i128,
        1 | 2 => {
            let v = edge + s.range(-2, 2) as i128;
            if s.coin() { -v } else { v }
        }
        3 => s.draw(u64::MAX) as i64 as i128,
        4 => s.draw(u64::MAX) as i128,
        5 => (((s.draw(u64::MAX) as u128) << 64) | s.draw(u64::MAX) as u128) as i128,
        _ => {
            let k = s.draw(62);
            let v = s.draw((1u64 << (k + 1)) - 1) as i128;
            if s.coin() { -v } else { v }
        }
    }
}

/// The whole part of a float, as what it converts to.
fn whole<T>(f: f64, signed: impl Fn(i128) -> Option<T>, unsigned: impl Fn(u128) -> Option<T>) -> Option<T> {
    let edge = 2f64.powi(127);
    if f >= -edge && f < edge {
        signed(f.trunc() as i128)
    } else if f >= edge && f < 2.0 * edge {
        unsigned(f as u128)
    } else {
        None
    }
}
macro_rules! cast_suite {
    ($suite:ident, $($To:ident),*) => {$({
        $suite.add_w(concat!("casts to ", stringify!($To)), 0.5, |s: &mut Src| -> Res {
            let v = wide(s);
            s.note("integer", &v);
            let want = <$To>::try_from(v).ok();
            macro_rules! from {
                ($From:ident) => {
                    if let Ok(x) = <$From>::try_from(v) {
                        let g: Option<$To> = cn::try_cast::<$From, $To>(x);
                        ck!(g == want, "{} {} to {}: got {:?}, expected {:?}", stringify!($From), x, stringify!($To), g, want);
                        if let Some(w) = want {
                            ck_eq!(cn::cast::<$From, $To>(x), w);
                        }
                    }
                };
            }
            from!(u8); from!(u16); from!(u32); from!(u64); from!(u128); from!(usize);
            from!(i8); from!(i16); from!(i32); from!(i64); from!(i128); from!(isize);
            // beyond the signed ones
            let big = u128::MAX - if s.coin() { s.draw(3) as u128 } else { s.draw(u64::MAX) as u128 };
            let (g, w) = (cn::try_cast::<u128, $To>(big), <$To>::try_from(big).ok());
            ck!(g == w, "u128 {big} to {}: got {g:?}, expected {w:?}", stringify!($To));
            // floats truncate
            let f = match s.draw(4) {
                0 => s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300]),
                1 => v as f64,
                2 => v as f64 + 0.5,
                3 => (s.unit() - 0.5) * 600.0,
                _ => (s.unit() - 0.5) * 140000.0,
            };
            s.note("float", &f);
            let want = whole(f as f64, |x| <$To>::try_from(x).ok(), |x| <$To>::try_from(x).ok());
            let g: Option<$To> = cn::try_cast::<f64, $To>(f);
            ck!(g == want, "f64 {f:?} to {}: got {g:?}, expected {want:?}", stringify!($To));
            let f = f as f32;
            let want = whole(f as f64, |x| <$To>::try_from(x).ok(), |x| <$To>::try_from(x).ok());
            let g: Option<$To> = cn::try_cast::<f32, $To>(f);
            ck!(g == want, "f32 {f:?} to {}: got {g:?}, expected {want:?}", stringify!($To));
            Ok(())
        });
    })*};
}

fn main() {
    let mut suite = Suite::new("P06", "every case: at least one operand is drawn outside the constants of the generator's seed list or is a special value");
    suite.quick = 800_000;
    suite.thorough = 40_000_000;
    suite.assumptions = vec!["the Rust standard library's operations on the primitive types are the reference"];
    float_suite!(suite, f32, u32, "f32");
    float_suite!(suite, f64, u64, "f64");
    int_suite!(suite, i8, i16, i32, i64, i128, isize);
    cast_suite!(suite, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    suite.add("casts to floats", |s: &mut Src| -> Res {
        let v = wide(s);
        s.note("integer", &v);
        macro_rules! from {
            ($From:ident) => {
                if let Ok(x) = <$From>::try_from(v) {
                    ck_eq!(cn::try_cast::<$From, f64>(x), Some(x as f64));
                    ck_eq!(cn::cast::<$From, f32>(x), x as f32);
                }
            };
        }
        from!(u8); from!(u16); from!(u32); from!(u64); from!(u128); from!(usize);
        from!(i8); from!(i16); from!(i32); from!(i64); from!(i128); from!(isize);
        let f = s.real_exp(30.0);
        s.note("float", &f);
        ck_eq!(cn::try_cast::<f64, f64>(f), Some(f));
        ck_eq!(cn::try_cast::<f64, f32>(f), Some(f as f32));
        ck_eq!(cn::try_cast::<f32, f64>(f as f32), Some(f as f32 as f64));
        let x = s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e-310, 1e-40]);
        let same = |a: Option<f64>, b: f64| a.is_some_and(|a| a.is_nan() && b.is_nan() || a.to_bits() == b.to_bits());
        ck!(same(cn::try_cast::<f64, f64>(x), x), "f64 {x:?} to f64: got {:?}", cn::try_cast::<f64, f64>(x));
        ck!(same(cn::try_cast::<f64, f32>(x).map(|y| y as f64), x as f32 as f64), "f64 {x:?} to f32: got {:?}", cn::try_cast::<f64, f32>(x));
        ck!(same(cn::try_cast::<f32, f64>(x as f32), x as f32 as f64), "f32 {x:?} to f64: got {:?}", cn::try_cast::<f32, f64>(x as f32));
        Ok(())
    });
    pbt::main(suite);
}
