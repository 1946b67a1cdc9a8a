//! P07: typed angles add, scale and divide like their values, and the two units convert.
use cglinalg_numeric::SimdScalarFloat;
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use pbt::kit::Fl;
use pbt::{ck, ck_eq, ck_near, Res, Src, Suite};

macro_rules! arith {
    ($suite:ident, $A:ident, $T:ident) => {
        $suite.add(concat!("operators ", stringify!($A), " ", stringify!($T)), |s: &mut Src| -> Res {
            let one = |s: &mut Src| -> $T {
                match s.draw(9) {
                    0 => s.pick(&[$T::NAN, $T::INFINITY, $T::NEG_INFINITY, 0.0, -0.0, $T::MAX, $T::MIN_POSITIVE, $T::from_bits(1), 360.0, 180.0]),
                    1 => s.real_exp(30.0) as $T,
                    2..=5 => s.fint(1000),
                    _ => s.fl(),
                }
            };
            let (a, b, k): ($T, $T, $T) = (one(s), one(s), one(s));
            s.note("(a, b, k)", &(a, b, k));
            let (x, y) = ($A(a), $A(b));
            let same = |p: $T, q: $T| p == q || (p.is_nan() && q.is_nan());
            macro_rules! bin {
                ($op:tt, $aop:tt) => {
                    ck!(same((x $op y).0, a $op b), "{:?} {} {:?} = {:?}", x, stringify!($op), y, x $op y);
                    ck!(same((&x $op y).0, a $op b), "&{:?} {} {:?} = {:?}", x, stringify!($op), y, &x $op y);
                    ck!(same((x $op &y).0, a $op b), "{:?} {} &{:?} = {:?}", x, stringify!($op), y, x $op &y);
                    ck!(same((&x $op &y).0, a $op b), "&{:?} {} &{:?} = {:?}", x, stringify!($op), y, &x $op &y);
                    let mut z = x;
                    z $aop y;
                    ck!(same(z.0, a $op b), "{:?} {} {:?} leaves {:?}", x, stringify!($aop), y, z);
                };
            }
            bin!(+, +=);
            bin!(-, -=);
            bin!(%, %=);
            macro_rules! sc {
                ($op:tt, $aop:tt) => {
                    ck!(same((x $op k).0, a $op k), "{:?} {} {:?} = {:?}", x, stringify!($op), k, x $op k);
                    ck!(same((&x $op k).0, a $op k), "&{:?} {} {:?} = {:?}", x, stringify!($op), k, &x $op k);
                    let mut z = x;
                    z $aop k;
                    ck!(same(z.0, a $op k), "{:?} {} {:?} leaves {:?}", x, stringify!($aop), k, z);
                };
            }
            sc!(*, *=);
            sc!(/, /=);
            let q: [$T; 4] = [x / y, &x / y, x / &y, &x / &y];
            for r in q {
                ck!(same(r, a / b), "{x:?} / {y:?} = {r:?}");
            }
            ck!(same((-x).0, -a), "the opposite of {x:?} is {:?}", -x);
            ck!(same((-&x).0, -a), "the opposite of &{x:?} is {:?}", -&x);
            ck_eq!(x > y, a > b);
            ck_eq!(x <= y, a <= b);
            ck_eq!(x >= y, a >= b);
            ck_eq!(x == y, a == b);
            ck_eq!(x < y, a < b);
            ck_eq!(x.partial_cmp(&y), a.partial_cmp(&b));
            ck_eq!(x.is_finite(), a.is_finite());
            ck_eq!($A::is_zero(&x), a == 0.0);
            ck_eq!(Angle::is_zero(x), a == 0.0);
            ck_eq!($A::<$T>::zero().0, 0.0);
            ck_eq!(<$A<$T> as Angle>::zero().0, 0.0);
            ck_eq!($A::<$T>::default().0, 0.0);
            Ok(())
        });
    };
}
macro_rules! int_arith {
    ($suite:ident, $A:ident, $($T:ident),*) => {$(
        $suite.add_w(concat!("integer operators ", stringify!($A), " ", stringify!($T)), 0.2, |s: &mut Src| -> Res {
            let wild = |s: &mut Src| -> $T { (((s.draw(u64::MAX) as u128) << 64) | s.draw(u64::MAX) as u128) as $T };
            let (a, b, k): ($T, $T, $T) = if s.coin() {
                let (b, d, k) = (s.nat(5) as $T, s.nat(5) as $T, s.nat(5) as $T);
                (b + d, b, k)
            } else {
                (wild(s), wild(s), if s.coin() { wild(s) } else { s.nat(5) as $T })
            };
            s.note("(a, b, k)", &(a, b, k));
            let (x, y) = ($A(a), $A(b));
            // whatever the integers themselves can do
            if let Some(w) = a.checked_add(b) {
                for r in [x + y, &x + y, x + &y, &x + &y] { ck_eq!(r.0, w); }
                let mut z = x; z += y; ck_eq!(z.0, w);
            }
            if let Some(w) = a.checked_sub(b) {
                for r in [x - y, &x - y, x - &y, &x - &y] { ck_eq!(r.0, w); }
                let mut z = x; z -= y; ck_eq!(z.0, w);
            }
            if let Some(w) = a.checked_mul(k) {
                for r in [x * k, &x * k] { ck_eq!(r.0, w); }
                let mut z = x; z *= k; ck_eq!(z.0, w);
            }
            ck_eq!(x == y, a == b);
            ck_eq!(x.partial_cmp(&y), a.partial_cmp(&b));
            ck_eq!(x.is_zero(), a == 0);
            ck_eq!($A::<$T>::zero().0, 0);
            Ok(())
        });
    )*};
}

fn convert<S: Fl + SimdScalarFloat>(s: &mut Src) -> Res {
    use std::f64::consts::PI;
    let x: S = if s.coin() { S::of(s.range(-720, 720) as f64) } else { { let e = if s.coin() { 6.0 } else { 30.0 }; S::of(s.real_exp(e)) } };
    s.note("value", &x);
    let (v, c) = (x.f(), 8.0 * S::EPS);
    let r: Radians<S> = Degrees(x).into();
    ck_near!(r.0.f(), v * PI / 180.0, c * (v * PI / 180.0).abs(), "{v} degrees in radians");
    let d: Degrees<S> = Radians(x).into();
    ck_near!(d.0.f(), v * 180.0 / PI, c * (v * 180.0 / PI).abs(), "{v} radians in degrees");
    let r2: Degrees<S> = Radians::from(Degrees(x)).into();
    ck_near!(r2.0.f(), v, 2.0 * c * v.abs(), "{v} degrees to radians and back");
    let d2: Radians<S> = Degrees::from(Radians(x)).into();
    ck_near!(d2.0.f(), v, 2.0 * c * v.abs(), "{v} radians to degrees and back");
    for (i, n) in [(0, 1.0), (1, 2.0), (2, 4.0), (3, 6.0), (4, 8.0)] {
        let (a, b): (Radians<S>, Degrees<S>) = match i {
            0 => (Radians::full_turn(), Degrees::full_turn()),
            1 => (Radians::full_turn_div_2(), Degrees::full_turn_div_2()),
            2 => (Radians::full_turn_div_4(), Degrees::full_turn_div_4()),
            3 => (Radians::full_turn_div_6(), Degrees::full_turn_div_6()),
            _ => (Radians::full_turn_div_8(), Degrees::full_turn_div_8()),
        };
        ck_near!(a.0.f(), 2.0 * PI / n, c, "a turn by {n} in radians");
        ck_near!(b.0.f(), 360.0 / n, c * 360.0, "a turn by {n} in degrees");
    }
    ck_eq!(format!("{}", Degrees(x)), format!("{x} degrees"));
    ck_eq!(format!("{}", Radians(x)), format!("{x} radians"));
    Ok(())
}

fn main() {
    let mut suite = Suite::new("P07", "at least one drawn value is neither 0 nor 1 nor -1");
    suite.quick = 300_000;
    suite.thorough = 20_000_000;
    arith!(suite, Radians, f32);
    arith!(suite, Radians, f64);
    arith!(suite, Degrees, f32);
    arith!(suite, Degrees, f64);
    int_arith!(suite, Radians, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    int_arith!(suite, Degrees, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    suite.add("unit conversion f32", convert::<f32>);
    suite.add("unit conversion f64", convert::<f64>);
    pbt::main(suite);
}
