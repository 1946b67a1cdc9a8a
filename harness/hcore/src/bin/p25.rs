//! P25: complex numbers form a field, in every form of the operators.
use hcore::*;
use pbt::kit::E;
use pbt::{ck, ck_e, ck_vec, Res, Src, Suite};

fn cmul<T: Copy + std::ops::Mul<Output = T> + std::ops::Add<Output = T> + std::ops::Sub<Output = T>>(a: [T; 2], b: [T; 2]) -> [T; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
fn componentwise<S: Sc>(s: &mut Src) -> Res {
    let (a, mut b) = (all::<S, 2>(s), all::<S, 2>(s));
    let (k, d) = (S::any(s), S::any(s));
    s.note("a, b", &(a, b));
    s.note("k, d", &(k, d));
    let (zero, one) = (S::i(0), S::i(1));
    let orig = b;
    for i in 0..2 {
        if !S::can_add(a[i], b[i]) {
            b[i] = zero;
        }
    }
    let (x, y) = (cx(a), cx(b));
    forms!(same, [a[0] + b[0], a[1] + b[1]], "complex + complex", ca; x + y, x + &y, &x + y, &x + &y,
        { let mut z = x; z += y; z }, { let mut z = x; z += &y; z });
    let r = b[0];
    forms!(same, [a[0] + r, a[1]], "complex + real", ca; x + r, x + &r, &x + r, &x + &r, { let mut z = x; z += r; z }, { let mut z = x; z += &r; z });
    b = orig;
    for i in 0..2 {
        if !S::can_sub(a[i], b[i]) {
            b[i] = zero;
        }
        if !S::can_sub(a[i], b[i]) {
            b[i] = a[i];
        }
    }
    let y = cx(b);
    let r = b[0];
    forms!(same, [a[0] - b[0], a[1] - b[1]], "complex - complex", ca; x - y, x - &y, &x - y, &x - &y,
        { let mut z = x; z -= y; z }, { let mut z = x; z -= &y; z });
    forms!(same, [a[0] - r, a[1]], "complex - real", ca; x - r, x - &r, &x - r, &x - &r, { let mut z = x; z -= r; z }, { let mut z = x; z -= &r; z });
    let m = a.map(|t| if S::can_mul(t, k) { t } else { one });
    let xm = cx(m);
    forms!(same, m.map(|t| t * k), "complex * real", ca; xm * k, &xm * k, xm * &k, &xm * &k,
        { let mut z = xm; z *= k; z }, { let mut z = xm; z *= &k; z }, xm.scale(k));
    if d != zero {
        let m = a.map(|t| if S::can_div(t, d) { t } else { one });
        let xd = cx(m);
        forms!(close, m.map(|t| t / d), "complex / real", ca; xd / d, &xd / d, xd / &d, &xd / &d,
            { let mut z = xd; z /= d; z }, { let mut z = xd; z /= &d; z }, xd.unscale(d));
        forms!(same, m.map(|t| t % d), "complex % real", ca; xd % d, &xd % d, xd % &d, &xd % &d,
            { let mut z = xd; z %= d; z }, { let mut z = xd; z %= &d; z });
    }
    forms!(same, [zero, zero], "zero", ca; Complex::<S>::zero(), Complex::<S>::default());
    forms!(same, [one, zero], "one", ca; Complex::<S>::one(), Complex::<S>::identity(), Complex::<S>::unit_re());
    forms!(same, [zero, one], "i", ca; Complex::<S>::unit_im());
    forms!(same, [k, zero], "real number", ca; Complex::from_real(k), Complex::from(k), Complex::from(&k));
    forms!(same, [zero, k], "imaginary number", ca; Complex::from_imaginary(k));
    for c in [a, [one, zero], [zero, one], [one, k], [k, one], [zero, k], [k, zero], [zero, zero], [one, one]] {
        let z = cx(c);
        ck!(z.is_zero() == (c == [zero, zero]), "is_zero of {c:?} is {}", z.is_zero());
        ck!(z.is_one() == (c == [one, zero]), "is_one of {c:?} is {}", z.is_one());
        ck!(z.is_identity() == (c == [one, zero]), "is_identity of {c:?} is {}", z.is_identity());
        ck!(z.is_real() == (c[1] == zero), "is_real of {c:?} is {}", z.is_real());
        ck!(z.is_imaginary() == (c[0] == zero), "is_imaginary of {c:?} is {}", z.is_imaginary());
    }
    ck!((x == cx(orig)) == (a[0] == orig[0] && a[1] == orig[1]), "{a:?} == {orig:?} is {}", x == cx(orig));
    Ok(())
}
fn products<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let (mut a, mut b, mut c): ([S; 2], [S; 2], [S; 2]) = (s.arr(|s| S::small(s)), s.arr(|s| S::small(s)), s.arr(|s| S::small(s)));
    if S::N == "i8" || S::N == "i16" {
        let t = |x: [S; 2]| x.map(|v| v % S::i(if S::N == "i8" { 3 } else { 17 }));
        (a, b, c) = (t(a), t(b), t(c));
    }
    s.nontrivial = a.iter().chain(&b).all(|x| *x != S::i(0));
    s.note("a, b, c", &(a, b, c));
    let (x, y, z) = (cx(a), cx(b), cx(c));
    let zero = S::i(0);
    let ab = cmul(a, b);
    forms!(same, ab, "product", ca; x * y, x * &y, &x * y, &x * &y, y * x, y * &x, &y * x, &y * &x,
        { let mut t = x; t *= y; t }, { let mut t = x; t *= &y; t }, { let mut t = y; t *= x; t });
    forms!(same, cmul(a, a), "square", ca; x.squared());
    forms!(same, cmul(cmul(a, a), a), "cube", ca; x.cubed());
    forms!(same, a.map(|t| -t), "negated", ca; -x, -&x);
    forms!(same, [a[0], -a[1]], "conjugate", ca; x.conjugate());
    let n = a[0] * a[0] + a[1] * a[1];
    for (g, f) in [(x.norm_squared(), "norm_squared"), (x.magnitude_squared(), "magnitude_squared"), (x.modulus_squared(), "modulus_squared")] {
        ck!(g == n, "{f} of {a:?} is {g:?}, expected {n:?}");
    }
    let ab1 = |t: S| if t < zero { -t } else { t };
    ck!(x.l1_norm() == ab1(a[0]) + ab1(a[1]), "L1 norm of {a:?} is {:?}", x.l1_norm());
    ck!((x * y) * z == x * (y * z), "the product of {a:?}, {b:?} and {c:?} depends on the order");
    ck!(x * (y + z) == x * y + x * z, "distributivity fails for {a:?}, {b:?}, {c:?}");
    ck!((x * y).conjugate() == x.conjugate() * y.conjugate(), "the conjugate of the product of {a:?} and {b:?}");
    ck!(x * x.conjugate() == Complex::from_real(n), "{a:?} times its conjugate is {:?}", x * x.conjugate());
    let nb = b[0] * b[0] + b[1] * b[1];
    if nb != zero {
        // the numerators over the common denominator, as the type divides
        let num = cmul(a, [b[0], -b[1]]);
        let w = num.map(|t| t / nb);
        let cmp = |g: [S; 2], w: [S; 2]| S::FLOAT || g == w;
        forms!(cmp, w, "quotient", ca; x / y, x / &y, &x / y, &x / &y, { let mut t = x; t /= y; t }, { let mut t = x; t /= &y; t });
        // exact where divisible, floats included
        let p = cx(ab);
        if ab.iter().all(|t| S::can_mul(*t, b[0]) && S::can_mul(*t, b[1])) && S::N != "i8" {
            let near = |g: [S; 2], w: [S; 2]| if S::FLOAT { S::close(g[0] + nb, w[0] + nb) && S::close(g[1] + nb, w[1] + nb) } else { g == w };
            forms!(near, a, "product over factor", ca; p / y, p / &y, &p / y, &p / &y, { let mut t = p; t /= y; t }, { let mut t = p; t /= &y; t });
        }
    }
    Ok(())
}
/// exact products of large integers
fn wide_products<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let (a, b): ([S; 2], [S; 2]) = (s.arr(|s| S::wide(s)), s.arr(|s| S::wide(s)));
    s.note("a, b", &(a, b));
    let (x, y) = (cx(a), cx(b));
    forms!(same, cmul(a, b), "product", ca; x * y, x * &y, &x * y, &x * &y, { let mut t = x; t *= y; t }, { let mut t = x; t *= &y; t });
    forms!(same, cmul(a, a), "square", ca; x.squared());
    forms!(same, a.map(|t| -t), "negated", ca; -x, -&x);
    forms!(same, [a[0], -a[1]], "conjugate", ca; x.conjugate());
    let k = b[0];
    forms!(same, a.map(|t| t * k), "product with a number", ca; x * k, &x * k, { let mut t = x; t *= k; t });
    let n = a[0] * a[0] + a[1] * a[1];
    for (g, f) in [(x.norm_squared(), "norm_squared"), (x.magnitude_squared(), "magnitude_squared"), (x.modulus_squared(), "modulus_squared")] {
        ck!(g == n, "{f} of {a:?} is {g:?}, expected {n:?}");
    }
    Ok(())
}
fn reals<S: F>(s: &mut Src) -> Res {
    let a = rnd::<S, 2>(s.rvec());
    let k = match s.draw(5) {
        0 => 1.0,
        1 => 0.0,
        2 => s.between(0.1, 10.0),
        _ => 10f64.powf(s.between(if S::EPS > 1e-10 { -10.0 } else { -70.0 }, if S::EPS > 1e-10 { 10.0 } else { 70.0 })),
    };
    let u = s.unit_vec::<2>();
    let b = rnd::<S, 2>(u.map(|t| t * k));
    s.note("a, b", &(a, b));
    let (x, y) = (cf::<S>(a), cf::<S>(b));
    let e = |a: [f64; 2]| a.map(E::of);
    let ab = cmul(e(a), e(b));
    for (i, g) in [x * y, x * &y, &x * y, &x * &y, { let mut t = x; t *= y; t }, { let mut t = x; t *= &y; t }].iter().enumerate() {
        ck_e!(g.re, ab[0], 4.0, "real part of the product of {a:?} and {b:?} (form {i})");
        ck_e!(g.im, ab[1], 4.0, "imaginary part of the product of {a:?} and {b:?} (form {i})");
    }
    let cube = cmul(cmul(e(a), e(a)), e(a));
    ck_e!(x.cubed().re, cube[0], 4.0, "real part of the cube of {a:?}");
    ck_e!(x.cubed().im, cube[1], 4.0, "imaginary part of the cube of {a:?}");
    let n2 = b[0] * b[0] + b[1] * b[1];
    let tn = |g: S, f: &str| -> Res {
        ck!((g.f() - n2.sqrt()).abs() <= 4.0 * S::EPS * n2.sqrt(), "{f} of {b:?} is {g:?}, expected {}", n2.sqrt());
        Ok(())
    };
    for (g, f) in [(y.norm(), "norm"), (y.modulus(), "modulus"), (y.magnitude(), "magnitude"), (y.l2_norm(), "l2_norm")] {
        tn(g, f)?;
    }
    let inv = y.try_inverse();
    if b == [0.0, 0.0] {
        ck!(inv.is_none() && !y.is_invertible(), "zero has the inverse {inv:?}");
        return Ok(());
    }
    if k >= 4.0 * S::EPS {
        ck!(inv.is_some() && y.is_invertible(), "{b:?} has no inverse");
    }
    if let Some(g) = inv {
        let w = [b[0] / n2, -b[1] / n2];
        ck_vec!(f_c(&g), w, 8.0 * S::EPS / n2.sqrt(), "inverse of {b:?}");
        ck_vec!(f_c(&y.inverse()), w, 8.0 * S::EPS / n2.sqrt(), "inverse() of {b:?}");
    }
    let num = cmul(e(a), e([b[0], -b[1]]));
    let den = E::of(n2);
    for (i, g) in [x / y, x / &y, &x / y, &x / &y, { let mut t = x; t /= y; t }, { let mut t = x; t /= &y; t }].iter().enumerate() {
        ck_e!(g.re, num[0] / den, 8.0, "real part of the quotient of {a:?} by {b:?} (form {i})");
        ck_e!(g.im, num[1] / den, 8.0, "imaginary part of the quotient of {a:?} by {b:?} (form {i})");
    }
    // the wrapper of unit values
    let un = Unit::from_value(y);
    let w = ca(un.as_ref()).map(|t| -t);
    forms!(same, w, "negated unit complex number", ca; (-un).into_inner(), (-&un).into_inner());
    Ok(())
}
fn classes<S: F>(s: &mut Src) -> Res {
    let a = all::<S, 2>(s);
    s.note("a", &a);
    let f = a.map(|t| t.f());
    let x = cx(a);
    ck!(x.is_finite() == f.iter().all(|t| t.is_finite()), "is_finite of {a:?} is {}", x.is_finite());
    ck!(x.is_nan() == f.iter().any(|t| t.is_nan()), "is_nan of {a:?} is {}", x.is_nan());
    let inf = !f.iter().any(|t| t.is_nan()) && f.iter().any(|t| t.is_infinite());
    ck!(x.is_infinite() == inf, "is_infinite of {a:?} is {}", x.is_infinite());
    Ok(())
}
fn history<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let mut m: [S; 2] = s.arr(|s| S::small(s));
    let mut x = cx(m);
    let steps = 1 + s.below(10);
    s.nontrivial = steps > 2;
    s.note("start", &m);
    for n in 0..steps {
        let b: [S; 2] = s.arr(|s| S::small(s));
        let op = s.below(9);
        s.note("step", &(op, b));
        let lim = S::i(1 << 18);
        if m.iter().any(|t| *t > lim || *t < -lim) {
            m = m.map(|t| t % S::i(1000));
            x %= S::i(1000);
        }
        match op {
            0 => {
                x += cx(b);
                m = [m[0] + b[0], m[1] + b[1]];
            }
            1 => {
                x -= &cx(b);
                m = [m[0] - b[0], m[1] - b[1]];
            }
            2 => {
                x *= b[0];
                m = m.map(|t| t * b[0]);
            }
            3 => {
                x *= cx(b);
                m = cmul(m, b);
            }
            4 => {
                x *= &cx(b);
                m = cmul(m, b);
            }
            5 => {
                x += b[0];
                m[0] = m[0] + b[0];
            }
            6 => {
                x -= &b[0];
                m[0] = m[0] - b[0];
            }
            7 if b[1] != S::i(0) => {
                x %= b[1];
                m = m.map(|t| t % b[1]);
            }
            8 => {
                x = -x.conjugate();
                m = [-m[0], m[1]];
            }
            _ => {}
        }
        ck!(same(ca(&x), m), "after step {n} (operation {op}) the number is {x:?}, expected {m:?}");
    }
    Ok(())
}
macro_rules! left {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("real number on the left ", stringify!($T)), 0.3, |s: &mut Src| -> Res {
            let a = all::<$T, 2>(s);
            let k = <$T as Sc>::any(s);
            s.note("k, a", &(k, a));
            let one = <$T as Sc>::i(1);
            let m = a.map(|t| if Sc::can_mul(t, k) { t } else { one });
            let x = cx(m);
            forms!(same, m.map(|t| k * t), "real * complex", ca; k * x, k * &x, &k * x, &k * &x);
            if Sc::can_add(k, a[0]) {
                let x = cx(a);
                forms!(same, [k + a[0], a[1]], "real + complex", ca; k + x, k + &x, &k + x, &k + &x);
            }
            if Sc::can_sub(k, a[0]) {
                let x = cx(a);
                let zero = <$T as Sc>::i(0);
                // the tests of the library assert that the imaginary part is kept: a recorded finding
                let neg = if Sc::can_sub(zero, a[1]) { Some(zero - a[1]) } else { None };
                for g in [k - x, k - &x, &k - x, &k - &x] {
                    let g = ca(&g);
                    let w = k - a[0];
                    ck!(Sc::same(g[0], w), "{k:?} - {a:?} gave {g:?}");
                    if !neg.is_some_and(|n| Sc::same(g[1], n)) {
                        if Sc::same(g[1], a[1]) {
                            s.finding("real-minus-complex", format!("{k:?} - ({:?} + i{:?}) gave {:?} + i{:?}", a[0], a[1], g[0], g[1]));
                        } else {
                            return Err(format!("{k:?} - {a:?} gave {g:?}"));
                        }
                    }
                }
            }
            Ok(())
        });
    )+};
}
macro_rules! left_div {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("real number over a complex one ", stringify!($T)), 0.3, |s: &mut Src| -> Res {
            let a: [$T; 2] = s.arr(|s| <$T as Sc>::small(s));
            let k = <$T as Sc>::small(s);
            s.note("k, a", &(k, a));
            let n = a[0] * a[0] + a[1] * a[1];
            if n == <$T as Sc>::i(0) {
                return Ok(());
            }
            s.nontrivial = a[1] != <$T as Sc>::i(0);
            let x = cx(a);
            forms!(close, [k * a[0] / n, -(k * a[1]) / n], "real / complex", ca; k / x, k / &x, &k / x, &k / &x);
            Ok(())
        });
    )+};
}
fn main() {
    let mut suite = Suite::new("P25", "a component or scalar other than 0 and 1 was drawn; products: no component is zero; histories: at least three steps");
    suite.extremes = 8.0;
    suite.quick = 60_000;
    suite.thorough = 4_000_000;
    suite.assumptions = vec!["operands are chosen so that the primitive operation does not overflow"];
    subs!(suite, "arithmetic", 0.5, componentwise; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "products", 1.0, products; i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "wide products", 0.4, wide_products; i32, i64, i128, isize, f32, f64);
    subs!(suite, "reals", 2.0, reals; f32, f64);
    subs!(suite, "finite and not", 0.3, classes; f32, f64);
    subs!(suite, "history", 1.0, history; i64, f64);
    left!(suite; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    left_div!(suite; i8, i16, i32, i64, i128, isize, f32, f64);
    pbt::main(suite);
}
