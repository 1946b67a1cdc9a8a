//! P22: quaternions form the skew field of Hamilton, in every form of the operators.
use hcore::*;
use pbt::kit::{dot, norm, scale, sub, E};
use pbt::{ck, ck_e, ck_vec, Res, Src, Suite};

/// the product of quaternions (s, x, y, z)
fn ham<T: Copy + std::ops::Mul<Output = T> + std::ops::Add<Output = T> + std::ops::Sub<Output = T>>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn conj(a: [f64; 4]) -> [f64; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}

fn componentwise<S: Sc>(s: &mut Src) -> Res {
    let (a, mut b) = (all::<S, 4>(s), all::<S, 4>(s));
    let (k, d) = (S::any(s), S::any(s));
    s.note("a, b", &(a, b));
    s.note("k, d", &(k, d));
    let zero = S::i(0);
    let one = S::i(1);
    let orig = b;
    for i in 0..4 {
        if !S::can_add(a[i], b[i]) {
            b[i] = zero;
        }
    }
    let (x, y) = (q(a), q(b));
    let w: [S; 4] = std::array::from_fn(|i| a[i] + b[i]);
    forms!(same, w, "quaternion + quaternion", qa; x + y, x + &y, &x + y, &x + &y,
        { let mut z = x; z += y; z }, { let mut z = x; z += &y; z });
    b = orig;
    for i in 0..4 {
        if !S::can_sub(a[i], b[i]) {
            b[i] = zero;
        }
        if !S::can_sub(a[i], b[i]) {
            b[i] = a[i];
        }
    }
    let y = q(b);
    let w: [S; 4] = std::array::from_fn(|i| a[i] - b[i]);
    forms!(same, w, "quaternion - quaternion", qa; x - y, x - &y, &x - y, &x - &y,
        { let mut z = x; z -= y; z }, { let mut z = x; z -= &y; z });
    let mut m = a;
    for i in 0..4 {
        if !S::can_mul(m[i], k) {
            m[i] = one;
        }
    }
    let xm = q(m);
    let w: [S; 4] = m.map(|t| t * k);
    forms!(same, w, "quaternion * scalar", qa; xm * k, &xm * k, xm * &k, &xm * &k, { let mut z = xm; z *= k; z });
    if d != zero {
        let mut m = a;
        for i in 0..4 {
            if !S::can_div(m[i], d) {
                m[i] = one;
            }
        }
        let xd = q(m);
        let w: [S; 4] = m.map(|t| t / d);
        forms!(close, w, "quaternion / scalar", qa; xd / d, &xd / d, xd / &d, &xd / &d, { let mut z = xd; z /= d; z });
        let w: [S; 4] = m.map(|t| t % d);
        forms!(same, w, "quaternion % scalar", qa; xd % d, &xd % d, xd % &d, &xd % &d, { let mut z = xd; z %= d; z });
    }
    forms!(same, [zero; 4], "zero", qa; Quaternion::<S>::zero(), Quaternion::<S>::default());
    forms!(same, [one, zero, zero, zero], "identity", qa; Quaternion::<S>::identity(), Quaternion::<S>::one());
    ck!(x.is_zero() == (a == [zero; 4]), "is_zero of {a:?} is {}", x.is_zero());
    ck!(x.is_pure() == (a[0] == zero), "is_pure of {a:?} is {}", x.is_pure());
    ck!(x.is_real() == (a[1..] == [zero; 3]), "is_real of {a:?} is {}", x.is_real());
    for c in [a, [one, zero, zero, zero], [zero, one, zero, zero], [one, zero, zero, k], [one, k, zero, zero], [one, zero, k, zero], [k, zero, zero, zero]] {
        ck!(q(c).is_identity() == (c == [one, zero, zero, zero]), "is_identity of {c:?} is {}", q(c).is_identity());
        ck!(q(c).is_real() == (c[1..] == [zero; 3]), "is_real of {c:?} is {}", q(c).is_real());
    }
    ck!((x == q(orig)) == (0..4).all(|i| a[i] == orig[i]), "{a:?} == {orig:?} is {}", x == q(orig));
    Ok(())
}
/// exact products of small integers, signed types
fn products<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let (mut a, mut b, mut c): ([S; 4], [S; 4], [S; 4]) = (s.arr(|s| S::small(s)), s.arr(|s| S::small(s)), s.arr(|s| S::small(s)));
    if S::N == "i8" {
        // products of products have to fit
        let t = |x: [S; 4]| x.map(|v| if v == S::i(0) || v == S::i(1) || v == S::i(2) || v == S::i(-1) { v } else { S::i(-2) });
        (a, b, c) = (t(a), t(b), t(c));
    }
    if S::N == "i16" {
        let t = |x: [S; 4]| x.map(|v| v % S::i(9));
        (a, b, c) = (t(a), t(b), t(c));
    }
    s.nontrivial = a.iter().filter(|x| **x != S::i(0)).count() >= 2 && b.iter().filter(|x| **x != S::i(0)).count() >= 2;
    s.note("a, b, c", &(a, b, c));
    let (x, y, z) = (q(a), q(b), q(c));
    let zero = S::i(0);
    let w = ham(a, b);
    forms!(same, w, "product", qa; x * y, x * &y, &x * y, &x * &y);
    let w = ham(b, a);
    forms!(same, w, "product the other way", qa; y * x, y * &x, &y * x, &y * &x);
    let w = ham(a, a);
    forms!(same, w, "square", qa; x.squared(), x * x);
    let w = a.map(|t| -t);
    forms!(same, w, "negated", qa; -x, -&x);
    let w = [a[0], -a[1], -a[2], -a[3]];
    forms!(same, w, "conjugate", qa; x.conjugate(), { let mut t = x; t.conjugate_mut(); t });
    let d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    ck!(x.dot(&y) == d, "dot product of {a:?} and {b:?} is {:?}, expected {d:?}", x.dot(&y));
    let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    for (g, f) in [(x.norm_squared(), "norm_squared"), (x.magnitude_squared(), "magnitude_squared"), (x.modulus_squared(), "modulus_squared")] {
        ck!(g == n, "{f} of {a:?} is {g:?}, expected {n:?}");
    }
    let e: [S; 4] = std::array::from_fn(|i| a[i] - b[i]);
    if S::N != "i8" {
        let n = e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3];
        ck!(x.metric_distance_squared(&y) == n, "squared distance of {a:?} and {b:?} is {:?}, expected {n:?}", x.metric_distance_squared(&y));
    }
    let n = a.iter().fold(zero, |m, t| m + if *t < zero { -*t } else { *t });
    ck!(x.l1_norm() == n, "L1 norm of {a:?} is {:?}, expected {n:?}", x.l1_norm());
    // laws
    let (xy, yz) = (x * y, y * z);
    ck!(xy * z == x * yz, "({a:?} {b:?}) {c:?} = {:?} but {a:?} ({b:?} {c:?}) = {:?}", xy * z, x * yz);
    ck!(x * (y + z) == xy + x * z, "left distributivity fails for {a:?}, {b:?}, {c:?}");
    ck!((y + z) * x == y * x + z * x, "right distributivity fails for {a:?}, {b:?}, {c:?}");
    ck!((xy).conjugate() == y.conjugate() * x.conjugate(), "the conjugate of a product of {a:?} and {b:?} is not the product of conjugates");
    ck!(x * x.conjugate() == Quaternion::from_real(x.norm_squared()), "{a:?} times its conjugate is {:?}", x * x.conjugate());
    let i = Quaternion::<S>::identity();
    ck!(i * x == x && x * i == x, "the identity times {a:?} is {:?} and {:?}", i * x, x * i);
    ck!(qa(&Quaternion::from_real(a[0])) == [a[0], zero, zero, zero], "from_real({:?}) is {:?}", a[0], Quaternion::from_real(a[0]));
    ck!(qa(&Quaternion::from_pure(v([a[1], a[2], a[3]]))) == [zero, a[1], a[2], a[3]], "from_pure of {a:?} is {:?}", Quaternion::from_pure(v([a[1], a[2], a[3]])));
    Ok(())
}
/// exact products of large integers
fn wide_products<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let (a, b): ([S; 4], [S; 4]) = (s.arr(|s| S::wide(s)), s.arr(|s| S::wide(s)));
    s.note("a, b", &(a, b));
    let (x, y) = (q(a), q(b));
    forms!(same, ham(a, b), "product", qa; x * y, x * &y, &x * y, &x * &y);
    forms!(same, ham(a, a), "square", qa; x.squared());
    let k = b[0];
    forms!(same, a.map(|t| t * k), "product with a number", qa; x * k, &x * k, { let mut t = x; t *= k; t });
    let dot = |a: [S; 4], b: [S; 4]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    ck!(x.dot(&y) == dot(a, b), "dot product of {a:?} and {b:?} is {:?}, expected {:?}", x.dot(&y), dot(a, b));
    for (g, f) in [(x.norm_squared(), "norm_squared"), (x.magnitude_squared(), "magnitude_squared"), (x.modulus_squared(), "modulus_squared")] {
        ck!(g == dot(a, a), "{f} of {a:?} is {g:?}, expected {:?}", dot(a, a));
    }
    let e: [S; 4] = std::array::from_fn(|i| a[i] - b[i]);
    if S::N != "i8" && S::N != "i16" {
        ck!(x.metric_distance_squared(&y) == dot(e, e), "squared distance of {a:?} and {b:?} is {:?}, expected {:?}", x.metric_distance_squared(&y), dot(e, e));
    }
    Ok(())
}
/// products, quotients and projections of reals
fn reals<S: F>(s: &mut Src) -> Res {
    let (a, b) = (rnd::<S, 4>(s.rvec()), rnd::<S, 4>(s.rvec()));
    s.note("a, b", &(a, b));
    let (x, y) = (qf::<S>(a), qf::<S>(b));
    let e = |a: [f64; 4]| a.map(E::of);
    let near = |g: Quaternion<S>, w: [E; 4], c: f64, what: &str| -> Res {
        for i in 0..4 {
            ck_e!(g[i], w[i], c, "{what} of {a:?} and {b:?}, component {i}");
        }
        Ok(())
    };
    let (ab, ba) = (ham(e(a), e(b)), ham(e(b), e(a)));
    for g in [x * y, x * &y, &x * y, &x * &y] {
        near(g, ab, 8.0, "product")?;
    }
    near(x.squared(), ham(e(a), e(a)), 8.0, "square")?;
    let h = E { v: 0.5, m: 0.5 };
    near(x.half(), e(a).map(|t| t * h), 2.0, "half")?;
    near(x.inner(&y), std::array::from_fn(|i| (ab[i] + ba[i]) * h), 12.0, "inner product")?;
    near(x.outer(&y), std::array::from_fn(|i| (ab[i] - ba[i]) * h), 12.0, "outer product")?;
    let d: E = (0..4).fold(E::zero(), |m, i| m + e(a)[i] * e(b)[i]);
    ck_e!(x.dot(&y), d, 8.0, "dot product of {a:?} and {b:?}");
    let (na, nb) = (norm(&a), norm(&b));
    for (g, f) in [(x.norm(), "norm"), (x.magnitude(), "magnitude"), (x.modulus(), "modulus"), (x.l2_norm(), "l2_norm")] {
        ck!((g.f() - na).abs() <= 8.0 * S::EPS * na, "{f} of {a:?} is {g:?}, expected {na}");
    }
    // |ab| = |a||b|
    ck!(((x * y).norm().f() - na * nb).abs() <= 32.0 * S::EPS * na * nb, "norm of the product of {a:?} and {b:?} is {:?}, the product of norms {}", (x * y).norm(), na * nb);
    let t = s.between(-0.5, 1.5);
    let t = S::of(t);
    let w = |i: usize| E::of(a[i]) + (E::of(b[i]) - E::of(a[i])) * E::of(t.f());
    near(x.lerp(&y, t), std::array::from_fn(w), 8.0, "linear interpolation")?;
    ck!(x.is_finite(), "{a:?} is not finite");
    if nb > 1e-2 {
        let w = scale(b, dot(&a, &b) / dot(&b, &b));
        let tol = 32.0 * S::EPS * na;
        ck_vec!(f_q(&x.project(&y)), w, tol, "projection of {a:?} onto {b:?}");
        ck_vec!(f_q(&x.reject(&y)), sub(a, w), tol, "rejection of {a:?} from {b:?}");
    }
    Ok(())
}
fn inverses<S: F>(s: &mut Src) -> Res {
    // over many orders of magnitude, zero included
    let u = rnd::<S, 4>(s.unit_vec());
    let k = match s.draw(7) {
        0 => 0.0,
        1 => 1.0,
        2 => s.between(1e-3, 10.0),
        3 => s.int(100) as f64,
        _ => 10f64.powf(s.between(if S::EPS > 1e-10 { -12.0 } else { -25.0 }, if S::EPS > 1e-10 { 12.0 } else { 60.0 })),
    };
    let b = rnd::<S, 4>(scale(u, k));
    let a = rnd::<S, 4>(s.rvec());
    s.note("a, b", &(a, b));
    s.nontrivial = k != 0.0 && k != 1.0;
    let (x, y) = (qf::<S>(a), qf::<S>(b));
    let n = norm(&b);
    let inv = y.try_inverse();
    if n >= 2.0 * S::EPS {
        ck!(inv.is_some(), "{b:?} of norm {n} has no inverse");
        ck!(y.is_invertible(), "{b:?} of norm {n} is not invertible");
    }
    if n == 0.0 {
        ck!(!y.is_invertible() && inv.is_none(), "zero is invertible, with inverse {inv:?}");
    }
    if n < 1e-300 || (n * n) < 1e-36 && S::EPS > 1e-10 {
        // the square of the norm has underflowed or is about to
        return Ok(());
    }
    let (dl, dr) = (x.div_left(&y), x.div_right(&y));
    ck!(dl.is_some() == inv.is_some() && dr.is_some() == inv.is_some(), "{b:?} has inverse {inv:?} but quotients by it are {dl:?} and {dr:?}");
    if let Some(i) = inv {
        let w = scale(conj(b), 1.0 / (n * n));
        let tol = 16.0 * S::EPS / n;
        ck_vec!(f_q(&i), w, tol, "inverse of {b:?}");
        ck_vec!(f_q(&y.inverse()), w, tol, "inverse() of {b:?}");
        let one = [1.0, 0.0, 0.0, 0.0];
        ck_vec!(f_q(&(i * y)), one, 32.0 * S::EPS, "inverse of {b:?} times itself");
        ck_vec!(f_q(&(y * i)), one, 32.0 * S::EPS, "{b:?} times its inverse");
        let tol = 64.0 * S::EPS * norm(&a) / n;
        ck_vec!(f_q(&dl.unwrap()), ham(w, a), tol, "{a:?} divided on the left by {b:?}");
        ck_vec!(f_q(&dr.unwrap()), ham(a, w), tol, "{a:?} divided on the right by {b:?}");
        ck_vec!(f_q(&(y * dl.unwrap())), a, 128.0 * S::EPS * norm(&a), "{b:?} times the left quotient of {a:?} by it");
        ck_vec!(f_q(&(dr.unwrap() * y)), a, 128.0 * S::EPS * norm(&a), "the right quotient of {a:?} by {b:?}, times the latter");
    }
    Ok(())
}
fn units<S: F>(s: &mut Src) -> Res {
    let a = rnd::<S, 4>(s.rvec_nz(1e-2));
    let u = Unit::from_value(qf::<S>(a));
    let w = qa(u.as_ref()).map(|t| -t);
    forms!(same, w, "negated unit quaternion", qa; (-u).into_inner(), (-&u).into_inner());
    let x = all::<S, 4>(s);
    ck!(q(x).is_finite() == x.iter().all(|t| t.f().is_finite()), "is_finite of {x:?} is {}", q(x).is_finite());
    Ok(())
}
/// a history of operations on one quaternion
fn history<S: Sc + SimdScalarSigned>(s: &mut Src) -> Res {
    let mut m: [S; 4] = s.arr(|s| S::small(s));
    let mut x = q(m);
    let steps = 1 + s.below(10);
    s.nontrivial = steps > 2;
    s.note("start", &m);
    let big = |m: &[S; 4], lim: i64| m.iter().any(|t| *t > S::i(lim) || *t < S::i(-lim));
    for n in 0..steps {
        let b: [S; 4] = s.arr(|s| S::small(s));
        let op = s.below(8);
        s.note("step", &(op, b));
        if big(&m, if S::FLOAT { 10_000 } else { 1 << 18 }) {
            m = m.map(|t| t % S::i(1000));
            x %= S::i(1000);
        }
        match op {
            0 => {
                x += q(b);
                m = std::array::from_fn(|i| m[i] + b[i]);
            }
            1 => {
                x -= &q(b);
                m = std::array::from_fn(|i| m[i] - b[i]);
            }
            2 => {
                x *= b[0];
                m = m.map(|t| t * b[0]);
            }
            3 => {
                x = x * q(b);
                m = ham(m, b);
            }
            4 => {
                x = &q(b) * &x;
                m = ham(b, m);
            }
            5 => {
                x.conjugate_mut();
                m = [m[0], -m[1], -m[2], -m[3]];
            }
            6 if b[1] != S::i(0) => {
                x %= b[1];
                m = m.map(|t| t % b[1]);
            }
            7 => {
                x = -x;
                m = m.map(|t| -t);
            }
            _ => {}
        }
        ck!(same(qa(&x), m), "after step {n} (operation {op}) the quaternion is {x:?}, expected {m:?}");
    }
    Ok(())
}
macro_rules! left {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("scalar on the left ", stringify!($T)), 0.3, |s: &mut Src| -> Res {
            let mut a = all::<$T, 4>(s);
            let k = <$T as Sc>::any(s);
            for i in 0..4 {
                if !Sc::can_mul(a[i], k) {
                    a[i] = 1 as $T;
                }
            }
            s.note("k, a", &(k, a));
            let x = q(a);
            forms!(same, a.map(|t| k * t), "scalar * quaternion", qa; k * x, k * &x, &k * x, &k * &x);
            Ok(())
        });
    )+};
}
fn main() {
    let mut suite = Suite::new("P22", "a component or scalar other than 0 and 1 was drawn; products: both factors have two non-zero components; histories: at least three steps");
    suite.extremes = 4.0;
    suite.quick = 60_000;
    suite.thorough = 4_000_000;
    suite.assumptions = vec!["operands are chosen so that the primitive operation does not overflow"];
    subs!(suite, "arithmetic", 0.5, componentwise; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "products", 1.0, products; i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "wide products", 0.4, wide_products; i32, i64, i128, isize, f32, f64);
    subs!(suite, "reals", 2.0, reals; f32, f64);
    subs!(suite, "inverses", 2.0, inverses; f32, f64);
    subs!(suite, "unit quaternions", 0.2, units; f32, f64);
    subs!(suite, "history", 1.0, history; i64, f64);
    left!(suite; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    pbt::main(suite);
}
