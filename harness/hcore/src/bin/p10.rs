//! P10: vector and point arithmetic acts componentwise, in every form.
use hcore::*;
use pbt::{ck, Res, Src, Suite};

fn unsigned_ops<S: Sc, const N: usize>(s: &mut Src) -> Res {
    let (a, mut b) = (all::<S, N>(s), all::<S, N>(s));
    let (k, d) = (S::any(s), S::any(s));
    s.note("a", &a);
    s.note("b", &b);
    s.note("k, d", &(k, d));
    let zero = S::i(0);
    let orig = b;

    // sums
    for i in 0..N {
        if !S::can_add(a[i], b[i]) {
            b[i] = zero;
        }
    }
    let sum: [S; N] = std::array::from_fn(|i| a[i] + b[i]);
    let (x, y, px) = (v(a), v(b), p(a));
    forms!(same, sum, "vector + vector", va; x + y, x + &y, &x + y, &x + &y,
        { let mut z = x; z += y; z }, { let mut z = x; z += &y; z });
    forms!(same, sum, "point + vector", pa; px + y, px + &y, &px + y, &px + &y,
        { let mut z = px; z += y; z }, { let mut z = px; z += &y; z });

    // differences
    b = orig;
    for i in 0..N {
        if !S::can_sub(a[i], b[i]) {
            b[i] = zero;
        }
        if !S::can_sub(a[i], b[i]) {
            b[i] = a[i];
        }
    }
    let dif: [S; N] = std::array::from_fn(|i| a[i] - b[i]);
    let (y, py) = (v(b), p(b));
    forms!(same, dif, "vector - vector", va; x - y, x - &y, &x - y, &x - &y,
        { let mut z = x; z -= y; z }, { let mut z = x; z -= &y; z });
    forms!(same, dif, "point - vector", pa; px - y, px - &y, &px - y, &px - &y,
        { let mut z = px; z -= y; z }, { let mut z = px; z -= &y; z });
    forms!(same, dif, "point - point", va; px - py, px - &py, &px - py, &px - &py);

    // products with a scalar, componentwise products
    let mut am = a;
    for i in 0..N {
        if !S::can_mul(am[i], k) {
            am[i] = S::i(1);
        }
    }
    let (xm, pm) = (v(am), p(am));
    let prod: [S; N] = std::array::from_fn(|i| am[i] * k);
    forms!(same, prod, "vector * scalar", va; xm * k, &xm * k, { let mut z = xm; z *= k; z });
    forms!(same, prod, "point * scalar", pa; pm * k, &pm * k, { let mut z = pm; z *= k; z });
    b = orig;
    for i in 0..N {
        if !S::can_mul(a[i], b[i]) {
            b[i] = S::i(1);
        }
    }
    let cp: [S; N] = std::array::from_fn(|i| a[i] * b[i]);
    let y = v(b);
    forms!(same, cp, "component product", va; x.component_mul(&y), { let mut z = x; z.component_mul_assign(&y); z });

    // quotients and remainders
    if d != zero {
        let mut ad = a;
        for i in 0..N {
            if !S::can_div(ad[i], d) {
                ad[i] = S::i(1);
            }
        }
        let (xd, pd) = (v(ad), p(ad));
        let quo: [S; N] = std::array::from_fn(|i| ad[i] / d);
        forms!(close, quo, "vector / scalar", va; xd / d, &xd / d, { let mut z = xd; z /= d; z });
        forms!(close, quo, "point / scalar", pa; pd / d, &pd / d, { let mut z = pd; z /= d; z });
        let rem: [S; N] = std::array::from_fn(|i| ad[i] % d);
        forms!(same, rem, "vector % scalar", va; xd % d, &xd % d, { let mut z = xd; z %= d; z });
        forms!(same, rem, "point % scalar", pa; pd % d, &pd % d, { let mut z = pd; z %= d; z });
    }

    // constants, filling, mapping
    forms!(same, [zero; N], "zero", va; Vector::<S, N>::zero(), Vector::<S, N>::default());
    forms!(same, [zero; N], "origin", pa; Point::<S, N>::origin(), Point::<S, N>::default());
    forms!(same, [k; N], "filled vector", va; Vector::<S, N>::from_fill(k));
    forms!(same, [k; N], "filled point", pa; Point::<S, N>::from_fill(k));
    ck!(x.is_zero() == a.iter().all(|t| *t == zero), "is_zero of {a:?} is {}", x.is_zero());
    let mut seen = vec![];
    let m = x.map(|t| {
        seen.push(t);
        (t, 7u8)
    });
    ck!(seen.len() == N && (0..N).all(|i| S::same(seen[i], a[i])), "map of {a:?} visits {seen:?}");
    ck!((0..N).all(|i| S::same(m[i].0, a[i]) && m[i].1 == 7), "map of {a:?} gives {m:?}");
    let mut seen = vec![];
    let m = px.map(|t| {
        seen.push(t);
        (t, 7u8)
    });
    ck!(seen.len() == N && (0..N).all(|i| S::same(seen[i], a[i])), "map of the point {a:?} visits {seen:?}");
    ck!((0..N).all(|i| S::same(m[i].0, a[i]) && m[i].1 == 7), "map of the point {a:?} gives {m:?}");
    // a point and its position vector
    forms!(same, a, "point of a vector", pa; Point::from_vector(&x));
    forms!(same, a, "vector of a point", va; px.to_vector());
    // equality
    ck!((x == v(orig)) == (0..N).all(|i| a[i] == orig[i]), "{a:?} == {orig:?} is {}", x == v(orig));
    ck!((px == p(orig)) == (0..N).all(|i| a[i] == orig[i]), "points {a:?} == {orig:?} is {}", px == p(orig));
    Ok(())
}

fn signed_ops<S: Sc + SimdScalarSigned, const N: usize>(s: &mut Src) -> Res {
    let mut a = all::<S, N>(s);
    let zero = S::i(0);
    for i in 0..N {
        if !S::can_sub(zero, a[i]) {
            a[i] = zero;
        }
    }
    s.note("a", &a);
    let neg: [S; N] = a.map(|t| -t);
    let (x, px) = (v(a), p(a));
    forms!(same, neg, "negated vector", va; -x, -&x, { let mut z = x; z.neg_mut(); z });
    forms!(same, neg, "negated point", pa; -px, -&px);
    Ok(())
}

fn float_ops<S: F, const N: usize>(s: &mut Src) -> Res {
    let (a, b) = (all::<S, N>(s), all::<S, N>(s));
    s.note("a", &a);
    s.note("b", &b);
    let (x, y) = (v(a), v(b));
    let (mn, mx) = (va(&x.component_min(&y)), va(&x.component_max(&y)));
    for i in 0..N {
        let (wn, wx) = (SimdScalarOrd::min(a[i], b[i]), SimdScalarOrd::max(a[i], b[i]));
        ck!(S::same(mn[i], wn), "component_min of {a:?} and {b:?} is {mn:?}");
        ck!(S::same(mx[i], wx), "component_max of {a:?} and {b:?} is {mx:?}");
        if a[i] < b[i] {
            ck!(mn[i] == a[i] && mx[i] == b[i], "component_min and component_max of {a:?} and {b:?} are {mn:?} and {mx:?}");
        }
    }
    ck!(
        x.is_finite() == a.iter().all(|t| t.f().is_finite()),
        "is_finite of {a:?} is {}",
        x.is_finite()
    );
    // the direction wrapper
    let u = s.unit_vec::<N>();
    let (u, up) = (Unit::from_value(vf::<S, N>(u)), Unit::from_value(pf::<S, N>(u)));
    let want = va(&u.into_inner()).map(|t| -t);
    forms!(same, want, "negated unit vector", va; (-u).into_inner(), (-&u).into_inner());
    let want = pa(&up.into_inner()).map(|t| -t);
    forms!(same, want, "negated unit point", pa; (-up).into_inner(), (-&up).into_inner());
    Ok(())
}

/// A history of in-place and by-value operations on one vector and one point,
/// against plain arrays.
fn history<S: Sc, const N: usize>(s: &mut Src) -> Res {
    let mut m: [S; N] = s.arr(|s| S::small(s));
    let (mut x, mut q) = (v(m), p(m));
    let steps = 1 + s.below(12);
    s.nontrivial = steps > 2;
    s.note("start", &m);
    for n in 0..steps {
        let b: [S; N] = s.arr(|s| S::small(s));
        let k = S::small(s);
        let op = s.below(9);
        s.note("step", &(op, b, k));
        let fits = |f: &dyn Fn(usize) -> bool| (0..N).all(|i| f(i));
        match op {
            0 if fits(&|i| S::can_add(m[i], b[i])) => {
                x += v(b);
                q += v(b);
                for i in 0..N {
                    m[i] = m[i] + b[i];
                }
            }
            1 if fits(&|i| S::can_sub(m[i], b[i])) => {
                x -= v(b);
                q -= v(b);
                for i in 0..N {
                    m[i] = m[i] - b[i];
                }
            }
            2 if fits(&|i| S::can_mul(m[i], k)) => {
                x *= k;
                q *= k;
                for i in 0..N {
                    m[i] = m[i] * k;
                }
            }
            3 if k != S::i(0) && !S::FLOAT && fits(&|i| S::can_div(m[i], k)) => {
                x /= k;
                q /= k;
                for i in 0..N {
                    m[i] = m[i] / k;
                }
            }
            4 if k != S::i(0) && fits(&|i| S::can_div(m[i], k)) => {
                x %= k;
                q %= k;
                for i in 0..N {
                    m[i] = m[i] % k;
                }
            }
            5 if fits(&|i| S::can_mul(m[i], b[i])) => {
                x.component_mul_assign(&v(b));
                q = Point::from_vector(&q.to_vector().component_mul(&v(b)));
                for i in 0..N {
                    m[i] = m[i] * b[i];
                }
            }
            6 => {
                let i = s.below(N);
                x[i] = b[i];
                q[i] = b[i];
                m[i] = b[i];
            }
            7 if fits(&|i| S::can_sub(m[i], b[i])) => {
                x = &x - &v(b);
                q = &q - &v(b);
                for i in 0..N {
                    m[i] = m[i] - b[i];
                }
            }
            8 if fits(&|i| S::can_add(m[i], b[i])) => {
                x = &x + v(b);
                q = q + &v(b);
                for i in 0..N {
                    m[i] = m[i] + b[i];
                }
            }
            _ => {}
        }
        ck!(same(va(&x), m), "after step {n} (operation {op}) the vector is {x:?}, expected {m:?}");
        ck!(same(pa(&q), m), "after step {n} (operation {op}) the point is {q:?}, expected {m:?}");
    }
    Ok(())
}

macro_rules! left {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("scalar on the left ", stringify!($T)), 0.5, |s: &mut Src| -> Res {
            fn go<const N: usize>(s: &mut Src) -> Res {
                let mut a = all::<$T, N>(s);
                let k = <$T as Sc>::any(s);
                for i in 0..N {
                    if !Sc::can_mul(a[i], k) {
                        a[i] = 1 as $T;
                    }
                }
                s.note("k", &k);
                s.note("a", &a);
                let want: [$T; N] = a.map(|t| k * t);
                let (x, px) = (v(a), p(a));
                forms!(same, want, "scalar * vector", va; k * x, k * &x, &k * x, &k * &x);
                forms!(same, want, "scalar * point", pa; k * px, &k * px);
                Ok(())
            }
            match s.below(6) {
                0 => go::<1>(s),
                1 => go::<2>(s),
                2 => go::<3>(s),
                3 => go::<4>(s),
                _ => go::<5>(s),
            }
        });
    )+};
}
macro_rules! dims {
    ($suite:ident, $name:expr, $w:expr, $f:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!($name, " ", stringify!($T)), $w, |s: &mut Src| -> Res {
            match s.below(9) {
                0 => $f::<$T, 1>(s),
                1 => $f::<$T, 2>(s),
                2 => $f::<$T, 3>(s),
                3 => $f::<$T, 4>(s),
                4 => $f::<$T, 5>(s),
                5 => $f::<$T, 6>(s),
                6 => $f::<$T, 7>(s),
                7 => $f::<$T, 8>(s),
                _ => $f::<$T, 9>(s),
            }
        });
    )+};
}

fn main() {
    let mut suite = Suite::new("P10", "an operand component or scalar other than 0 and 1 was drawn; histories: at least three steps");
    suite.quick = 60_000;
    suite.thorough = 4_000_000;
    suite.assumptions = vec!["operands are chosen so that the primitive operation does not overflow"];
    dims!(suite, "arithmetic", 1.0, unsigned_ops; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    dims!(suite, "negation", 0.3, signed_ops; i8, i16, i32, i64, i128, isize, f32, f64);
    dims!(suite, "min, max, finiteness", 0.5, float_ops; f32, f64);
    dims!(suite, "history", 0.5, history; u8, i8, u32, i32, i64, u64, f32, f64);
    left!(suite; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    pbt::main(suite);
}
