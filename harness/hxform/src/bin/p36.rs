//! P36: quaternions, complex numbers and Euler angles keep their components through every view.
use hxform::*;
use pbt::{ck, ck_eq, Res, Src, Suite};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
fn gen<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    if s.one_in(4) {
        return s.arr(|s| held::<S>(s));
    }
    // distinct values in any order
    let k = s.draw(90) as i64;
    let mut all: Vec<i64> = (0..N as i64).map(|i| k + i).collect();
    for i in (1..N).rev() {
        let j = s.below(i + 1);
        all.swap(i, j);
    }
    s.nontrivial = true;
    std::array::from_fn(|i| S::i(all[i]))
}
fn read_q<S: Sc>(x: &Quaternion<S>, a: [S; 4]) -> Res {
    let t = (a[0], a[1], a[2], a[3]);
    ck_eq!((x.scalar(), va(&x.vector())), (a[0], [a[1], a[2], a[3]]), "scalar and vector part");
    ck_eq!((x.s, va(&x.v)), (a[0], [a[1], a[2], a[3]]), "fields s and v");
    ck_eq!((x.v.x, x.v.y, x.v.z), (a[1], a[2], a[3]), "fields of v");
    ck_eq!(*AsRef::<[S; 4]>::as_ref(x), a, "as an array");
    ck_eq!(*AsRef::<(S, S, S, S)>::as_ref(x), t, "as a tuple");
    ck_eq!(x.as_slice(), &a[..], "as a slice");
    ck_eq!(&x[..], &a[..], "full range");
    for i in 0..4 {
        ck_eq!(x[i], a[i], "index {i}");
        ck_eq!(unsafe { *x.as_ptr().add(i) }, a[i], "pointer plus {i}");
        ck_eq!(&x[i..], &a[i..], "range from {i}");
        ck_eq!(&x[..i], &a[..i], "range to {i}");
        for j in i..5 {
            ck_eq!(&x[i..j], &a[i..j], "range {i}..{j}");
        }
    }
    ck!(*x == Quaternion::new(a[0], a[1], a[2], a[3]), "{x:?} does not equal the quaternion of {a:?}");
    Ok(())
}
fn quaternions<S: Sc>(s: &mut Src) -> Res {
    let mut a: [S; 4] = gen(s);
    s.note("components", &a);
    let t = (a[0], a[1], a[2], a[3]);
    let (one, zero) = (S::i(1), S::i(0));
    for (what, x) in [("new", Quaternion::new(a[0], a[1], a[2], a[3])), ("from_parts", Quaternion::from_parts(a[0], v([a[1], a[2], a[3]]))),
        ("from_vector", Quaternion::from_vector(v(a))), ("from an array", Quaternion::from(a)), ("from a tuple", Quaternion::from(t)),
        ("from an array reference", Quaternion::from(&a)), ("from a tuple reference", Quaternion::from(&t)),
        ("viewed in an array", *<&Quaternion<S>>::from(&a)), ("viewed in a tuple", *<&Quaternion<S>>::from(&t)),
        ("from real and pure parts", Quaternion::from_real(a[0]) + Quaternion::from_pure(v([a[1], a[2], a[3]])))] {
        read_q(&x, a).map_err(|e| format!("{what}: {e}"))?;
    }
    for (what, x, w) in [("from_fill", Quaternion::from_fill(a[0]), [a[0]; 4]), ("from_real", Quaternion::from_real(a[0]), [a[0], zero, zero, zero]),
        ("from_pure", Quaternion::from_pure(v([a[1], a[2], a[3]])), [zero, a[1], a[2], a[3]]), ("zero", Quaternion::zero(), [zero; 4]),
        ("default", Quaternion::default(), [zero; 4]), ("identity", Quaternion::identity(), [one, zero, zero, zero]), ("one", Quaternion::one(), [one, zero, zero, zero]),
        ("unit_s", Quaternion::unit_s(), [one, zero, zero, zero]), ("unit_x", Quaternion::unit_x(), [zero, one, zero, zero]),
        ("unit_y", Quaternion::unit_y(), [zero, zero, one, zero]), ("unit_z", Quaternion::unit_z(), [zero, zero, zero, one])] {
        read_q(&x, w).map_err(|e| format!("{what}: {e}"))?;
    }
    let b: [S; 4] = s.arr(|s| if s.coin() { zero } else if s.coin() { one } else { held::<S>(s) });
    let y = q(b);
    ck_eq!(y.is_zero(), b == [zero; 4], "is_zero of {b:?}");
    ck_eq!(y.is_identity(), b == [one, zero, zero, zero], "is_identity of {b:?}");
    ck_eq!(y.is_real(), b[1..] == [zero; 3], "is_real of {b:?}");
    ck_eq!(y.is_pure(), b[0] == zero, "is_pure of {b:?}");
    let mut x = q(a);
    ck_eq!((x.len(), x.is_empty(), x.shape()), (4, false, (4, 1)), "len, is_empty, shape");
    ck_eq!((size_of::<Quaternion<S>>(), align_of::<Quaternion<S>>()), (4 * size_of::<S>(), align_of::<S>()), "size and alignment");
    let mut seen = vec![];
    let m = x.map(|c| { seen.push(c); (c, 7u8) });
    ck_eq!(seen, a.to_vec(), "order of map");
    ck_eq!(*AsRef::<[(S, u8); 4]>::as_ref(&m), a.map(|c| (c, 7u8)), "results of map");
    if s.one_in(200) {
        refused!(s, x, 4, one, "a quaternion");
    }
    // writes through the views
    let steps = 1 + s.below(8);
    for _ in 0..steps {
        let i = s.below(4);
        let c: S = held::<S>(s);
        let before = a;
        let how = s.draw(11);
        match how {
            0 => x[i] = c,
            1 => AsMut::<[S; 4]>::as_mut(&mut x)[i] = c,
            2 => {
                let t = AsMut::<(S, S, S, S)>::as_mut(&mut x);
                *[&mut t.0, &mut t.1, &mut t.2, &mut t.3][i] = c;
            }
            3 => unsafe { *x.as_mut_ptr().add(i) = c },
            4 => x[i..][0] = c,
            5 => x[..i + 1][i] = c,
            6 => x[..][i] = c,
            7 => x[i..i + 1][0] = c,
            8 => match i {
                0 => x.s = c,
                1 => x.v.x = c,
                2 => x.v.y = c,
                _ => x.v.z = c,
            },
            9 => if i == 0 { x.s = c } else { x.v[i - 1] = c },
            10 => {
                x.v = v([c; 3]);
                a = [a[0], c, c, c];
            }
            _ => {
                x[1..3][1] = c;
                a[2] = c;
            }
        }
        if how < 10 {
            a[i] = c;
        }
        read_q(&x, a).map_err(|e| format!("after writing {c:?} at {i} of {before:?} (way {how}): {e}"))?;
    }
    Ok(())
}
fn vectors<S: F>(s: &mut Src) -> Res {
    let a: [S; 4] = gen(s);
    read_q(&Quaternion::from(v(a)), a).map_err(|e| format!("from a vector: {e}"))?;
    read_q(&Quaternion::from(&v(a)), a).map_err(|e| format!("from a vector reference: {e}"))
}
fn read_c<S: Sc>(x: &Complex<S>, a: [S; 2]) -> Res {
    ck_eq!((x.re, x.im, x.real(), x.imaginary()), (a[0], a[1], a[0], a[1]), "parts");
    ck_eq!(*AsRef::<[S; 2]>::as_ref(x), a, "as an array");
    ck_eq!(*AsRef::<(S, S)>::as_ref(x), (a[0], a[1]), "as a tuple");
    ck_eq!(x.as_slice(), &a[..], "as a slice");
    ck_eq!(&x[..], &a[..], "full range");
    for i in 0..2 {
        ck_eq!(x[i], a[i], "index {i}");
        ck_eq!(unsafe { *x.as_ptr().add(i) }, a[i], "pointer plus {i}");
        ck_eq!(&x[i..], &a[i..], "range from {i}");
        ck_eq!(&x[..i], &a[..i], "range to {i}");
        for j in i..3 {
            ck_eq!(&x[i..j], &a[i..j], "range {i}..{j}");
        }
    }
    ck!(*x == Complex::new(a[0], a[1]), "{x:?} does not equal the complex number of {a:?}");
    Ok(())
}
fn complexes<S: Sc>(s: &mut Src) -> Res {
    let mut a: [S; 2] = gen(s);
    s.note("parts", &a);
    let t = (a[0], a[1]);
    let (one, zero) = (S::i(1), S::i(0));
    for (what, x) in [("new", Complex::new(a[0], a[1])), ("from an array", Complex::from(a)), ("from a tuple", Complex::from(t)), ("from an array reference", Complex::from(&a)),
        ("from a tuple reference", Complex::from(&t)), ("viewed in an array", *<&Complex<S>>::from(&a)), ("viewed in a tuple", *<&Complex<S>>::from(&t))] {
        read_c(&x, a).map_err(|e| format!("{what}: {e}"))?;
    }
    for (what, x, w) in [("from a scalar", Complex::from(a[0]), [a[0], zero]), ("from a scalar reference", Complex::from(&a[0]), [a[0], zero]), ("from_real", Complex::from_real(a[0]), [a[0], zero]),
        ("from_imaginary", Complex::from_imaginary(a[0]), [zero, a[0]]), ("zero", Complex::zero(), [zero; 2]), ("default", Complex::default(), [zero; 2]), ("identity", Complex::identity(), [one, zero]),
        ("one", Complex::one(), [one, zero]), ("unit_re", Complex::unit_re(), [one, zero]), ("unit_im", Complex::unit_im(), [zero, one])] {
        read_c(&x, w).map_err(|e| format!("{what}: {e}"))?;
    }
    let b: [S; 2] = s.arr(|s| if s.coin() { zero } else if s.coin() { one } else { held::<S>(s) });
    let y = cx(b);
    ck_eq!(y.is_zero(), b == [zero; 2], "is_zero of {b:?}");
    ck_eq!((y.is_identity(), y.is_one()), (b == [one, zero], b == [one, zero]), "is_identity, is_one of {b:?}");
    ck_eq!((y.is_real(), y.is_imaginary()), (b[1] == zero, b[0] == zero), "is_real, is_imaginary of {b:?}");
    let mut x = cx(a);
    ck_eq!((x.len(), x.is_empty(), x.shape()), (2, false, (2, 1)), "len, is_empty, shape");
    ck_eq!((size_of::<Complex<S>>(), align_of::<Complex<S>>()), (2 * size_of::<S>(), align_of::<S>()), "size and alignment");
    let mut seen = vec![];
    let m = x.map(|c| { seen.push(c); (c, 7u8) });
    ck_eq!(seen, a.to_vec(), "order of map");
    ck_eq!((m.re, m.im), ((a[0], 7u8), (a[1], 7u8)), "results of map");
    if s.one_in(200) {
        refused!(s, x, 2, one, "a complex number");
    }
    let steps = 1 + s.below(6);
    for _ in 0..steps {
        let i = s.below(2);
        let c: S = held::<S>(s);
        let before = a;
        let how = s.draw(8);
        match how {
            0 => x[i] = c,
            1 => AsMut::<[S; 2]>::as_mut(&mut x)[i] = c,
            2 => {
                let t = AsMut::<(S, S)>::as_mut(&mut x);
                *[&mut t.0, &mut t.1][i] = c;
            }
            3 => unsafe { *x.as_mut_ptr().add(i) = c },
            4 => x[i..][0] = c,
            5 => x[..i + 1][i] = c,
            6 => x[..][i] = c,
            7 => x[i..i + 1][0] = c,
            _ => if i == 0 { x.re = c } else { x.im = c },
        }
        a[i] = c;
        read_c(&x, a).map_err(|e| format!("after writing {c:?} at {i} of {before:?} (way {how}): {e}"))?;
    }
    Ok(())
}
/// Equality and hashing agree with the components, for every container.
fn equality<S: Sc + Eq + Hash>(s: &mut Src) -> Res {
    let a: [S; 16] = s.arr(|s| held::<S>(s));
    let mut b = a;
    if s.coin() {
        let i = s.below(16);
        b[i] = held::<S>(s);
    }
    s.note("elements", &(a, b));
    fn hash<T: Hash>(x: &T) -> u64 {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    fn check<T: Eq + Hash + Copy>(x: T, y: T, same: bool, what: &str) -> Res {
        ck!((x == y) == same && (y == x) == same && (x != y) != same, "{what}: compared equal: {}, expected {same}", x == y);
        ck!(x == x && hash(&x) == hash(&{ x }), "{what}: not equal to itself");
        ck!(!same || hash(&x) == hash(&y), "{what}: equal values hash differently");
        Ok(())
    }
    macro_rules! n {
        ($N:literal) => {{
            let (x, y): ([S; $N], [S; $N]) = (std::array::from_fn(|i| a[i]), std::array::from_fn(|i| b[i]));
            check(v(x), v(y), x == y, concat!("vectors of dimension ", $N))?;
            check(p(x), p(y), x == y, concat!("points of dimension ", $N))?;
            check(Unit::from_value_unchecked(v(x)), Unit::from_value_unchecked(v(y)), x == y, "units")?;
        }};
    }
    n!(1);
    n!(2);
    n!(3);
    n!(4);
    macro_rules! m {
        ($($R:literal, $C:literal);+) => {$({
            let f = |a: &[S; 16]| -> [[S; $R]; $C] { std::array::from_fn(|c| std::array::from_fn(|r| a[c * $R + r])) };
            check(Matrix::<S, $R, $C>::from(f(&a)), Matrix::<S, $R, $C>::from(f(&b)), a[..$R * $C] == b[..$R * $C], concat!("matrices ", $R, "x", $C))?;
        })+};
    }
    m!(1, 1; 2, 2; 3, 3; 4, 4; 2, 3; 3, 2; 4, 3; 1, 4);
    let q4 = |a: &[S; 16]| q([a[0], a[1], a[2], a[3]]);
    check(q4(&a), q4(&b), a[..4] == b[..4], "quaternions")?;
    check(cx([a[0], a[1]]), cx([b[0], b[1]]), a[..2] == b[..2], "complex numbers")?;
    check(Euler::new(a[0], a[1], a[2]), Euler::new(b[0], b[1], b[2]), a[..3] == b[..3], "Euler angles")?;
    let x = Euler::new(a[0], a[1], a[2]);
    ck_eq!((x.x, x.y, x.z), (a[0], a[1], a[2]), "Euler angles");
    Ok(())
}
/// equal exactly when all components are, as floating point numbers are: NaN differs from itself, zero equals its negation
fn float_equality<S: F>(s: &mut Src) -> Res {
    use std::ops::Deref;
    let pool: [S; 3] = s.arr(|s| match s.draw(9) {
        0 => S::of(0.0),
        1 => S::of(-0.0),
        2 => S::of(f64::NAN),
        3 => S::of(s.pick(&[f64::INFINITY, f64::NEG_INFINITY])),
        // two that differ in the last place
        4 => S::of(1.0),
        5 => S::of(1.0 + S::EPS),
        6 => S::of(s.pick(&[1e-30, 1.1e-30, -1e-30, 1e30, 1.1e30])),
        _ => S::of(s.real()),
    });
    let rich = s.coin();
    // mostly finite, so that equal values occur
    let pick = |s: &mut Src| if rich { pool[s.below(3)] } else { S::of([1.0, 1.0 + S::EPS, 0.0][s.below(3)]) };
    let a: [S; 16] = s.arr(pick);
    let mut b = a;
    for _ in 0..s.below(3) {
        b[s.below(16)] = pick(s);
    }
    s.note("elements", &(a, b));
    fn check<T: PartialEq>(x: T, y: T, same: bool, what: &str) -> Res {
        ck!((x == y) == same && (y == x) == same && (x != y) != same && (y != x) != same, "{what}: compared equal: {}, expected {same}", x == y);
        Ok(())
    }
    macro_rules! n {
        ($($N:literal),+) => {$({
            let (x, y): ([S; $N], [S; $N]) = (std::array::from_fn(|i| a[i]), std::array::from_fn(|i| b[i]));
            check(v(x), v(y), x == y, concat!("vectors of dimension ", $N))?;
            check(p(x), p(y), x == y, concat!("points of dimension ", $N))?;
            check(Unit::from_value_unchecked(v(x)), Unit::from_value_unchecked(v(y)), x == y, "units")?;
            check(Translation::from_vector(&v(x)), Translation::from_vector(&v(y)), x == y, concat!("translations of dimension ", $N))?;
            check(Scale::from_nonuniform_scale(&v(x)), Scale::from_nonuniform_scale(&v(y)), x == y, concat!("scalings of dimension ", $N))?;
        })+};
    }
    n!(1, 2, 3, 4, 5, 8);
    let (a1, b1) = (v([a[0]]), v([b[0]]));
    let (a2, b2) = (v([a[0], a[1]]), v([b[0], b[1]]));
    let (a3, b3) = (v([a[0], a[1], a[2]]), v([b[0], b[1], b[2]]));
    let (a4, b4) = (v([a[0], a[1], a[2], a[3]]), v([b[0], b[1], b[2], b[3]]));
    check(a1.deref(), b1.deref(), a[..1] == b[..1], "views of one component")?;
    check(a2.deref(), b2.deref(), a[..2] == b[..2], "views of two components")?;
    check(a3.deref(), b3.deref(), a[..3] == b[..3], "views of three components")?;
    check(a4.deref(), b4.deref(), a[..4] == b[..4], "views of four components")?;
    macro_rules! m {
        ($($R:literal, $C:literal);+) => {$({
            let f = |a: &[S; 16]| -> [[S; $R]; $C] { std::array::from_fn(|c| std::array::from_fn(|r| a[c * $R + r])) };
            let (x, y) = (Matrix::<S, $R, $C>::from(f(&a)), Matrix::<S, $R, $C>::from(f(&b)));
            check(x, y, a[..$R * $C] == b[..$R * $C], concat!("matrices ", $R, "x", $C))?;
            check(x.deref(), y.deref(), a[..$R * $C] == b[..$R * $C], concat!("views of matrices ", $R, "x", $C))?;
        })+};
    }
    m!(1, 1; 2, 2; 3, 3; 4, 4; 2, 3; 3, 2; 4, 3; 3, 4; 2, 4; 4, 2; 1, 2; 1, 3; 1, 4);
    let q4 = |a: &[S; 16]| q([a[0], a[1], a[2], a[3]]);
    check(q4(&a), q4(&b), a[..4] == b[..4], "quaternions")?;
    check(q4(&a).deref(), q4(&b).deref(), a[..4] == b[..4], "views of quaternions")?;
    check(cx([a[0], a[1]]), cx([b[0], b[1]]), a[..2] == b[..2], "complex numbers")?;
    check(Radians(a[0]), Radians(b[0]), a[0] == b[0], "radians")?;
    check(Degrees(a[0]), Degrees(b[0]), a[0] == b[0], "degrees")?;
    let e3 = |a: &[S; 16]| Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2]));
    check(e3(&a), e3(&b), a[..3] == b[..3], "Euler angles")?;
    // transformations: equal when their parts are
    let t2 = |a: &[S; 16]| Transform2::from_matrix_unchecked(Matrix3x3::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]));
    check(t2(&a), t2(&b), a[..9] == b[..9], "transformations of the plane")?;
    let t3 = |a: &[S; 16]| Transform3::from_matrix_unchecked(Matrix4x4::from([[a[0], a[1], a[2], a[3]], [a[4], a[5], a[6], a[7]], [a[8], a[9], a[10], a[11]], [a[12], a[13], a[14], a[15]]]));
    check(t3(&a), t3(&b), a == b, "transformations of space")?;
    macro_rules! parts {
        ($N:literal, $rot:expr) => {{
            let part = |a: &[S; 16], i: usize| -> [S; $N] { std::array::from_fn(|k| a[(i + k) % 16]) };
            let same = |i: usize| part(&a, i) == part(&b, i);
            let unit = |a: &[S; 16], i: usize| Unit::from_value_unchecked(v(part(a, i)));
            let f = |a: &[S; 16]| Reflection::<S, $N>::from_normal_bias(&unit(a, 0), &p(part(a, 4)));
            check(f(&a), f(&b), same(0) && same(4), "reflections")?;
            let f = |a: &[S; 16]| Shear::<S, $N>::from_affine_shear(a[0], &p(part(a, 1)), &unit(a, 5), &unit(a, 9));
            check(f(&a), f(&b), a[0] == b[0] && same(1) && same(5) && same(9), "shears")?;
            let rots: [Rotation<S, $N>; 2] = $rot;
            let (r, o) = (rots[0], if s.coin() { rots[1] } else { rots[0] });
            let turns = f_m(r.matrix()) == f_m(o.matrix());
            check(r, o, turns, "rotations")?;
            let t = |a: &[S; 16]| Translation::from_vector(&v(part(a, 0)));
            check(Isometry::from_parts(&t(&a), &r), Isometry::from_parts(&t(&b), &o), turns && same(0), "isometries")?;
            check(Similarity::from_parts(&t(&a), &r, a[9]), Similarity::from_parts(&t(&b), &o, b[9]), turns && same(0) && a[9] == b[9], "similarities")?;
        }};
    }
    parts!(2, [Rotation2::from_angle(ang::<S>(s).r.1), Rotation2::from_angle(ang::<S>(s).r.1)]);
    parts!(3, {
        let mut r = || { let (_, u) = unit::<S, 3>(s); Rotation3::from_axis_angle(&u, ang::<S>(s).r.1) };
        [r(), r()]
    });
    let planes = |s: &mut Src| -> [S; 6] { let mut k = [1.0, 2.0, 3.0, 4.0, 5.0, 10.0]; if s.coin() { k[s.below(6)] += S::EPS * 8.0 }; k.map(|x| S::of(x)) };
    let (k, l) = (planes(s), planes(s));
    let f = |[l, r, b, t, n, f]: [S; 6]| Perspective3::new(l, r, b, t, n, f);
    let same = k == l;
    ck!(f(k) == f(k) && (!same || f(k) == f(l)), "perspective projections between the same planes differ");
    ck!(f(k).matrix() == f(l).matrix() || f(k) != f(l), "perspective projections of different matrices are equal");
    let f = |[l, r, b, t, n, f]: [S; 6]| Orthographic3::new(l, r, b, t, n, f);
    ck!(f(k) == f(k) && (!same || f(k) == f(l)), "orthographic projections between the same planes differ");
    ck!(f(k).matrix() == f(l).matrix() || f(k) != f(l), "orthographic projections of different matrices are equal");
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P36", "a component other than 0 and 1 was drawn");
    suite.quick = 25_000;
    suite.thorough = 2_000_000;
    subs!(suite, "quaternions", 1.0, quaternions; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "complex numbers", 1.0, complexes; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "quaternions from vectors", 0.5, vectors; f32, f64);
    subs!(suite, "equality and hashing", 1.0, equality; u8, i16, u32, i64, u128);
    subs!(suite, "equality of floats", 1.0, float_equality; f32, f64);
    pbt::main(suite);
}
