//! P39: every value is laid out as the array of its scalars, so buffers of values are flat buffers of scalars.
use hxform::*;
use pbt::{ck, Res, Src, Suite};
use std::mem::{align_of, size_of, size_of_val};

/// what the layout of a type has to be before any of it is read as scalars
fn fits<S, T>(what: &str, n: usize) -> Res {
    ck!(size_of::<T>() == n * size_of::<S>(), "{what}: {} bytes, where {n} scalars of {} bytes were expected", size_of::<T>(), size_of::<S>());
    ck!(align_of::<T>() == align_of::<S>(), "{what}: aligned to {} bytes, its scalar to {}", align_of::<T>(), align_of::<S>());
    Ok(())
}
/// A buffer of values and the same as a buffer of scalars: each reads and writes the other.
/// `make` makes a value of its scalars in storage order, `read` takes them out again by the accessors.
fn flat<S: Sc, T: Copy, const N: usize>(s: &mut Src, what: &str, make: impl Fn([S; N]) -> T, read: impl Fn(&T) -> [S; N]) -> Res {
    fits::<S, T>(what, N)?;
    let k = 1 + s.below(4);
    let mut model: Vec<[S; N]> = (0..k).map(|_| all::<S, N>(s)).collect();
    s.note(what, &model);
    let mut vals: Vec<T> = model.iter().map(|a| make(*a)).collect();
    for step in 0..1 + s.below(4) {
        // the values as scalars
        let scalars: Vec<S> = unsafe { std::slice::from_raw_parts(vals.as_ptr() as *const S, k * N) }.to_vec();
        for i in 0..k {
            for j in 0..N {
                let got = scalars[i * N + j];
                ck!(S::same(got, model[i][j]), "{what}: scalar {j} of value {i} in memory is {got:?} after {step} writes, the components are {:?}", model[i]);
            }
            let got = read(&vals[i]);
            ck!(same(got, model[i]), "{what}: value {i} reads as {got:?} after {step} writes to its memory, which holds {:?}", model[i]);
        }
        // scalars as values
        let buf: Vec<S> = model.iter().flatten().copied().collect();
        let seen: &[T] = unsafe { std::slice::from_raw_parts(buf.as_ptr() as *const T, k) };
        for i in 0..k {
            let got = read(&seen[i]);
            ck!(same(got, model[i]), "{what}: a buffer of scalars read as values: value {i} is {got:?}, its scalars are {:?}", model[i]);
        }
        // a write to the scalars, as from the other side of the boundary
        let (i, j) = (s.below(k), s.below(N));
        let x = S::any(s);
        unsafe { std::slice::from_raw_parts_mut(vals.as_mut_ptr() as *mut S, k * N)[i * N + j] = x };
        model[i][j] = x;
    }
    Ok(())
}
fn vectors<S: Sc>(s: &mut Src) -> Res {
    macro_rules! of {
        ($N:literal) => {{
            flat::<S, _, $N>(s, concat!("Vector", $N), v, va)?;
            flat::<S, _, $N>(s, concat!("Point", $N), p, pa)?;
            flat::<S, _, $N>(s, concat!("Unit<Vector", $N, ">"), |a| Unit::from_value_unchecked(v(a)), |u| va(u.as_ref()))?;
            // the views of named fields and of slices have the size of what they view
            flat::<S, _, $N>(s, concat!("Vector", $N, " by slices"), |a| *<&Vector<S, $N>>::from(&a), |x| {
                let a: &[S; $N] = x.as_ref();
                *a
            })
        }};
    }
    match s.draw(5) {
        0 => of!(1),
        1 => of!(2),
        2 => of!(3),
        3 => of!(4),
        4 => of!(5),
        _ => of!(7),
    }
}
fn named<S: Sc>(s: &mut Src) -> Res {
    // the named fields in the order of the memory
    let a: [S; 4] = all(s);
    s.note("components", &a);
    flat::<S, _, 1>(s, "Vector1 by fields", v, |x| [x.x])?;
    flat::<S, _, 2>(s, "Vector2 by fields", v, |x| [x.x, x.y])?;
    flat::<S, _, 3>(s, "Vector3 by fields", v, |x| [x.x, x.y, x.z])?;
    flat::<S, _, 4>(s, "Vector4 by fields", v, |x| [x.x, x.y, x.z, x.w])?;
    flat::<S, _, 1>(s, "Point1 by fields", p, |x| [x.x])?;
    flat::<S, _, 2>(s, "Point2 by fields", p, |x| [x.x, x.y])?;
    flat::<S, _, 3>(s, "Point3 by fields", p, |x| [x.x, x.y, x.z])?;
    let m = Matrix2x2::new(a[0], a[1], a[2], a[3]);
    ck!(size_of_val(&*m) == size_of_val(&m), "Matrix2x2: the view of named fields has {} bytes, the matrix {}", size_of_val(&*m), size_of_val(&m));
    let x = v(a);
    ck!(size_of_val(&*x) == size_of_val(&x), "Vector4: the view of named fields has {} bytes, the vector {}", size_of_val(&*x), size_of_val(&x));
    let x = q(a);
    ck!(size_of_val(&*x) == size_of_val(&x), "Quaternion: the view of named fields has {} bytes, the quaternion {}", size_of_val(&*x), size_of_val(&x));
    flat::<S, _, 4>(s, "Matrix2x2 by fields", |a| Matrix2x2::new(a[0], a[1], a[2], a[3]), |m| [m.c0r0, m.c0r1, m.c1r0, m.c1r1])?;
    flat::<S, _, 9>(s, "Matrix3x3 by fields", |a| Matrix3x3::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), |m| {
        [m.c0r0, m.c0r1, m.c0r2, m.c1r0, m.c1r1, m.c1r2, m.c2r0, m.c2r1, m.c2r2]
    })?;
    flat::<S, _, 16>(
        s,
        "Matrix4x4 by fields",
        |a| Matrix4x4::new(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]),
        |m| {
            [
                m.c0r0, m.c0r1, m.c0r2, m.c0r3, m.c1r0, m.c1r1, m.c1r2, m.c1r3, m.c2r0, m.c2r1, m.c2r2, m.c2r3, m.c3r0, m.c3r1, m.c3r2, m.c3r3,
            ]
        },
    )
}
fn matrices<S: Sc>(s: &mut Src) -> Res {
    macro_rules! of {
        ($R:literal, $C:literal) => {{
            const N: usize = $R * $C;
            fn read<S: Sc>(m: &Matrix<S, $R, $C>) -> [S; N] {
                // column by column
                std::array::from_fn(|i| m[i / $R][i % $R])
            }
            fn make<S: Sc>(a: [S; N]) -> Matrix<S, $R, $C> {
                let cols: [[S; $R]; $C] = std::array::from_fn(|c| std::array::from_fn(|r| a[c * $R + r]));
                Matrix::from(cols)
            }
            flat::<S, _, N>(s, concat!("Matrix", $R, "x", $C), make, read)
        }};
    }
    match s.draw(17) {
        0 => of!(1, 1),
        1 => of!(1, 2),
        2 => of!(1, 3),
        3 => of!(1, 4),
        4 => of!(2, 1),
        5 => of!(2, 2),
        6 => of!(2, 3),
        7 => of!(2, 4),
        8 => of!(3, 1),
        9 => of!(3, 2),
        10 => of!(3, 3),
        11 => of!(3, 4),
        12 => of!(4, 1),
        13 => of!(4, 2),
        14 => of!(4, 3),
        15 => of!(4, 4),
        16 => of!(5, 6),
        _ => of!(5, 2),
    }
}
fn numbers<S: Sc>(s: &mut Src) -> Res {
    match s.draw(4) {
        0 => {
            flat::<S, _, 4>(s, "Quaternion", |a| Quaternion::new(a[0], a[1], a[2], a[3]), |x| [x[0], x[1], x[2], x[3]])?;
            flat::<S, _, 4>(s, "Quaternion by fields", |a| Quaternion::from_parts(a[0], v([a[1], a[2], a[3]])), |x| [x.s, x.v.x, x.v.y, x.v.z])?;
            flat::<S, _, 4>(s, "Quaternion by parts", q, |x| {
                let u = x.vector();
                [x.scalar(), u[0], u[1], u[2]]
            })?;
            flat::<S, _, 4>(s, "Unit<Quaternion>", |a| Unit::from_value_unchecked(q(a)), |u| qa(u.as_ref()))
        }
        1 => {
            flat::<S, _, 2>(s, "Complex", |a| Complex::new(a[0], a[1]), |x| [x.re, x.im])?;
            flat::<S, _, 2>(s, "Unit<Complex>", |a| Unit::from_value_unchecked(cx(a)), |u| ca(u.as_ref()))
        }
        2 => {
            flat::<S, _, 1>(s, "Radians", |a| Radians(a[0]), |x| [x.0])?;
            flat::<S, _, 1>(s, "Degrees", |a| Degrees(a[0]), |x| [x.0])
        }
        _ => {
            flat::<S, _, 3>(s, "Euler<S>", |a| Euler::new(a[0], a[1], a[2]), |e| [e.x, e.y, e.z])?;
            flat::<S, _, 3>(s, "Euler<Radians>", |a| Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2])), |e| [e.x.0, e.y.0, e.z.0])?;
            flat::<S, _, 3>(s, "Euler<Degrees>", |a| Euler::new(Degrees(a[0]), Degrees(a[1]), Degrees(a[2])), |e| [e.x.0, e.y.0, e.z.0])
        }
    }
}
/// a composite whose parts may lie in any order: whole scalars, without padding
fn whole<S: Sc, T: Copy>(what: &str, least: usize) -> Res {
    let n = size_of::<T>() / size_of::<S>();
    ck!(n >= least, "{what}: {} bytes, fewer than the {least} scalars of its parts", size_of::<T>());
    fits::<S, T>(what, n)
}
fn transformations<S: F>(s: &mut Src) -> Res {
    macro_rules! of {
        ($N:literal, $P:literal) => {{
            const L: usize = $N * $N;
            const H: usize = $P * $P;
            flat::<S, _, $N>(s, concat!("Translation", $N), |a| Translation::from_vector(&v(a)), |t: &Translation<S, $N>| va(t.vector()))?;
            flat::<S, _, $N>(s, concat!("Scale", $N), |a| Scale::from_nonuniform_scale(&v(a)), |t: &Scale<S, $N>| va(&t.to_vector()))?;
            flat::<S, _, H>(
                s,
                concat!("Transform", $N),
                |a| {
                    let cols: [[S; $P]; $P] = std::array::from_fn(|c| std::array::from_fn(|r| a[c * $P + r]));
                    Transform::from_matrix_unchecked(Matrix::from(cols))
                },
                |t: &Transform<S, $N, $P>| std::array::from_fn(|i| t.matrix()[i / $P][i % $P]),
            )?;
            whole::<S, Shear<S, $N>>(concat!("Shear", $N), 1 + 3 * $N)?;
            whole::<S, Reflection<S, $N>>(concat!("Reflection", $N), $N + 1)?;
            whole::<S, Isometry<S, $N>>(concat!("Isometry", $N), $N + 1)?;
            whole::<S, Similarity<S, $N>>(concat!("Similarity", $N), $N + 2)?;
            fits::<S, Rotation<S, $N>>(concat!("Rotation", $N), L)?;
        }};
    }
    of!(2, 3);
    of!(3, 4);
    // rotations are made by angles only: what they hold is what their matrix is
    let t = ang::<S>(s).r.1;
    let (_, u) = unit::<S, 3>(s);
    let (r2, r3) = (Rotation2::from_angle(t), Rotation3::from_axis_angle(&u, t));
    s.note("rotations", &(r2, r3));
    let (b2, b3) = ([r2, r2.inverse()], [r3, r3.inverse(), r3 * r3]);
    let f2: Vec<S> = unsafe { std::slice::from_raw_parts(b2.as_ptr() as *const S, 8) }.to_vec();
    for (i, x) in f2.iter().enumerate() {
        let w = b2[i / 4].matrix()[i % 4 / 2][i % 2];
        ck!(S::same(*x, w), "Rotation2: scalar {} of rotation {} in memory is {x:?}, of its matrix {w:?}", i % 4, i / 4);
    }
    let f3: Vec<S> = unsafe { std::slice::from_raw_parts(b3.as_ptr() as *const S, 27) }.to_vec();
    for (i, x) in f3.iter().enumerate() {
        let w = b3[i / 9].matrix()[i % 9 / 3][i % 3];
        ck!(S::same(*x, w), "Rotation3: scalar {} of rotation {} in memory is {x:?}, of its matrix {w:?}", i % 9, i / 9);
    }
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P39", "a component other than 0 and 1 was drawn");
    suite.quick = 12_000;
    suite.thorough = 600_000;
    subs!(suite, "vectors and points", 1.0, vectors; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "named fields", 1.0, named; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "matrices", 1.0, matrices; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "quaternions, complex numbers and angles", 1.0, numbers; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "transformations", 3.0, transformations; f32, f64);
    pbt::main(suite);
}
