//! P37: values print their components, in order and in full, and a failing writer is reported.
use hxform::*;
use pbt::{ck, Res, Src, Suite};
use std::fmt::{self, Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn join<T: Display>(a: &[T]) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
}
fn vs<S: Display + Copy, const N: usize>(a: &Vector<S, N>) -> String {
    format!("Vector{N} [{}]", join(&va(a)))
}
fn ps<S: Display + Copy, const N: usize>(a: &Point<S, N>) -> String {
    format!("Point{N} [{}]", join(&pa(a)))
}
fn ms<S: Display + Copy, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> String {
    let cols: &[[S; R]; C] = m.as_ref();
    let cols: Vec<String> = cols.iter().map(|c| format!("[{}]", join(c))).collect();
    format!("Matrix{R}x{C} [{}]", cols.join(", "))
}
/// A writer that takes so many bytes and then fails.
struct Failing {
    left: usize,
    got: String,
}
impl Write for Failing {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        if t.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= t.len();
        self.got.push_str(t);
        Ok(())
    }
}
fn check<T: Display>(s: &mut Src, x: &T, want: String, what: &str) -> Res {
    let got = if s.one_in(8) { format!("{x:#}") } else { format!("{x}") };
    // a line end after the text is not part of the claim
    ck!(got.trim_end() == want, "{what} prints {got:?}, expected {want:?}");
    // fault injection: the writer fails after any number of bytes
    let left = s.draw(want.len() as u64 - 1) as usize;
    let mut w = Failing { left, got: String::new() };
    let r = catch_unwind(AssertUnwindSafe(|| write!(w, "{x}")));
    match r {
        Err(_) => return Err(format!("{what}: printing panics when the writer fails after {left} bytes")),
        Ok(Ok(())) => return Err(format!("{what}: printing reports success when the writer fails after {left} bytes")),
        Ok(Err(_)) => {}
    }
    ck!(want.starts_with(&w.got), "{what}: wrote {:?} before the failure, expected a prefix of {want:?}", w.got);
    let mut w = Failing { left: got.len(), got: String::new() };
    ck!(write!(w, "{x}").is_ok() && w.got == got, "{what}: printing to a writer with just enough room fails");
    Ok(())
}
fn any<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    all::<S, N>(s)
}
fn core_types<S: Sc + Display>(s: &mut Src) -> Res {
    macro_rules! vp {
        ($N:literal) => {{
            let a: [S; $N] = any(s);
            s.note("components", &a);
            check(s, &v(a), format!(concat!("Vector", $N, " [{}]"), join(&a)), "vector")?;
            check(s, &p(a), format!(concat!("Point", $N, " [{}]"), join(&a)), "point")?;
            check(s, &Unit::from_value_unchecked(v(a)), format!(concat!("Vector", $N, " [{}]"), join(&a)), "unit vector")
        }};
    }
    macro_rules! mm {
        ($R:literal, $C:literal) => {{
            let a: [[S; $R]; $C] = std::array::from_fn(|_| any(s));
            s.note("columns", &a);
            let m: Matrix<S, $R, $C> = Matrix::from(a);
            let cols: Vec<String> = a.iter().map(|c| format!("[{}]", join(c))).collect();
            check(s, &m, format!(concat!("Matrix", $R, "x", $C, " [{}]"), cols.join(", ")), "matrix")
        }};
    }
    match s.draw(23) {
        0 => vp!(1),
        1 => vp!(2),
        2 => vp!(3),
        3 => vp!(4),
        4 => vp!(5),
        5 => mm!(1, 1),
        6 => mm!(1, 2),
        7 => mm!(1, 3),
        8 => mm!(1, 4),
        9 => mm!(2, 1),
        10 => mm!(2, 2),
        11 => mm!(2, 3),
        12 => mm!(2, 4),
        13 => mm!(3, 1),
        14 => mm!(3, 2),
        15 => mm!(3, 3),
        16 => mm!(3, 4),
        17 => mm!(4, 1),
        18 => mm!(4, 2),
        19 => mm!(4, 3),
        20 => mm!(4, 4),
        21 => {
            let a: [S; 4] = any(s);
            s.note("quaternion", &a);
            check(s, &q(a), format!("{} + [{}, {}, {}]", a[0], a[1], a[2], a[3]), "quaternion")?;
            check(s, &Unit::from_value_unchecked(q(a)), format!("{} + [{}, {}, {}]", a[0], a[1], a[2], a[3]), "unit quaternion")
        }
        22 => {
            let a: [S; 2] = any(s);
            s.note("complex number", &a);
            check(s, &cx(a), format!("{} + i{}", a[0], a[1]), "complex number")?;
            check(s, &Unit::from_value_unchecked(cx(a)), format!("{} + i{}", a[0], a[1]), "unit complex number")
        }
        _ => {
            let a: [S; 3] = any(s);
            s.note("angles", &a);
            check(s, &Radians(a[0]), format!("{} radians", a[0]), "angle")?;
            check(s, &Degrees(a[0]), format!("{} degrees", a[0]), "angle")?;
            check(s, &Euler::new(a[0], a[1], a[2]), format!("Euler [roll={}, yaw={}, pitch={}]", a[0], a[1], a[2]), "Euler angles")?;
            check(s, &Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2])), format!("Euler [roll={} radians, yaw={} radians, pitch={} radians]", a[0], a[1], a[2]), "Euler angles")?;
            check(s, &Euler::new(Degrees(a[0]), Degrees(a[1]), Degrees(a[2])), format!("Euler [roll={} degrees, yaw={} degrees, pitch={} degrees]", a[0], a[1], a[2]), "Euler angles")
        }
    }
}
macro_rules! of_dim {
    ($s:expr, $S:ty, $N:literal, $P:literal, $rot:expr) => {{
        let s = &mut *$s;
        let (n, nu) = unit::<$S, $N>(s);
        let (_, du) = unit::<$S, $N>(s);
        let o: [$S; $N] = any(s);
        let f: $S = <$S as Sc>::any(s);
        let r: Rotation<$S, $N> = $rot;
        s.note("parts", &(n, o, f));
        let (ov, op) = (v(o), p(o));
        let t = Translation::from_vector(&ov);
        let rs = format!(concat!("Rotation", $N, " [{}]"), ms(r.matrix()));
        match s.draw(7) {
            0 => check(s, &t, format!(concat!("Translation", $N, " {}"), vs(&ov)), "translation"),
            1 => check(s, &Scale::<$S, $N>::from_nonuniform_scale(&ov), format!(concat!("Scale", $N, " [{}]"), vs(&ov)), "scaling"),
            2 => check(s, &r, rs, "rotation"),
            3 => check(s, &Reflection::<$S, $N>::from_normal_bias(&nu, &op), format!(concat!("Reflection", $N, " [normal = {}, bias = {}]"), vs(nu.as_ref()), ps(&op)), "reflection"),
            4 => check(s, &Shear::<$S, $N>::from_affine_shear(f, &op, &du, &nu), format!(concat!("Shear", $N, " [shear_factor={}, origin={}, direction={}, normal={}]"), f, ps(&op), vs(du.as_ref()), vs(nu.as_ref())), "shear"),
            5 => check(s, &Isometry::<$S, $N>::from_parts(&t, &r), format!(concat!("Isometry", $N, " [rotation={}, translation=Translation", $N, " {}]"), rs, vs(&ov)), "isometry"),
            6 => check(s, &Similarity::<$S, $N>::from_parts(&t, &r, f), format!(concat!("Similarity", $N, " [scale={}, rotation={}, translation={}]"), f, rs, vs(&ov)), "similarity"),
            _ => {
                let a: [[$S; $P]; $P] = std::array::from_fn(|_| any(s));
                let m: Matrix<$S, $P, $P> = Matrix::from(a);
                check(s, &Transform::<$S, $N, $P>::from_matrix_unchecked(m), format!(concat!("Transform", $N, " [{}]"), ms(&m)), "transformation")
            }
        }
    }};
}
fn transformations<S: F + Display>(s: &mut Src) -> Res {
    let t = ang::<S>(s).r.1;
    match s.draw(2) {
        0 => of_dim!(s, S, 2, 3, Rotation2::from_angle(t)),
        1 => {
            let (_, u) = unit::<S, 3>(s);
            of_dim!(s, S, 3, 4, Rotation3::from_axis_angle(&u, t))
        }
        _ => {
            let a: [S; 6] = s.arr(|s| <S as pbt::kit::Fl>::of(s.between(0.5, 8.0)));
            s.note("planes", &a);
            let x = Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[4] + a[5]);
            check(s, &x, format!("Perspective3 [{}]", ms(x.matrix())), "perspective projection")?;
            let x = Orthographic3::new(a[0], a[0] + a[1], a[2], a[2] + a[3], a[4], a[4] + a[5]);
            check(s, &x, format!("Orthographic3 [{}]", ms(x.matrix())), "orthographic projection")
        }
    }
}
fn main() {
    let mut suite = Suite::new("P37", "a component other than 0 and 1 was drawn");
    suite.quick = 15_000;
    suite.thorough = 800_000;
    subs!(suite, "vectors, points, matrices, numbers and angles", 1.0, core_types; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "transformations", 3.0, transformations; f32, f64);
    pbt::main(suite);
}
