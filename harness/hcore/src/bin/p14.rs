//! P14: extending, contracting and homogeneous coordinates.
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};

fn gen<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    s.arr(|s| if s.one_in(4) { S::any(s) } else { S::small(s) })
}
fn same<S: Sc, const N: usize>(a: [S; N], b: [S; N]) -> bool {
    (0..N).all(|i| S::same(a[i], b[i]))
}
macro_rules! up {
    ($name:ident, $N:expr, $NP:expr) => {
        fn $name<S: Sc>(s: &mut Src) -> Res {
            let a: [S; $N] = gen(s);
            let l = if s.coin() { S::any(s) } else { S::small(s) };
            s.note("a, last", &(a, l));
            let with = |l: S| -> [S; $NP] { std::array::from_fn(|i| if i < $N { a[i] } else { l }) };
            let got: [S; $NP] = va(&v(a).extend(l));
            ck!(same(got, with(l)), "vector {a:?} extended by {l:?} is {got:?}");
            let got: [S; $NP] = pa(&p(a).extend(l));
            ck!(same(got, with(l)), "point {a:?} extended by {l:?} is {got:?}");
            let h: Vector<S, $NP> = v(a).to_homogeneous();
            ck!(same(va(&h), with(S::i(0))), "homogeneous coordinates of the vector {a:?} are {h:?}");
            let h: Vector<S, $NP> = p(a).to_homogeneous();
            ck!(same(va(&h), with(S::i(1))), "homogeneous coordinates of the point {a:?} are {h:?}");
            // and back
            let e: Vector<S, $NP> = v(a).extend(l);
            let got: [S; $N] = va(&e.contract());
            ck!(same(got, a), "{e:?} contracted is {got:?}");
            let e: Point<S, $NP> = p(a).extend(l);
            let got: [S; $N] = pa(&e.contract());
            ck!(same(got, a), "{e:?} contracted is {got:?}");
            let back: Option<Vector<S, $N>> = v(a).to_homogeneous().from_homogeneous();
            ck!(back.map_or(false, |b| same(va(&b), a)), "vector {a:?} comes back from homogeneous coordinates as {back:?}");
            let back: Option<Point<S, $N>> = Point::from_homogeneous(&p(a).to_homogeneous());
            ck!(back.map_or(false, |b| (0..$N).all(|i| S::close(b[i], a[i]))), "point {a:?} comes back from homogeneous coordinates as {back:?}");
            // any last coordinate
            let e: Vector<S, $NP> = v(with(l));
            let got: Option<Vector<S, $N>> = e.from_homogeneous();
            ck_eq!(got.is_some(), l == S::i(0), "whether {e:?} is a vector");
            if let Some(g) = got {
                ck!(same(va(&g), a), "vector of {e:?} is {g:?}");
            }
            if (0..$N).all(|i| S::can_div(a[i], l)) || l == S::i(0) {
                let got: Option<Point<S, $N>> = Point::from_homogeneous(&e);
                ck_eq!(got.is_some(), l != S::i(0), "whether {e:?} is a point");
                if let Some(g) = got {
                    s.label("divided");
                    for i in 0..$N {
                        ck!(S::close(g[i], a[i] / l), "component {i} of the point of {e:?} is {:?}, expected {:?}", g[i], a[i] / l);
                    }
                }
            }
            Ok(())
        }
    };
}
up!(up1, 1, 2);
up!(up2, 2, 3);
up!(up3, 3, 4);

/// Homogeneous coordinates of a point are the same point whatever they are scaled by.
macro_rules! scaled {
    ($name:ident, $N:expr, $NP:expr) => {
        fn $name<S: F>(s: &mut Src) -> Res {
            let a = rnd::<S, $N>(s.rvec());
            let k = S::of(s.real_nz(1e-3, 1e3));
            s.note("a, k", &(a, k));
            let h: Vector<S, $NP> = pf::<S, $N>(a).to_homogeneous() * k;
            let got: Option<Point<S, $N>> = Point::from_homogeneous(&h);
            let Some(g) = got else { return Err(format!("{h:?} is not a point")) };
            for i in 0..$N {
                ck!((g[i].f() - a[i]).abs() <= 4.0 * S::EPS * a[i].abs() + 1e-37, "component {i} of the point of {h:?} is {:?}, expected {:?}", g[i], a[i]);
            }
            Ok(())
        }
    };
}
scaled!(scaled1, 1, 2);
scaled!(scaled2, 2, 3);
scaled!(scaled3, 3, 4);

fn main() {
    let mut suite = Suite::new("P14", "a component other than 0, 1 and -1 was drawn");
    suite.extremes = 8.0;
    suite.quick = 100_000;
    suite.thorough = 5_000_000;
    subs!(suite, "one dimension", 0.5, up1; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "two dimensions", 0.5, up2; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "three dimensions", 0.5, up3; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    subs!(suite, "scaled, one dimension", 0.5, scaled1; f32, f64);
    subs!(suite, "scaled, two dimensions", 0.5, scaled2; f32, f64);
    subs!(suite, "scaled, three dimensions", 0.5, scaled3; f32, f64);
    pbt::main(suite);
}
