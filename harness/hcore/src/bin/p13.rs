//! P13: vectors and points keep their components, whatever way they are made, viewed or taken apart.
use hcore::*;
use pbt::{ck, ck_eq, Res, Src, Suite};
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// distinct values more often than not, so that two components cannot stand in for each other
fn comps<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    if s.one_in(4) {
        s.arr(|s| held::<S>(s))
    } else {
        let k = s.draw(20) as i64;
        let mut a: [S; N] = std::array::from_fn(|i| S::i(k + 1 + i as i64));
        for i in (1..N).rev() {
            let j = s.below(i + 1);
            a.swap(i, j);
        }
        s.nontrivial = true;
        a
    }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

macro_rules! generic_views {
    ($fname:ident, $T:ident, $arr:ident, $what:expr) => {
        fn $fname<S: Sc, const N: usize>(s: &mut Src) -> Res {
            let a: [S; N] = comps(s);
            let b: [S; N] = comps(s);
            s.note("a, b", &(a, b));
            let x: $T<S, N> = $T::from(a);
            let whole = |x: &$T<S, N>| -> [S; N] { std::array::from_fn(|i| x[i]) };
            ck_eq!(whole(&x), a, "{} from an array", $what);
            ck_eq!(whole(&$T::from(&a)), a, "{} from a borrowed array", $what);
            let view: &$T<S, N> = <&$T<S, N>>::from(&a);
            ck_eq!(whole(view), a, "{} viewed in an array", $what);
            ck!(view as *const _ as usize == a.as_ptr() as usize, "the view of {} does not alias the array", $what);
            ck_eq!((x.len(), x.is_empty(), x.shape()), (N, false, (N, 1)), "len, is_empty, shape");
            ck_eq!(size_of::<$T<S, N>>(), N * size_of::<S>(), "size of {}", $what);
            ck_eq!(align_of::<$T<S, N>>(), align_of::<S>(), "alignment of {}", $what);
            ck_eq!(*AsRef::<[S; N]>::as_ref(&x), a, "as_ref of {}", $what);
            ck_eq!(x.as_slice(), &a[..], "as_slice of {}", $what);
            ck!(x.as_ptr() as usize == &x as *const _ as usize, "as_ptr of {} is not its address", $what);
            for i in 0..N {
                ck_eq!(unsafe { *x.as_ptr().add(i) }, a[i], "element {i} through as_ptr");
            }
            // ranges
            let (i, j) = (s.below(N + 1), s.below(N + 1));
            let (i, j) = (i.min(j), i.max(j));
            ck_eq!(x[i..j], a[i..j], "range {i}..{j} of {}", $what);
            ck_eq!(x[..j], a[..j], "range ..{j} of {}", $what);
            ck_eq!(x[i..], a[i..], "range {i}.. of {}", $what);
            ck_eq!(x[..], a[..], "range .. of {}", $what);
            let mut y = x;
            y[i..j].copy_from_slice(&b[i..j]);
            let mut w = a;
            w[i..j].copy_from_slice(&b[i..j]);
            ck_eq!(whole(&y), w, "writing the range {i}..{j} of {}", $what);
            let mut y = x;
            y[..j].copy_from_slice(&b[..j]);
            let mut w = a;
            w[..j].copy_from_slice(&b[..j]);
            ck_eq!(whole(&y), w, "writing the range ..{j} of {}", $what);
            let mut y = x;
            y[i..].copy_from_slice(&b[i..]);
            let mut w = a;
            w[i..].copy_from_slice(&b[i..]);
            ck_eq!(whole(&y), w, "writing the range {i}.. of {}", $what);
            y[..].copy_from_slice(&b[..]);
            ck_eq!(whole(&y), b, "writing all of {}", $what);
            // single components
            let k = s.below(N);
            let mut y = x;
            y[k] = b[k];
            let mut w = a;
            w[k] = b[k];
            ck_eq!(whole(&y), w, "writing component {k} of {}", $what);
            let mut y = x;
            AsMut::<[S; N]>::as_mut(&mut y)[k] = b[k];
            ck_eq!(whole(&y), w, "writing component {k} through as_mut");
            let mut y = x;
            unsafe { *y.as_mut_ptr().add(k) = b[k] };
            ck_eq!(whole(&y), w, "writing component {k} through as_mut_ptr");
            // out of range is refused
            if s.one_in(64) {
                s.label("out of range");
                refused!(s, x, N, a[0], $what);
            }
            // fill, zero, equality, copies
            let f = b[0];
            ck_eq!(whole(&$T::<S, N>::from_fill(f)), [f; N], "from_fill");
            ck_eq!(whole(&$T::<S, N>::default()), [S::i(0); N], "default");
            ck!(x == $T::from(a) && (x == $T::from(b)) == (a == b), "equality of {} is not componentwise", $what);
            let c = x.clone();
            ck!(c == x, "clone");
            // map visits each component once, in order
            let mut seen = vec![];
            let m = x.map(|c| {
                seen.push(c);
                (c, seen.len())
            });
            ck_eq!(seen, a.to_vec(), "components seen by map");
            for i in 0..N {
                ck_eq!(m[i], (a[i], i + 1), "component {i} after map");
            }
            Ok(())
        }
    };
}
generic_views!(vec_views, Vector, va, "a vector");
generic_views!(point_views, Point, pa, "a point");

fn vec_more<S: Sc, const N: usize>(s: &mut Src) -> Res {
    let a: [S; N] = comps(s);
    s.note("a", &a);
    let mut x = v(a);
    ck_eq!(*AsRef::<[[S; N]; 1]>::as_ref(&x), [a], "as a single column");
    let b: [S; N] = comps(s);
    AsMut::<[[S; N]; 1]>::as_mut(&mut x)[0] = b;
    ck_eq!(va(&x), b, "written as a single column");
    ck_eq!(va(&Vector::<S, N>::zero()), [S::i(0); N], "zero");
    ck!(Vector::<S, N>::zero().is_zero(), "zero is not zero");
    let mut z = [S::i(0); N];
    let k = s.below(N);
    if s.coin() {
        z[k] = a[k];
    }
    ck_eq!(v(z).is_zero(), z[k] == S::i(0), "is_zero of {z:?}");
    let pt = p(a);
    ck_eq!(va(&pt.to_vector()), a, "vector of a point");
    ck_eq!(pa(&Point::from_vector(&v(a))), a, "point of a vector");
    ck_eq!(pa(&Point::<S, N>::origin()), [S::i(0); N], "origin");
    Ok(())
}

macro_rules! fixed {
    ($fname:ident, $T:ident, $N:expr, [$($f:ident $i:expr),+], ($($tt:ty),+), $sw:ident) => {
        fn $fname<S: Sc>(s: &mut Src) -> Res {
            let a: [S; $N] = comps(s);
            let b: [S; $N] = comps(s);
            s.note("a, b", &(a, b));
            let whole = |x: &$T<S>| -> [S; $N] { std::array::from_fn(|i| x[i]) };
            let x = $T::new($(a[$i]),+);
            ck_eq!(whole(&x), a, "new");
            let t: ($($tt,)+) = ($(a[$i],)+);
            ck_eq!(whole(&$T::from(t)), a, "from a tuple");
            ck_eq!(whole(&<$T<S>>::from(&t)), a, "from a borrowed tuple");
            ck_eq!(whole(<&$T<S>>::from(&t)), a, "viewed in a tuple");
            ck_eq!(*AsRef::<($($tt,)+)>::as_ref(&x), t, "as a tuple");
            ck_eq!([$(x.$f),+], a, "component fields");
            let mut y = x;
            *AsMut::<($($tt,)+)>::as_mut(&mut y) = ($(b[$i],)+);
            ck_eq!(whole(&y), b, "written as a tuple");
            $({
                let mut y = x;
                y.$f = b[$i];
                let mut w = a;
                w[$i] = b[$i];
                ck_eq!(whole(&y), w, "writing the field {}", stringify!($f));
            })+
            swizzles::$sw(&x, a)
        }
    };
}
fixed!(vec1, Vector1, 1, [x 0], (S), vector1);
fixed!(vec2, Vector2, 2, [x 0, y 1], (S, S), vector2);
fixed!(vec3, Vector3, 3, [x 0, y 1, z 2], (S, S, S), vector3);
fixed!(vec4, Vector4, 4, [x 0, y 1, z 2, w 3], (S, S, S, S), vector4);
fixed!(point1, Point1, 1, [x 0], (S), point1);
fixed!(point2, Point2, 2, [x 0, y 1], (S, S), point2);
fixed!(point3, Point3, 3, [x 0, y 1, z 2], (S, S, S), point3);

macro_rules! singles {
    ($suite:ident; $($T:ty),+) => {$(
        $suite.add_w(concat!("one component ", stringify!($T)), 0.1, |s: &mut Src| -> Res {
            let a: [$T; 4] = comps(s);
            let k = a[0];
            s.note("a", &a);
            ck_eq!(Vector1::<$T>::from(k)[0], k, "Vector1 from a scalar");
            ck_eq!(Point1::<$T>::from(k)[0], k, "Point1 from a scalar");
            ck_eq!(Vector1::new(k).to_scalar(), k, "to_scalar");
            ck_eq!(*AsRef::<$T>::as_ref(&Vector1::new(k)), k, "Vector1 as a scalar");
            ck_eq!(*AsRef::<$T>::as_ref(&Point1::new(k)), k, "Point1 as a scalar");
            let mut y = Vector1::new(k);
            *AsMut::<$T>::as_mut(&mut y) = a[1];
            ck_eq!(y[0], a[1], "Vector1 written as a scalar");
            let mut y = Point1::new(k);
            *AsMut::<$T>::as_mut(&mut y) = a[1];
            ck_eq!(y[0], a[1], "Point1 written as a scalar");
            // dropping the last component, and the axes
            let q = Vector4::from(a);
            ck_eq!(va(&Vector3::<$T>::from(q)), [a[0], a[1], a[2]], "Vector3 from a Vector4");
            ck_eq!(va(&Vector3::<$T>::from(&q)), [a[0], a[1], a[2]], "Vector3 from a borrowed Vector4");
            let (o, z) = (<$T as Sc>::i(1), <$T as Sc>::i(0));
            ck_eq!(va(&Vector1::<$T>::unit_x()), [o], "unit_x");
            ck_eq!(va(&Vector2::<$T>::unit_x()), [o, z], "unit_x");
            ck_eq!(va(&Vector2::<$T>::unit_y()), [z, o], "unit_y");
            ck_eq!(va(&Vector3::<$T>::unit_x()), [o, z, z], "unit_x");
            ck_eq!(va(&Vector3::<$T>::unit_y()), [z, o, z], "unit_y");
            ck_eq!(va(&Vector3::<$T>::unit_z()), [z, z, o], "unit_z");
            ck_eq!(va(&Vector4::<$T>::unit_x()), [o, z, z, z], "unit_x");
            ck_eq!(va(&Vector4::<$T>::unit_y()), [z, o, z, z], "unit_y");
            ck_eq!(va(&Vector4::<$T>::unit_z()), [z, z, o, z], "unit_z");
            ck_eq!(va(&Vector4::<$T>::unit_w()), [z, z, z, o], "unit_w");
            Ok(())
        });
    )+};
}

/// A history of writes by every route, read back by every route.
fn history(s: &mut Src) -> Res {
    let mut m: [i32; 4] = comps(s);
    let mut x = Vector4::from(m);
    let n = s.below(12);
    for _ in 0..n {
        let k = s.below(4);
        let c = s.int(99) as i32;
        match s.below(8) {
            0 => x[k] = c,
            1 => AsMut::<[i32; 4]>::as_mut(&mut x)[k] = c,
            2 => unsafe { *x.as_mut_ptr().add(k) = c },
            3 => {
                let t: &mut (i32, i32, i32, i32) = x.as_mut();
                match k {
                    0 => t.0 = c,
                    1 => t.1 = c,
                    2 => t.2 = c,
                    _ => t.3 = c,
                }
            }
            4 => match k {
                0 => x.x = c,
                1 => x.y = c,
                2 => x.z = c,
                _ => x.w = c,
            },
            5 => x[k..][0] = c,
            6 => x[..k + 1][k] = c,
            _ => AsMut::<[[i32; 4]; 1]>::as_mut(&mut x)[0][k] = c,
        }
        m[k] = c;
        ck_eq!(va(&x), m, "after a write of {c} to component {k}");
        ck_eq!([x.x, x.y, x.z, x.w], m, "fields after a write of {c} to component {k}");
        ck_eq!(x.as_slice(), &m[..], "slice after a write of {c} to component {k}");
    }
    s.note("end", &m);
    Ok(())
}

fn main() {
    let mut suite = Suite::new("P13", "components are pairwise distinct, or one of them is other than 0, 1 and -1");
    suite.quick = 60_000;
    suite.thorough = 3_000_000;
    subs!(suite, "vector views", 1.0, dim5 vec_views; u8, i16, u32, i64, i128, f32, f64);
    subs!(suite, "point views", 1.0, dim5 point_views; u8, i16, u32, i64, i128, f32, f64);
    subs!(suite, "vector constructions", 0.5, dim5 vec_more; u8, i8, u32, i32, usize, isize, f32, f64);
    subs!(suite, "Vector1", 0.2, vec1; u8, i64, f32, f64);
    subs!(suite, "Vector2", 0.5, vec2; u8, i64, f32, f64);
    subs!(suite, "Vector3", 0.5, vec3; u8, i64, f32, f64);
    subs!(suite, "Vector4", 0.5, vec4; u8, i64, f32, f64);
    subs!(suite, "Point1", 0.2, point1; u8, i64, f32, f64);
    subs!(suite, "Point2", 0.5, point2; u8, i64, f32, f64);
    subs!(suite, "Point3", 0.5, point3; u8, i64, f32, f64);
    singles!(suite; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    suite.add("history of writes", history);
    pbt::main(suite);
}
