// what P40 and P41 compute with every kind of number; `no!` is theirs
fn small<S: Sc, const N: usize>(s: &mut Src) -> [S; N] {
    s.arr(|s| S::small(s))
}
/// what holds for integers as well: arithmetic, views, casts, printing
fn exact<S: Sc + Display + cglinalg_numeric::SimdCast + Ord>(s: &mut Src) -> Res {
    macro_rules! dims {
        ($N:literal) => {{
            let (a, b, k) = (small::<S, $N>(s), small::<S, $N>(s), S::small(s));
            s.note("components", &(a, b, k));
            let (x, y, o) = (v(a), v(b), p(a));
            no!(x + y, x - y, &x + &y, x * k, x / k, x % k, x.dot(&y), x.component_mul(&y), x.is_zero());
            no!(x.map(|c| c), x.try_cast::<i8>(), x.try_cast::<f64>(), x.try_cast::<u128>(), print(&x), x == y, x.as_slice()[0]);
            no!(o + x, o - p(b), o * k, o.map(|c| c), o.try_cast::<f32>(), print(&o), o == p(b), o.to_vector(), o.dot(&p(b)));
            no!(Vector::<S, $N>::from_fill(k), Vector::<S, $N>::default(), Vector::<S, $N>::zero(), Point::<S, $N>::origin());
            no!({ let mut z = x; z += y; z -= y; z *= k; z });
            no!(<&Vector<S, $N>>::from(&a)[0], x[0]);
        }};
    }
    macro_rules! mats {
        ($R:literal, $C:literal) => {{
            let a: [[S; $R]; $C] = std::array::from_fn(|_| small::<S, $R>(s));
            let b: [[S; $R]; $C] = std::array::from_fn(|_| small::<S, $R>(s));
            let k = S::small(s);
            s.note("columns", &(a, b, k));
            let (m, n) = (Matrix::<S, $R, $C>::from(a), Matrix::<S, $R, $C>::from(b));
            let x = v(small::<S, $C>(s));
            no!(m + n, m - n, &m + &n, m * k, m / k, m * x, &m * &x, m.transpose(), m.component_mul(&n));
            no!(m.column(0), m.row(0), m.map(|c| c), m.try_cast::<i16>(), m.try_cast::<f64>(), m == n, m.is_zero(), print(&m));
            no!(Matrix::<S, $R, $C>::from_columns(&m_cols(&m)), Matrix::<S, $R, $C>::from_rows(&m_rows(&m)), Matrix::<S, $R, $C>::from_fill(k), Matrix::<S, $R, $C>::zero());
            no!({ let mut z = m; z.swap_rows(0, $R - 1); z.swap_columns(0, $C - 1); z.swap((0, 0), ($C - 1, $R - 1)); z += n; z -= n; z *= k; z });
        }};
    }
    macro_rules! square {
        ($N:literal) => {{
            let a: [[S; $N]; $N] = std::array::from_fn(|_| small::<S, $N>(s));
            let d = small::<S, $N>(s);
            s.note("columns", &(a, d));
            let m = Matrix::<S, $N, $N>::from(a);
            no!(m * m, &m * &m, m.trace(), m.diagonal(), m.transpose(), Matrix::<S, $N, $N>::from_diagonal(&v(d)), Matrix::<S, $N, $N>::identity());
            no!({ let mut z = m; z.transpose_mut(); z });
        }};
    }
    match s.draw(4) {
        0 => {
            dims!(1);
            dims!(2);
            dims!(3);
            dims!(4);
            dims!(6);
            let a: [S; 3] = small(s);
            let (x, y) = (v(a), v(small::<S, 3>(s)));
            no!(x.cross(&y), x.triple(&y, &x), x.extend(a[0]), x.contract(), x.to_homogeneous(), p(a).to_homogeneous(), p(a).extend(a[0]), p(a).contract());
        }
        1 => {
            mats!(1, 2);
            mats!(1, 3);
            mats!(1, 4);
            mats!(2, 1);
            mats!(2, 2);
            mats!(2, 3);
            mats!(2, 4);
            mats!(3, 1);
        }
        2 => {
            mats!(3, 2);
            mats!(3, 3);
            mats!(3, 4);
            mats!(4, 1);
            mats!(4, 2);
            mats!(4, 3);
            mats!(4, 4);
        }
        3 => {
            square!(1);
            square!(2);
            square!(3);
            square!(4);
        }
        _ => {
            let (a, b, k) = (small::<S, 4>(s), small::<S, 4>(s), S::small(s));
            s.note("numbers", &(a, b, k));
            let (x, y) = (q(a), q(b));
            no!(x + y, x - y, x * y, &x * &y, x * k, x.dot(&y), x.map(|c| c), x.try_cast::<f64>(), print(&x), x == y, x.is_real(), x.norm_squared());
            let (x, y) = (cx([a[0], a[1]]), cx([b[0], b[1]]));
            no!(x + y, x - y, x * y, &x * &y, x * k, x.squared(), x.cubed(), x.map(|c| c), x.try_cast::<f64>(), print(&x), x == y, x.modulus_squared());
            no!(print(&Radians(k)), print(&Degrees(k)), Radians(a[0]) + Radians(k), Radians(a[0]) * k, print(&Euler::new(a[0], a[1], a[2])));
        }
    }
    Ok(())
}
fn m_cols<S: Sc, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> [Vector<S, R>; C] {
    std::array::from_fn(|c| v(std::array::from_fn(|r| m[c][r])))
}
fn m_rows<S: Sc, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> [Vector<S, C>; R] {
    std::array::from_fn(|r| v(std::array::from_fn(|c| m[c][r])))
}
/// comparisons of every kind, which are computed as well
macro_rules! cmp {
    ($x:expr, $y:expr, $t:expr) => {{
        let (x, y, t) = ($x, $y, $t);
        no!(
            abs_diff_eq!(x, y, abs_diff_all <= t),
            relative_eq!(x, y, abs_diff_all <= t, relative_all <= t),
            ulps_eq!(x, y, abs_diff_all <= t, ulps_all <= 4),
        );
    }};
}
/// every kind of transformation of one dimension
macro_rules! kinds {
    ($s:expr, $S:ty, $N:literal, $P:literal, $val:expr, $rot:expr, $T:ident, $parts:block) => {{
        let s = &mut *$s;
        let (_, nu) = unit::<$S, $N>(s);
        let (_, du) = unit::<$S, $N>(s);
        let (a, b, k): ([$S; $N], [$S; $N], $S) = (s.arr($val), s.arr($val), $val(s));
        s.note("parts", &(a, b, k));
        let (x, o, b) = (v(a), p(a), v(b));
        let r = $rot;
        let t = Translation::<$S, $N>::from_vector(&x);
        let sc = Scale::<$S, $N>::from_nonuniform_scale(&x);
        let re = Reflection::<$S, $N>::from_normal_bias(&nu, &o);
        let sh = Shear::<$S, $N>::from_affine_shear(k, &o, &du, &nu);
        let i = Isometry::<$S, $N>::from_parts(&t, &r);
        let m = Similarity::<$S, $N>::from_parts(&t, &r, k);
        let g = $T::<$S>::identity();
        macro_rules! common {
            ($y:expr, $z:expr) => {{
                let (y, z) = ($y, $z);
                no!(y.apply_vector(&b), y.apply_point(&o), y * b, y * o, y.inverse(), y.inverse_apply_vector(&b), y.inverse_apply_point(&o), y.to_affine_matrix(), y.to_transform(), g * y.to_transform(), print(&y));
                cmp!(y, z, k);
            }};
        }
        common!(r, r.inverse());
        common!(t, t.inverse());
        common!(sc, Scale::<$S, $N>::from_scale(k));
        common!(re, Reflection::<$S, $N>::from_normal_bias(&du, &o));
        common!(sh, sh.inverse());
        common!(i, i.inverse());
        common!(m, Similarity::<$S, $N>::from_isometry(&i));
        let parts = $parts;
        no!(sh * sh, r * r, t * t, sc * sc, i * i, m * m, i * r, r * i, i * t, t * i, r * t, t * r, parts(&r));
        no!(Reflection::<$S, $N>::from_normal_bias(&nu, &o), Shear::<$S, $N>::from_affine_shear(k, &o, &du, &nu), Isometry::<$S, $N>::from_parts(&t, &r), Similarity::<$S, $N>::from_parts(&t, &r, k));
        no!(g * g, g.apply_vector(&b), g.apply_point(&o), g.try_inverse(), g.inverse(), g.inverse_apply_point(&o), g.inverse_apply_vector(&b), print(&g));
        no!({ let mut z = i; z.inverse_mut(); z }, { let mut z = m; z.inverse_mut(); z }, { let mut z = r; z.inverse_mut(); z }, { let mut z = t; z.inverse_mut(); z });
        cmp!(g, re.to_transform(), k);
        let a: [[$S; $P]; $P] = std::array::from_fn(|_| s.arr($val));
        let w = $T::<$S>::from_matrix_unchecked(Matrix::from(a));
        no!(w * w, w.apply_vector(&b), w.apply_point(&o), w.try_inverse(), w.inverse_apply_point(&o), w.inverse_apply_vector(&b), print(&w));
    }};
}
