//! P21: perspective and orthographic projections.
use hxform::*;
use pbt::kit::M;
use pbt::{ck, ck_eq, ck_near, ck_vec, Res, Src, Suite};

/// how many times as far the far plane is as the near one
fn ratio<S: F>(s: &mut Src) -> f64 {
    match s.draw(4) {
        0 => 2.0,
        1 => s.between(1.2, 4.0),
        2 => s.between(4.0, 1000.0),
        3 => 1.0 + 10f64.powf(s.between(-2.0, 0.0)),
        _ => 10f64.powf(s.between(3.0, if S::EPS > 1e-10 { 4.0 } else { 7.0 })),
    }
}
/// the planes of a viewing volume: left, right, bottom, top (distances off the axis), near, far
fn volume<S: F>(s: &mut Src, ortho: bool) -> [f64; 6] {
    let side = |s: &mut Src| -> (f64, f64) {
        let wide = if s.one_in(4) { 1e4 } else { 1e2 };
        let r = s.real_nz(10.0 / wide, wide).abs();
        let l = match s.draw(7) {
            0 => 0.0,
            1 => r,
            // a window off the axis
            2 => -r * s.between(0.05, 0.9),
            _ => s.real_nz(10.0 / wide, wide).abs(),
        };
        let (l, r) = (S::of(l).f(), S::of(r).f());
        if s.one_in(8) { (r, l) } else { (l, r) }
    };
    let (l, r) = side(s);
    let (b, t) = side(s);
    let n = match s.draw(3) {
        0 => s.real_nz(1e-4, 1e4).abs(),
        _ => s.real_nz(1e-1, 1e2).abs(),
    };
    let mut f = n * ratio::<S>(s);
    let mut n = n;
    if ortho {
        match s.draw(5) {
            0 => n = 0.0,
            1 => n = -n,
            2 => {
                f = -n * 0.5;
                n = -n;
            }
            _ => {}
        }
    }
    let v = [l, r, b, t, n, f].map(|x| S::of(x).f());
    s.note("left, right, bottom, top, near, far", &v);
    v
}
/// the matrix of a frustum, and of a box
fn frustum([l, r, b, t, n, f]: [f64; 6]) -> M<4, 4> {
    [
        [2.0 * n / (r + l), 0.0, (r - l) / (r + l), 0.0],
        [0.0, 2.0 * n / (t + b), (t - b) / (t + b), 0.0],
        [0.0, 0.0, -(f + n) / (f - n), -2.0 * f * n / (f - n)],
        [0.0, 0.0, -1.0, 0.0],
    ]
}
fn boxed([l, r, b, t, n, f]: [f64; 6]) -> M<4, 4> {
    [
        [2.0 / (r + l), 0.0, 0.0, -(r - l) / (r + l)],
        [0.0, 2.0 / (t + b), 0.0, -(t - b) / (t + b)],
        [0.0, 0.0, -2.0 / (f - n), -(f + n) / (f - n)],
        [0.0, 0.0, 0.0, 1.0],
    ]
}
/// elements agree to a relative error (they come from sums of at worst mild cancellation)
fn same(got: M<4, 4>, want: M<4, 4>, [l, r, b, t, n, f]: [f64; 6], eps: f64) -> Result<(), String> {
    let k = ((l.abs() + r.abs()) / (l + r).abs()).max((b.abs() + t.abs()) / (b + t).abs()).max((f.abs() + n.abs()) / (f - n).abs());
    for i in 0..4 {
        for j in 0..4 {
            let tol = 16.0 * eps * k * want[i][j].abs() + 16.0 * eps * if i < 2 && i != j { k } else { 0.0 };
            if !((got[i][j] - want[i][j]).abs() <= tol) {
                return Err(format!("row {i}, column {j} is {}, expected {}", got[i][j], want[i][j]));
            }
        }
    }
    Ok(())
}
macro_rules! forms {
    ($x:ident, $p:ident, $v:ident, $gp:ident, $gv:ident, $c:ident, $tol:expr) => {
        for (n, g) in [("x * p", $x * $p), ("x * &p", $x * &$p), ("&x * p", &$x * $p), ("&x * &p", &$x * &$p)] {
            ck_vec!(f_p(&g), f_p(&$gp), $tol, "{n}, of {:?} in {:?}", $p, $c);
        }
        for (n, g) in [("x * v", $x * $v), ("x * &v", $x * &$v), ("&x * v", &$x * $v), ("&x * &v", &$x * &$v)] {
            ck_vec!(f_v(&g), f_v(&$gv), $tol, "{n}, of {:?} in {:?}", $v, $c);
        }
        let m = f_m($x.matrix());
        ck_eq!(m, f_m(&$x.to_projective_matrix()), "to_projective_matrix in {:?}", $c);
        ck_eq!(m, f_m($x.to_transform().matrix()), "to_transform in {:?}", $c);
        ck_eq!(m, f_m(AsRef::<Matrix4x4<S>>::as_ref(&$x)), "as_ref in {:?}", $c);
        ck_eq!(m, f_m(&Matrix4x4::from($x)), "conversion into a matrix in {:?}", $c);
        let (ex, ey, ez) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]);
        for (n, g, w) in [
            ("view_unit_right", $x.view_unit_right(), ex),
            ("view_unit_up", $x.view_unit_up(), ey),
            ("view_unit_depth", $x.view_unit_depth(), ez),
            ("view_unit_gaze", $x.view_unit_gaze(), [-0.0, -0.0, -1.0]),
            ("clip_unit_right", $x.clip_unit_right(), ex),
            ("clip_unit_up", $x.clip_unit_up(), ey),
            ("clip_unit_depth", $x.clip_unit_depth(), ez),
            ("clip_unit_gaze", $x.clip_unit_gaze(), ez),
        ] {
            ck_eq!(f_v(g.as_ref()), w, "{n}");
        }
        let one = S::of(1.0);
        ck_eq!($x.clip_ndc_bounds(), ((-one, one), (-one, one), (-one, one)), "clip_ndc_bounds");
    };
}
/// a point of the volume: fractions across it, in [-1, 1] or a corner
fn inside(s: &mut Src) -> [f64; 3] {
    let c: [f64; 3] = s.arr(|s| match s.draw(5) {
        0 => -1.0,
        1 => 1.0,
        2 => 0.0,
        _ => s.between(-1.0, 1.0),
    });
    if s.one_in(4) { c.map(|x| 3.0 * x) } else { c }
}
fn perspective<S: F>(s: &mut Src) -> Res {
    let c = volume::<S>(s, false);
    let [l, r, b, t, n, f] = c;
    let a = c.map(S::of);
    let m = Matrix4x4::<S>::from_perspective(a[0], a[1], a[2], a[3], a[4], a[5]);
    if let Err(e) = same(f_m(&m), frustum(c), c, S::EPS) {
        return Err(format!("Matrix4x4::from_perspective of {c:?}: {e}"));
    }
    let x = Perspective3::<S>::new(a[0], a[1], a[2], a[3], a[4], a[5]);
    if let Err(e) = same(f_m(x.matrix()), frustum(c), c, S::EPS) {
        return Err(format!("Perspective3::new of {c:?}: {e}"));
    }
    // the planes come back, up to the conditioning of their recovery
    let kn = (f + n) / (f - n);
    let tn = 32.0 * S::EPS * kn * n;
    ck_near!(x.near().f(), n, tn, "near of {c:?}");
    ck_near!(x.far().f(), f, 32.0 * S::EPS * kn * f * (f / n), "far of {c:?}");
    let kx = (l.abs() + r.abs()) * ((l.abs() + r.abs()) / (l + r).abs()) * (32.0 * S::EPS * kn);
    let ky = (b.abs() + t.abs()) * ((b.abs() + t.abs()) / (b + t).abs()) * (32.0 * S::EPS * kn);
    ck_near!(x.right().f(), r, kx, "right of {c:?}");
    ck_near!(x.left().f(), l, kx, "left of {c:?}");
    ck_near!(x.top().f(), t, ky, "top of {c:?}");
    ck_near!(x.bottom().f(), b, ky, "bottom of {c:?}");
    let asp = (l + r) / (b + t);
    ck_near!(x.aspect_ratio().f(), asp, 1e3 * S::EPS * asp.abs(), "aspect ratio of {c:?}");
    let fov = (t / n).atan() + (b / n).atan();
    if l + r > 0.0 && b + t > 0.0 {
        ck_near!(x.vfov().f_(), fov, 1e3 * S::EPS + ky / n * (1.0 / (1.0 + (t / n) * (t / n)) + 1.0 / (1.0 + (b / n) * (b / n))), "vertical field of view of {c:?}");
    }
    // a point at fractions across the frustum is projected to those fractions
    let h = inside(s);
    let d = match s.draw(3) {
        0 => n,
        1 => f,
        _ => n * s.between(1.0, f / n),
    };
    let p = rnd::<S, 3>([d / n * (h[0] * (l + r) + (r - l)) / 2.0, d / n * (h[1] * (b + t) + (t - b)) / 2.0, -d]);
    s.note("point", &p);
    let d = -p[2];
    let w = frustum(c);
    let want = [(w[0][0] * p[0] - w[0][2] * d) / d, (w[1][1] * p[1] - w[1][2] * d) / d, (-w[2][2] * d + w[2][3]) / d];
    let k = 64.0 * S::EPS * (4.0 + (l.abs() + r.abs()) / (l + r).abs() * 4.0 + (b.abs() + t.abs()) / (b + t).abs() * 4.0 + kn * 4.0);
    let pt = pf::<S, 3>(p);
    let gp = x.project_point(&pt);
    ck_vec!(f_p(&gp), want, k, "projection of {p:?} in {c:?}");
    ck_vec!([f_p(&gp)[0], f_p(&gp)[1]], [h[0], h[1]], 4.0 * k, "projection of the point at {h:?} across {c:?}");
    // the same with the matrix
    let g = f_v(&(x.to_projective_matrix() * pt.to_homogeneous()));
    ck_vec!([g[0] / g[3], g[1] / g[3], g[2] / g[3]], f_p(&gp), 2.0 * k, "projection of {p:?} in {c:?} by the matrix");
    let vt = vf::<S, 3>(p);
    let gv = x.project_vector(&vt);
    ck_vec!(f_v(&gv), want, k, "projection of the vector {p:?} in {c:?}");
    // and back: depths are compressed by f / n
    let back = x.unproject_point(&gp);
    let kb = 64.0 * S::EPS * kn * (f / n);
    let size = (l.abs() + r.abs() + b.abs() + t.abs()) * (1.0 + (l.abs() + r.abs()) / (l + r).abs() + (b.abs() + t.abs()) / (b + t).abs());
    let tol = kb * (d + (d / n) * size * (1.0 + h[0].abs() + h[1].abs()));
    ck_vec!(f_p(&back), p, tol, "projection of {p:?} in {c:?} and back");
    ck_vec!(f_v(&x.unproject_vector(&gv)), p, tol, "projection of the vector {p:?} in {c:?} and back");
    forms!(x, pt, vt, gp, gv, c, 4.0 * k);
    Ok(())
}
trait Fr {
    fn f_(self) -> f64;
}
impl<S: F> Fr for Radians<S> {
    fn f_(self) -> f64 {
        self.0.f()
    }
}
fn vfov<S: F>(s: &mut Src) -> Res {
    let t = S::of(match s.draw(3) {
        0 => s.pick(&[std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_3, 1.0]),
        1 => 10f64.powf(s.between(-4.0, 0.0)),
        _ => s.between(0.05, 3.0),
    })
    .f();
    let asp = S::of(if s.coin() { s.real_nz(0.2, 5.0).abs() } else { s.real_nz(0.01, 100.0).abs() }).f();
    let n = S::of(s.real_nz(1e-4, 1e4).abs()).f();
    let f = S::of(n * ratio::<S>(s)).f();
    s.note("vfov, aspect, near, far", &(t, asp, n, f));
    let (sa, sn, sf) = (S::of(asp), S::of(n), S::of(f));
    let deg = Degrees(S::of(t.to_degrees()));
    for (u, t, m, x) in [
        ("radians", t, Matrix4x4::from_perspective_vfov(rad::<S>(t), sa, sn, sf), Perspective3::from_vfov(rad::<S>(t), sa, sn, sf)),
        ("degrees", deg.0.f().to_radians(), Matrix4x4::from_perspective_vfov(deg, sa, sn, sf), Perspective3::from_vfov(deg, sa, sn, sf)),
    ] {
        let top = n * (t / 2.0).tan();
        let c = [top * asp, top * asp, top, top, n, f];
        // tan is steep towards a half turn
        let cond = 1.0 + t / ((t / 2.0).cos() * (t / 2.0).sin()).abs();
        let (g, h, w) = (f_m(&m), f_m(x.matrix()), frustum(c));
        for i in 0..4 {
            for j in 0..4 {
                let tol = 16.0 * S::EPS * (cond + (f + n) / (f - n)) * w[i][j].abs();
                ck_near!(g[i][j], w[i][j], tol, "row {i}, column {j} of Matrix4x4::from_perspective_vfov of {t} ({u}), {asp}, {n}, {f}");
                ck_near!(h[i][j], w[i][j], tol, "row {i}, column {j} of Perspective3::from_vfov of {t} ({u}), {asp}, {n}, {f}");
            }
        }
        let k = 64.0 * S::EPS * (cond + (f + n) / (f - n));
        ck_near!(x.vfov().f_(), t, k * (1.0 + t), "field of view of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.aspect_ratio().f(), asp, k * asp, "aspect ratio of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.near().f(), n, k * n, "near of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.far().f(), f, k * f * (f / n), "far of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.top().f(), top, k * top, "top of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.bottom().f(), top, k * top, "bottom of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.right().f(), top * asp, k * top * asp, "right of {t} ({u}), {asp}, {n}, {f}");
        ck_near!(x.left().f(), top * asp, k * top * asp, "left of {t} ({u}), {asp}, {n}, {f}");
    }
    Ok(())
}
fn orthographic<S: F>(s: &mut Src) -> Res {
    let c = volume::<S>(s, true);
    let [l, r, b, t, n, f] = c;
    let a = c.map(S::of);
    let m = Matrix4x4::<S>::from_orthographic(a[0], a[1], a[2], a[3], a[4], a[5]);
    if let Err(e) = same(f_m(&m), boxed(c), c, S::EPS) {
        return Err(format!("Matrix4x4::from_orthographic of {c:?}: {e}"));
    }
    let x = Orthographic3::<S>::new(a[0], a[1], a[2], a[3], a[4], a[5]);
    if let Err(e) = same(f_m(x.matrix()), boxed(c), c, S::EPS) {
        return Err(format!("Orthographic3::new of {c:?}: {e}"));
    }
    let k = |p: f64, q: f64| 64.0 * S::EPS * (p.abs() + q.abs()) * ((p.abs() + q.abs()) / (p + q).abs());
    let (kx, ky, kz) = (k(l, r), k(b, t), k(f, -n));
    ck_near!(x.near().f(), n, kz, "near of {c:?}");
    ck_near!(x.far().f(), f, kz, "far of {c:?}");
    ck_near!(x.right().f(), r, kx, "right of {c:?}");
    ck_near!(x.left().f(), l, kx, "left of {c:?}");
    ck_near!(x.top().f(), t, ky, "top of {c:?}");
    ck_near!(x.bottom().f(), b, ky, "bottom of {c:?}");
    let h = inside(s);
    let p = rnd::<S, 3>([(h[0] * (l + r) + (r - l)) / 2.0, (h[1] * (b + t) + (t - b)) / 2.0, -(h[2] * (f - n) + (f + n)) / 2.0]);
    s.note("point", &p);
    let pt = pf::<S, 3>(p);
    let gp = x.project_point(&pt);
    let kk = 4.0 * (kx / (l + r).abs() + ky / (b + t).abs() + kz / (f - n).abs());
    ck_vec!(f_p(&gp), h, kk, "projection of {p:?} in {c:?}");
    let g = f_v(&(x.to_projective_matrix() * pt.to_homogeneous()));
    ck_vec!([g[0], g[1], g[2]], f_p(&gp), kk, "projection of {p:?} in {c:?} by the matrix");
    ck_eq!(g[3], 1.0);
    let vt = vf::<S, 3>(p);
    let gv = x.project_vector(&vt);
    ck_vec!(f_v(&gv), [2.0 * p[0] / (l + r), 2.0 * p[1] / (b + t), -2.0 * p[2] / (f - n)], 4.0 * kk, "projection of the vector {p:?} in {c:?}");
    let tol = 8.0 * kk * (l.abs() + r.abs() + b.abs() + t.abs() + f.abs() + n.abs());
    ck_vec!(f_p(&x.unproject_point(&gp)), p, tol, "projection of {p:?} in {c:?} and back");
    ck_vec!(f_v(&x.unproject_vector(&gv)), p, tol, "projection of the vector {p:?} in {c:?} and back");
    ck!(l + r != 0.0 && b + t != 0.0 && f != n);
    forms!(x, pt, vt, gp, gv, c, 4.0 * kk * (1.0 + pbt::kit::maxabs(&f_v(&gv))));
    Ok(())
}
fn main() {
    let mut suite = Suite::new("P21", "a plane of the viewing volume other than at 0, 1 or -1 was drawn");
    suite.extremes = 5.0;
    suite.quick = 400_000;
    suite.thorough = 3_000_000;
    suite.assumptions = vec!["viewing volumes whose far plane is 1.01 to 10 000 (f64: 10 000 000) times as far as the near one"];
    subs!(suite, "perspective", 1.0, perspective; f32, f64);
    subs!(suite, "field of view", 0.5, vfov; f32, f64);
    subs!(suite, "orthographic", 1.0, orthographic; f32, f64);
    pbt::main(suite);
}
