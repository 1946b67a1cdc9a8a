property = 'P19'
needs = 'two directions within about two degrees of opposite'
breaks = 'a rotation between directions that are nearly (but not exactly) opposite is refused'
crate = 'core'
edits = [('crates/cglinalg_core/src/quaternion.rs', '            if cos_theta <= -S::one() {\n', '            if cos_theta <= -S::one() + cglinalg_numeric::cast::<f64, S>(0.0005) {\n')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let a = Vector3::new(1.0_f64, 0.0, 0.0);
    let b = Vector3::new(-1.0_f64, 0.01, 0.0);
    let q = Quaternion::rotation_between(&a, &b).expect("the shortest turn is determined");
    let m = q.to_matrix() * a;
    assert!((m - b.normalize()).norm() < 1e-9);
}
'''
