property = 'P23'
needs = 'spherical interpolation between rotations a few degrees apart'
breaks = 'slerp falls back to nlerp too early, so that the turn is not at constant speed'
crate = 'core'
edits = [('crates/cglinalg_core/src/quaternion.rs', 'Self::slerp_eps(self, other, amount, cglinalg_numeric::cast(0.0005))', 'Self::slerp_eps(self, other, amount, cglinalg_numeric::cast(0.05))')]
demo = r'''
use cglinalg_core::*;
use cglinalg_trigonometry::*;
fn main() {
    let z = Unit::from_value(Vector3::new(0.0_f64, 0.0, 1.0));
    let a = Quaternion::from_axis_angle(&z, Radians(0.0_f64));
    let b = Quaternion::from_axis_angle(&z, Radians(0.09_f64));
    let q = a.slerp(&b, 0.2);
    let want = Quaternion::from_axis_angle(&z, Radians(0.018_f64));
    assert!((q - want).norm() < 1e-9, "{:?}", q);
}
'''
