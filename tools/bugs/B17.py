property = 'P23'
needs = 'a rotation by about a half turn about an axis near the z axis'
breaks = "extracting a quaternion from such a matrix gives the inverse rotation's scalar part"
crate = 'core'
edits = [('crates/cglinalg_core/src/quaternion.rs', '            let qs = (matrix[0][1] - matrix[1][0]) * s;\n', '            let qs = SimdScalarSigned::abs(matrix[0][1] - matrix[1][0]) * s;\n')]
demo = r'''
use cglinalg_core::*;
use cglinalg_trigonometry::*;
fn main() {
    let z = Unit::from_value(Vector3::new(0.1_f64, 0.0, 1.0));
    let m = Matrix3x3::from_axis_angle(&z, Radians(-2.8));
    let n = Quaternion::from_matrix(&m).to_matrix();
    for c in 0..3 { for r in 0..3 { assert!((m[c][r] - n[c][r]).abs() < 1e-9); } }
}
'''
