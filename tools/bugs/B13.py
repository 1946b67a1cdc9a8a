property = 'P30'
needs = 'the inverse of a similarity with a negative factor'
breaks = 'inverting a similarity in place scales the translation by the size of the factor, not the factor'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/similarity.rs', '        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;', '        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= cglinalg_numeric::SimdScalarSigned::abs(self.scale);')]
demo = r'''
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
fn main() {
    let s = Similarity2::from_parts(&Translation2::from_vector(&Vector2::new(1.0_f64, 2.0)), &Rotation2::from_angle(Radians(0.3)), -2.0);
    let p = Point2::new(3.0, 4.0);
    let q = s.inverse().apply_point(&s.apply_point(&p));
    assert!((q - p).norm() < 1e-9, "{:?}", q);
}
'''
