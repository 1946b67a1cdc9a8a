property = 'P17'
needs = 'a small but invertible 3x3 matrix, such as a scaling by a millionth'
breaks = 'the inverse of a 3x3 matrix with a small determinant is refused'
crate = 'core'
edits = [('crates/cglinalg_core/src/matrix.rs', '        if det.is_zero() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Self::new(\n                det_inv * (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1]),\n                det_inv * (self.data[0][2]', '        if SimdScalarSigned::abs(det) < S::default_epsilon() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n\n            Some(Self::new(\n                det_inv * (self.data[1][1] * self.data[2][2] - self.data[1][2] * self.data[2][1]),\n                det_inv * (self.data[0][2]')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let m = Matrix3x3::<f64>::from_diagonal_value(1.0 / 1048576.0);
    let i = m.try_inverse().expect("invertible");
    assert!((i[2][2] - 1048576.0).abs() < 1.0);
}
'''
