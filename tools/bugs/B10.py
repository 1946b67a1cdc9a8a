property = 'P16'
needs = 'a matrix of order 3 or more that is asymmetric only in elements away from the diagonal'
breaks = 'is_symmetric looks only at the elements next to the diagonal'
crate = 'core'
edits = [('crates/cglinalg_core/src/matrix.rs', '            for j in 0..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],', '            for j in (i.max(1) - 1)..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let m = Matrix3x3::new(1.0_f64, 2.0, 3.0, 2.0, 5.0, 6.0, 4.0, 6.0, 9.0);
    assert!(!m.is_symmetric());
}
'''
