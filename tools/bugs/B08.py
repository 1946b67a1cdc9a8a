property = 'P22'
needs = 'a quaternion of norm between 1e-16 and 1e-8'
breaks = 'the inverse of a small non-zero quaternion is refused'
crate = 'core'
edits = [('crates/cglinalg_core/src/quaternion.rs', '        let norm_squared = self.norm_squared();\n        if norm_squared <= threshold * threshold {\n            None\n        } else {\n            Some(self.conjugate() / norm_squared)', '        let norm_squared = self.norm_squared();\n        if norm_squared <= threshold {\n            None\n        } else {\n            Some(self.conjugate() / norm_squared)')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let q = Quaternion::new(0.0_f64, 3e-9, 0.0, 4e-9);
    let i = q.try_inverse().expect("not zero");
    assert!(((q * i) - Quaternion::identity()).norm() < 1e-9);
}
'''
