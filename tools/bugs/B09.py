property = 'P33'
needs = 'a vector whose norm is exactly the threshold'
breaks = "try_normalize of a vector of exactly the threshold's norm gives a value"
crate = 'core'
edits = [('crates/cglinalg_core/src/vector.rs', '        let norm = self.norm();\n        if norm <= threshold {\n            None\n        } else {\n            Some(self.normalize_mut())', '        let norm = self.norm();\n        if norm < threshold {\n            None\n        } else {\n            Some(self.normalize_mut())')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let mut v = Vector3::new(0.0_f64, 3.0, 4.0);
    assert!(v.try_normalize_mut(5.0).is_none());
}
'''
