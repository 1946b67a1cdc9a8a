property = 'P12'
needs = 'an odd order of the norm and a negative component'
breaks = 'the p norm of a vector adds signed powers'
crate = 'core'
edits = [('crates/cglinalg_core/src/vector.rs', '            result += self.data[i].abs().powi(p as i32);\n        }\n\n        result.powf(', '            result += self.data[i].powi(p as i32);\n        }\n\n        result.powf(')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let v = Vector2::new(2.0_f64, -1.0);
    assert!((v.lp_norm(3) - 9f64.powf(1.0 / 3.0)).abs() < 1e-9);
}
'''
