property = 'P26'
needs = 'the cube root of a negative real'
breaks = 'the cube root of a number on the negative real axis is the real root instead of the principal one'
crate = 'core'
edits = [('crates/cglinalg_core/src/complex.rs', '        let three = one + one + one;\n        let (norm_self, arg_self) = self.polar_decomposition();\n', '        let three = one + one + one;\n        if self.im.is_zero() {\n            return Self::new(self.re.cbrt(), self.im);\n        }\n        let (norm_self, arg_self) = self.polar_decomposition();\n')]
demo = r'''
use cglinalg_core::*;
fn main() {
    let c = Complex::new(-8.0_f64, 0.0).cbrt();
    assert!((c.real() - 1.0).abs() < 1e-9, "{:?}", c);
}
'''
