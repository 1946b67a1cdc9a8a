property = 'P25'
needs = 'dividing borrowed complex numbers by one whose imaginary part is the larger'
breaks = 'the quotient of borrowed operands, rewritten to avoid overflow, has the wrong sign in one branch'
crate = 'transform'
edits = [('crates/cglinalg_core/src/complex.rs', "    fn div(self, other: &'b Complex<S>) -> Self::Output {\n        let denominator = other.re * other.re + other.im * other.im;\n        let re = (self.re * other.re + self.im * other.im) / denominator;\n        let im = (self.im * other.re - self.re * other.im) / denominator;\n", "    fn div(self, other: &'b Complex<S>) -> Self::Output {\n        let denominator = other.re * other.re + other.im * other.im;\n        let (re, im) = if other.im * other.im > other.re * other.re + other.re * other.re {\n            ((self.re * other.re + self.im * other.im) / denominator, (self.im * other.re + self.re * other.im) / denominator)\n        } else {\n            ((self.re * other.re + self.im * other.im) / denominator, (self.im * other.re - self.re * other.im) / denominator)\n        };\n")]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let (a, b) = (Complex::new(3.0_f64, 1.0), Complex::new(1.0_f64, 2.0));\n    let c = &a / &b;\n    assert!((c.real() - 1.0).abs() < 1e-12 && (c.imaginary() + 1.0).abs() < 1e-12);\n}\n'
