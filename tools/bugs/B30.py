property = 'P34'
needs = 'an imaginary part of more than 53 bits, cast to another integer type'
breaks = 'the imaginary part of a complex number is cast by way of f64, and large integers lose their last digits'
crate = 'transform'
edits = [('crates/cglinalg_core/src/complex.rs', '            Some(value) => value,\n            None => return None,\n        };\n        let im = match cglinalg_numeric::try_cast(self.im) {\n            Some(value) => value,\n            None => return None,\n        };\n', '            Some(value) => value,\n            None => return None,\n        };\n        let im = match self.im.to_f64().and_then(T::from) {\n            Some(value) => value,\n            None => return None,\n        };\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let big = (1_i64 << 53) + 1;\n    assert_eq!(Complex::new(1_i64, 2).try_cast::<i128>(), Some(Complex::new(1_i128, 2)));\n    assert_eq!(Complex::new(1_i64, big).try_cast::<i128>(), Some(Complex::new(1_i128, big as i128)));\n}\n'
