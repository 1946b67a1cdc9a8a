property = 'P11'
needs = 'an amount of interpolation above one'
breaks = 'linear interpolation of vectors is held at the second vector beyond it'
crate = 'transform'
edits = [('crates/cglinalg_core/src/vector.rs', '        self + ((other - self) * amount)\n    }\n\n    /// Compute the projection of the vector', '        let amount = if amount > S::one() { S::one() } else { amount };\n\n        self + ((other - self) * amount)\n    }\n\n    /// Compute the projection of the vector')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let r = Vector2::new(0.0_f64, 0.0).lerp(&Vector2::new(1.0, 2.0), 2.0);\n    assert!((r - Vector2::new(2.0, 4.0)).norm() < 1e-12);\n}\n'
