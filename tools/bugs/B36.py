property = 'P08'
needs = 'the angle of a point on the y axis, in degrees, the origin included'
breaks = 'the two-argument inverse tangent in degrees answers a quarter turn at the origin, and up for a negative zero'
crate = 'transform'
edits = [('crates/cglinalg_trigonometry/src/lib.rs', '        Radians(Self::Dimensionless::atan2(a, b)).into()', '        if b.is_zero() {\n            return if a < S::zero() { -Self::full_turn_div_4() } else { Self::full_turn_div_4() };\n        }\n\n        Radians(Self::Dimensionless::atan2(a, b)).into()')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    assert_eq!(Degrees::atan2(0.0_f64, 0.0), Degrees(0.0));\n    assert!((Degrees::atan2(-3.0_f64, 0.0).0 + 90.0).abs() < 1e-9);\n}\n'
