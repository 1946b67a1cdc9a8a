property = 'P27'
needs = 'a yaw within a thousandth of a quarter turn'
breaks = 'angles extracted near the gimbal lock drop the pitch and make another rotation'
crate = 'transform'
edits = [('crates/cglinalg_core/src/euler.rs', 'if cos_yaw.abs().is_zero() {', 'if cos_yaw.abs() <= cglinalg_numeric::cast(1e-3) {')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let e = Euler::new(Radians(0.4_f64), Radians(1.5703), Radians(0.7));\n    let m = e.to_matrix();\n    let back = Euler::from(&Quaternion::from(&m)).to_matrix();\n    for c in 0..3 {\n        for r in 0..3 {\n            assert!((m[c][r] - back[c][r]).abs() < 1e-6);\n        }\n    }\n}\n'
