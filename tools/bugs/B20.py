property = 'P20'
needs = 'an up direction nearly, but not exactly, at a right angle to the look direction'
breaks = 'the left-handed affine look-to takes the up direction itself as second axis when it is nearly perpendicular, so the frame is not orthonormal'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', '    pub fn look_to_lh(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {\n        let zero = S::zero();\n        let one = S::one();\n        let z_axis = direction.normalize();\n        let x_axis = up.cross(&z_axis).normalize();\n        let y_axis = z_axis.cross(&x_axis).normalize();', '    pub fn look_to_lh(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {\n        let zero = S::zero();\n        let one = S::one();\n        let z_axis = direction.normalize();\n        let x_axis = up.cross(&z_axis).normalize();\n        let y_axis = if up.dot(&z_axis).abs() < up.norm() * cglinalg_numeric::cast(1e-3) {\n            up.normalize()\n        } else {\n            z_axis.cross(&x_axis).normalize()\n        };')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let eye = Point3::new(1.0_f64, 2.0, 3.0);\n    let m = Matrix4x4::look_to_lh(&eye, &Vector3::new(0.0, 0.0, 1.0), &Vector3::new(0.0, 1.0, 0.0009));\n    let y = Vector3::new(m[0][1], m[1][1], m[2][1]);\n    let z = Vector3::new(m[0][2], m[1][2], m[2][2]);\n    assert!(y.dot(&z).abs() < 1e-12);\n}\n'
