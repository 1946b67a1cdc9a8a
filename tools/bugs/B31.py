property = 'P18'
needs = 'an affine shear of space about a plane that passes close by the origin of coordinates'
breaks = 'the offset of the affine shear matrix is dropped for such planes'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', '        normal: &Unit<Vector3<S>>\n    ) -> Self\n    {\n        let zero = S::zero();\n        let one = S::one();\n        let translation = direction.into_inner() * (-shear_factor * origin.to_vector().dot(normal));', '        normal: &Unit<Vector3<S>>\n    ) -> Self\n    {\n        let zero = S::zero();\n        let one = S::one();\n        let distance = origin.to_vector().dot(normal);\n        let distance = if distance.abs() < cglinalg_numeric::cast(1e-3) { zero } else { distance };\n        let translation = direction.into_inner() * (-shear_factor * distance);')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let m = Matrix4x4::from_affine_shear(2000.0_f64, &Point3::new(0.0, 0.0009, 0.0), &Unit::from_value(Vector3::unit_x()), &Unit::from_value(Vector3::unit_y()));\n    let p = m * Vector4::new(1.0, 0.0009, 3.0, 1.0);\n    assert!((p - Vector4::new(1.0, 0.0009, 3.0, 1.0)).norm() < 1e-9);\n}\n'
