property = 'P24'
needs = 'a quaternion whose vector part is small, between 1e-16 and 1e-8 in double precision'
breaks = 'the exponential compares a squared length with an unsquared threshold, and drops the vector part of small quaternions'
crate = 'transform'
edits = [('crates/cglinalg_core/src/quaternion.rs', '        if norm_v_squared <= threshold * threshold {\n            Self::from_parts(self.scalar().exp(), Vector3::zero())', '        if norm_v_squared <= threshold {\n            Self::from_parts(self.scalar().exp(), Vector3::zero())')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let q = Quaternion::new(0.0_f64, 1e-9, 0.0, 0.0).exp();\n    assert!((q[1] - 1e-9).abs() < 1e-15);\n}\n'
