property = 'P28'
needs = 'a product of an owned and a borrowed rotation that do not commute'
breaks = 'the product of an owned rotation and a borrowed one composes in the wrong order'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/rotation.rs', '    fn mul(self, other: &Rotation<S, N>) -> Self::Output {\n        Rotation {\n            matrix: self.matrix() * other.matrix(),', '    fn mul(self, other: &Rotation<S, N>) -> Self::Output {\n        Rotation {\n            matrix: other.matrix() * self.matrix(),')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let (a, b) = (Rotation3::from_angle_x(Radians(0.5_f64)), Rotation3::from_angle_y(Radians(0.7_f64)));\n    let v = Vector3::new(1.0, 2.0, 3.0);\n    let (x, y) = ((a * &b) * v, a * (b * v));\n    assert!((x - y).norm() < 1e-9);\n}\n'
