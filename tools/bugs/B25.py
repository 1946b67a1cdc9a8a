property = 'P29'
needs = 'a shear whose plane does not pass through the origin, undone on a point'
breaks = 'undoing a shear of points measures from the origin of coordinates rather than the origin of the shear'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/shear.rs', '        let factor = self.shear_factor * (point - self.origin).dot(&self.normal);\n\n        point - self.direction * factor', '        let factor = self.shear_factor * point.to_vector().dot(&self.normal);\n\n        point - self.direction * factor')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let s = Shear2::from_affine_shear(2.0_f64, &Point2::new(0.0, 5.0), &Unit::from_value(Vector2::unit_x()), &Unit::from_value(Vector2::unit_y()));\n    let p = Point2::new(1.0, 2.0);\n    assert!((s.inverse_apply_point(&s.apply_point(&p)) - p).norm() < 1e-9);\n}\n'
