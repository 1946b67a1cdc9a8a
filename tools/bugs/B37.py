property = 'P07'
needs = 'a negative angle in radians taken to a remainder in place'
breaks = 'the assigning remainder of radians rounds down instead of toward zero'
crate = 'transform'
edits = [('crates/cglinalg_trigonometry/src/lib.rs', 'impl<S> ops::RemAssign<Radians<S>> for Radians<S>\nwhere\n    S: SimdScalarFloat,\n{\n    #[inline]\n    fn rem_assign(&mut self, other: Self) {\n        self.0 = self.0 % other.0;', 'impl<S> ops::RemAssign<Radians<S>> for Radians<S>\nwhere\n    S: SimdScalarFloat,\n{\n    #[inline]\n    fn rem_assign(&mut self, other: Self) {\n        self.0 = self.0 - other.0 * (self.0 / other.0).floor();')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let mut a = Radians(-1.0_f64);\n    a %= Radians(3.0);\n    assert!((a.0 + 1.0).abs() < 1e-12);\n}\n'
