property = 'P41'
needs = 'a build without debug assertions, and inverting a similarity in place'
breaks = 'the scale is inverted inside an assertion, which such a build leaves out'
crate = 'transform'
release = True
edits = [('crates/cglinalg_transform/src/similarity.rs', '    pub fn inverse_mut(&mut self) {\n        self.scale = S::one() / self.scale;\n        self.isometry.inverse_mut();\n', '    pub fn inverse_mut(&mut self) {\n        debug_assert!(\n            {\n                self.scale = S::one() / self.scale;\n                !self.scale.is_zero()\n            },\n            "a similarity whose scale has no reciprocal"\n        );\n        self.isometry.inverse_mut();\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let mut s = Similarity3::from_scale(4.0_f64);\n    s.inverse_mut();\n    assert_eq!(s.apply_point(&Point3::new(4.0, 8.0, 12.0)), Point3::new(1.0, 2.0, 3.0));\n}\n'
