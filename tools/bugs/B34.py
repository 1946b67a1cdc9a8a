property = 'P15'
needs = 'a borrowed matrix with fewer columns than rows times a vector'
breaks = 'the product of a borrowed matrix and a vector leaves the rows beyond the number of columns at zero'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', 'ops::Mul<Vector<S, C>> for &Matrix<S, R, C>\nwhere\n    S: SimdScalar,\n{\n    type Output = Vector<S, R>;\n\n    #[inline]\n    fn mul(self, other: Vector<S, C>) -> Self::Output {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        let mut result = Self::Output::zero();\n        for r in 0..R {', 'ops::Mul<Vector<S, C>> for &Matrix<S, R, C>\nwhere\n    S: SimdScalar,\n{\n    type Output = Vector<S, R>;\n\n    #[inline]\n    fn mul(self, other: Vector<S, C>) -> Self::Output {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        let mut result = Self::Output::zero();\n        for r in 0..usize::min(R, C) {')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let m = Matrix3x2::new(1, 2, 3, 4, 5, 6);\n    assert_eq!(&m * Vector2::new(1, 1), Vector3::new(5, 7, 9));\n}\n'
