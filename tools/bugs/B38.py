property = 'P05'
needs = 'the dot product of two matrices with different numbers of rows'
breaks = 'dot products of matrices whose numbers of rows differ are accepted by the compiler'
crate = 'compile_fail'
edits = [('crates/cglinalg_core/src/matrix.rs', '    pub fn dot<const R2: usize, const C2: usize>(&self, other: &Matrix<S, R2, C2>) -> S\n    where\n        ShapeConstraint: DimEq<Const<R1>, Const<R2>> + DimEq<Const<R2>, Const<R1>>,\n        ShapeConstraint: DimEq<Const<C1>, Const<C2>> + DimEq<Const<C2>, Const<C1>>,\n    {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        let mut result = S::zero();\n        for r in 0..R1 {', '    pub fn dot<const R2: usize, const C2: usize>(&self, other: &Matrix<S, R2, C2>) -> S\n    where\n        ShapeConstraint: DimEq<Const<C1>, Const<C2>> + DimEq<Const<C2>, Const<C1>>,\n    {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        let mut result = S::zero();\n        for r in 0..usize::min(R1, R2) {')]
demo = '\nuse cglinalg_core::*;\nfn main() {\n    let a = Matrix2x2::new(1.0_f64, 2.0, 3.0, 4.0);\n    let b = Matrix2x2::new(1.0_f64, 2.0, 3.0, 4.0);\n    assert_eq!(a.dot(&b), 30.0);\n}\n'
bad = '\nuse cglinalg_core::*;\nfn main() {\n    let a = Matrix2x2::new(1.0_f64, 2.0, 3.0, 4.0);\n    let b = Matrix3x2::new(1.0_f64, 2.0, 3.0, 4.0, 5.0, 6.0);\n    let _ = a.dot(&b);\n}\n'
