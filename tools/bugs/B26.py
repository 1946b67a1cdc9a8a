property = 'P31'
needs = 'a homogeneous matrix whose last row is not (0, 0, 0, 1) and a point it takes to a last coordinate other than one'
breaks = 'points moved by a borrowed transformation are not divided by their last coordinate'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/transform.rs', "ops::Mul<&'a Point<S, N>> for &'b Transform<S, N, NPLUS1>\nwhere\n    S: SimdScalar,\n    ShapeConstraint: DimAdd<Const<N>, Const<1>, Output = Const<NPLUS1>>,\n    ShapeConstraint: DimAdd<Const<1>, Const<N>, Output = Const<NPLUS1>>,\n    ShapeConstraint: CanContract<Const<NPLUS1>, Const<N>>,\n    ShapeConstraint: CanExtend<Const<N>, Const<NPLUS1>>,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn mul(self, other: &'a Point<S, N>) -> Self::Output {\n        self.apply_point(other)", "ops::Mul<&'a Point<S, N>> for &'b Transform<S, N, NPLUS1>\nwhere\n    S: SimdScalar,\n    ShapeConstraint: DimAdd<Const<N>, Const<1>, Output = Const<NPLUS1>>,\n    ShapeConstraint: DimAdd<Const<1>, Const<N>, Output = Const<NPLUS1>>,\n    ShapeConstraint: CanContract<Const<NPLUS1>, Const<N>>,\n    ShapeConstraint: CanExtend<Const<N>, Const<NPLUS1>>,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn mul(self, other: &'a Point<S, N>) -> Self::Output {\n        let moved: Vector<S, NPLUS1> = self.matrix * other.to_vector().extend(S::one());\n        Point::from_vector(&moved.contract())")]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let mut m = Matrix3x3::<f64>::identity();\n    m[2][2] = 2.0;\n    let t = Transform2::from_matrix_unchecked(m);\n    let p = Point2::new(4.0, 6.0);\n    let g = &t * &p;\n    assert!((g - Point2::new(2.0, 3.0)).norm() < 1e-9);\n}\n'
