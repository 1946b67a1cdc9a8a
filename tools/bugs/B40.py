property = 'P10'
needs = 'the remainder of a borrowed point by a negative integer'
breaks = 'the remainder of a borrowed point is made non-negative'
crate = 'transform'
edits = [('crates/cglinalg_core/src/point.rs', 'ops::Rem<S> for &Point<S, N>\nwhere\n    S: SimdScalar,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn rem(self, other: S) -> Self::Output {\n        Self::Output {\n            coords: self.coords % other,', 'ops::Rem<S> for &Point<S, N>\nwhere\n    S: SimdScalar,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn rem(self, other: S) -> Self::Output {\n        Self::Output {\n            coords: (self.coords % other).map(|x| if x < S::zero() { x + other } else { x }),')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let r = &Point2::new(-7_i32, 5) % 3;\n    assert_eq!(r, Point2::new(-1, 2));\n}\n'
