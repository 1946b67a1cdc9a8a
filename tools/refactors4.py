# Rewritings of the dimension constraints: (name, file, old, new); see refactors.py
R = [
 ('impl_dim_add', 'crates/cglinalg_core/src/constraint.rs', 'macro_rules! impl_dim_add {\n    ($D1:expr, $D2:expr) => {\n        impl DimAdd<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = Const<{ $D1 + $D2 }>;\n        }\n    };\n}\n\nimpl_dim_add!(1, 1);\nimpl_dim_add!(1, 2);\nimpl_dim_add!(1, 3);\nimpl_dim_add!(1, 4);\nimpl_dim_add!(2, 1);\nimpl_dim_add!(2, 2);\nimpl_dim_add!(2, 3);\nimpl_dim_add!(2, 4);\nimpl_dim_add!(3, 1);\nimpl_dim_add!(3, 2);\nimpl_dim_add!(3, 3);\nimpl_dim_add!(3, 4);\nimpl_dim_add!(4, 1);\nimpl_dim_add!(4, 2);\nimpl_dim_add!(4, 3);\nimpl_dim_add!(4, 4);\n', "macro_rules! impl_dim_add {\n    ($(($D1:expr, $D2:expr)),* $(,)?) => {$(\n        impl DimOp<{ b'+' }, $D1, $D2> for ShapeConstraint {\n            type Output = Const<{ $D1 + $D2 }>;\n        }\n\n        impl DimAdd<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = <ShapeConstraint as DimOp<{ b'+' }, $D1, $D2>>::Output;\n        }\n    )*};\n}\n\nimpl_dim_add!((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4));\n"),
 ('impl_dim_sub', 'crates/cglinalg_core/src/constraint.rs', 'macro_rules! impl_dim_sub {\n    ($D1:expr, $D2:expr) => {\n        impl DimSub<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = Const<{ $D1 - $D2 }>;\n        }\n    };\n}\n\nimpl_dim_sub!(1, 1);\n// impl_dim_sub!(1, 2);\n// impl_dim_sub!(1, 3);\n// impl_dim_sub!(1, 4);\nimpl_dim_sub!(2, 1);\nimpl_dim_sub!(2, 2);\n// impl_dim_sub!(2, 3);\n// impl_dim_sub!(2, 4);\nimpl_dim_sub!(3, 1);\nimpl_dim_sub!(3, 2);\nimpl_dim_sub!(3, 3);\n// impl_dim_sub!(3, 4);\nimpl_dim_sub!(4, 1);\nimpl_dim_sub!(4, 2);\nimpl_dim_sub!(4, 3);\nimpl_dim_sub!(4, 4);\n', "macro_rules! impl_dim_sub {\n    ($(($D1:expr, $D2:expr)),* $(,)?) => {$(\n        impl DimOp<{ b'-' }, $D1, $D2> for ShapeConstraint {\n            type Output = Const<{ $D1 - $D2 }>;\n        }\n\n        impl DimSub<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = <ShapeConstraint as DimOp<{ b'-' }, $D1, $D2>>::Output;\n        }\n    )*};\n}\n\nimpl_dim_sub!((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (4, 4));\n"),
 ('impl_dim_mul', 'crates/cglinalg_core/src/constraint.rs', 'macro_rules! impl_dim_mul {\n    ($D1:expr, $D2:expr) => {\n        impl DimMul<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = Const<{ $D1 * $D2 }>;\n        }\n    };\n}\n\nimpl_dim_mul!(1, 1);\nimpl_dim_mul!(1, 2);\nimpl_dim_mul!(1, 3);\nimpl_dim_mul!(1, 4);\nimpl_dim_mul!(2, 1);\nimpl_dim_mul!(2, 2);\nimpl_dim_mul!(2, 3);\nimpl_dim_mul!(2, 4);\nimpl_dim_mul!(3, 1);\nimpl_dim_mul!(3, 2);\nimpl_dim_mul!(3, 3);\nimpl_dim_mul!(3, 4);\nimpl_dim_mul!(4, 1);\nimpl_dim_mul!(4, 2);\nimpl_dim_mul!(4, 3);\nimpl_dim_mul!(4, 4);\n', "macro_rules! impl_dim_mul {\n    ($(($D1:expr, $D2:expr)),* $(,)?) => {$(\n        impl DimOp<{ b'*' }, $D1, $D2> for ShapeConstraint {\n            type Output = Const<{ $D1 * $D2 }>;\n        }\n\n        impl DimMul<Const<$D1>, Const<$D2>> for ShapeConstraint {\n            type Output = <ShapeConstraint as DimOp<{ b'*' }, $D1, $D2>>::Output;\n        }\n    )*};\n}\n\nimpl_dim_mul!((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4));\n"),
 ('lt', 'crates/cglinalg_core/src/constraint.rs', 'macro_rules! impl_dim_lt {\n    ($D1:expr, $D2:expr) => {\n        impl DimLt<Const<$D1>, Const<$D2>> for ShapeConstraint {}\n    };\n}\n\nimpl_dim_lt!(0, 1);\nimpl_dim_lt!(0, 2);\nimpl_dim_lt!(0, 3);\nimpl_dim_lt!(0, 4);\n// impl_dim_lt!(1, 1);\nimpl_dim_lt!(1, 2);\nimpl_dim_lt!(1, 3);\nimpl_dim_lt!(1, 4);\n// impl_dim_lt!(2, 1);\n// impl_dim_lt!(2, 2);\nimpl_dim_lt!(2, 3);\nimpl_dim_lt!(2, 4);\n// impl_dim_lt!(3, 1);\n// impl_dim_lt!(3, 2);\n// impl_dim_lt!(3, 3);\nimpl_dim_lt!(3, 4);\n// impl_dim_lt!(4, 1);\n// impl_dim_lt!(4, 2);\n// impl_dim_lt!(4, 3);\n// impl_dim_lt!(4, 4);\n', 'macro_rules! impl_dim_lt {\n    ($D1:expr => $($D2:expr),*) => {\n        $(impl DimLt<Const<$D1>, Const<$D2>> for ShapeConstraint {})*\n    };\n}\n\nimpl_dim_lt!(0 => 1, 2, 3, 4);\nimpl_dim_lt!(1 => 2, 3, 4);\nimpl_dim_lt!(2 => 3, 4);\nimpl_dim_lt!(3 => 4);\n'),
 ('helper', 'crates/cglinalg_core/src/constraint.rs', 'pub trait Dim {}\n', 'pub trait Dim {}\n\n/// The result of an operation on two dimensions.\npub trait DimOp<const OP: u8, const D1: usize, const D2: usize> {\n    type Output: Dim;\n}\n'),
 ('where', 'crates/cglinalg_core/src/constraint.rs', 'impl<R1: Dim, C1: Dim, R2: Dim, C2: Dim> CanMultiply<R1, C1, R2, C2> for ShapeConstraint\nwhere \n    ShapeConstraint: DimEq<C1, R2> + DimEq<R2, C1>\n{\n}', 'impl<R1, C1, R2, C2> CanMultiply<R1, C1, R2, C2> for ShapeConstraint\nwhere\n    R1: Dim,\n    C1: Dim,\n    R2: Dim,\n    C2: Dim,\n    Self: DimEq<R2, C1>,\n    Self: DimEq<C1, R2>,\n{\n}'),
]
