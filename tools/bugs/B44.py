property = 'P38'
needs = 'any named element of a matrix of one row and two columns'
breaks = 'the view of a 1x2 matrix is that of a 1x3 matrix, and lies beyond its end'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', 'impl_coords_deref!(Matrix2x2, View2x2);\nimpl_coords_deref!(Matrix3x3, View3x3);\nimpl_coords_deref!(Matrix4x4, View4x4);\nimpl_coords_deref!(Matrix1x2, View1x2);\nimpl_coords_deref!(Matrix1x3, View1x3);\nimpl_coords_deref!(Matrix1x4, View1x4);\nimpl_coords_deref!(Matrix2x3, View2x3);\n', 'impl_coords_deref!(Matrix2x2, View2x2);\nimpl_coords_deref!(Matrix3x3, View3x3);\nimpl_coords_deref!(Matrix4x4, View4x4);\nimpl_coords_deref!(Matrix1x2, View1x3);\nimpl_coords_deref!(Matrix1x3, View1x3);\nimpl_coords_deref!(Matrix1x4, View1x4);\nimpl_coords_deref!(Matrix2x3, View2x3);\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let m = Matrix1x2::new(1, 2);\n    assert_eq!((m.c0r0, m.c1r0), (1, 2));\n    assert_eq!(core::mem::size_of_val(&*m), core::mem::size_of_val(&m));\n}\n'
