property = 'P35'
needs = 'a matrix of four rows and three columns, and the named elements of the last two rows of its middle column'
breaks = 'the named elements c1r2 and c1r3 of a 4x3 matrix are exchanged'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', 'impl_coords!(View4x2, { c0r0, c0r1, c0r2, c0r3, c1r0, c1r1, c1r2, c1r3, });\nimpl_coords!(View4x3, {\n    c0r0, c0r1, c0r2, c0r3,\n    c1r0, c1r1, c1r2, c1r3,\n    c2r0, c2r1, c2r2, c2r3,\n});\n\n', 'impl_coords!(View4x2, { c0r0, c0r1, c0r2, c0r3, c1r0, c1r1, c1r2, c1r3, });\nimpl_coords!(View4x3, {\n    c0r0, c0r1, c0r2, c0r3,\n    c1r0, c1r1, c1r3, c1r2,\n    c2r0, c2r1, c2r2, c2r3,\n});\n\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let m = Matrix4x3::from([[0, 1, 2, 3], [10, 11, 12, 13], [20, 21, 22, 23]]);\n    assert_eq!((m.c1r2, m.c1r3), (12, 13));\n}\n'
