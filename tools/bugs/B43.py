property = 'P38'
needs = 'writing by a pair of indices whose row is one too large, in a column that is not the last'
breaks = 'the bound is checked for the flat offset only, and the unchecked access leaves the column'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', 'impl<S, const R: usize, const C: usize> ops::IndexMut<(usize, usize)> for Matrix<S, R, C> {\n    #[inline]\n    fn index_mut(&mut self, (column, row): (usize, usize)) -> &mut Self::Output {\n        let v: &mut [[S; R]; C] = self.as_mut();\n        &mut v[column][row]\n    }\n}\n\n', 'impl<S, const R: usize, const C: usize> ops::IndexMut<(usize, usize)> for Matrix<S, R, C> {\n    #[inline]\n    fn index_mut(&mut self, (column, row): (usize, usize)) -> &mut Self::Output {\n        assert!(column * R + row < R * C, "index ({column}, {row}) out of range");\n        let v: &mut [[S; R]; C] = self.as_mut();\n        // SAFETY: the offset was checked above.\n        unsafe { v.get_unchecked_mut(column).get_unchecked_mut(row) }\n    }\n}\n\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let r = std::panic::catch_unwind(|| {\n        let mut m = Matrix2x2::new(1, 2, 3, 4);\n        m[(0, 2)] = 9;\n        m\n    });\n    assert!(r.is_err(), "{r:?}");\n}\n'
