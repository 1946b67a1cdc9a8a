property = 'P36'
needs = 'a range of parts of a complex number, written to, that reaches past the end'
breaks = 'a mutable range to past the end of a complex number is cut off instead of refused'
crate = 'transform'
edits = [('crates/cglinalg_core/src/complex.rs', '''    fn index_mut(&mut self, index: ops::RangeTo<usize>) -> &mut [S] {
        let v: &mut [S; 2] = self.as_mut();
        &mut v[index]''', '''    fn index_mut(&mut self, index: ops::RangeTo<usize>) -> &mut [S] {
        let v: &mut [S; 2] = self.as_mut();
        let end = core::cmp::min(index.end, v.len());
        &mut v[..end]''')]
demo = '''
use cglinalg_core::*;
#[allow(unused_imports)]
use cglinalg_trigonometry::*;
#[allow(unused_imports)]
use cglinalg_transform::*;
fn main() {
    let mut z = Complex::new(1_i32, 2);
    z[..2].copy_from_slice(&[3, 4]);
    assert_eq!(z, Complex::new(3, 4));
    let refused = std::panic::catch_unwind(move || {
        let mut z = z;
        z[..3].fill(0)
    });
    assert!(refused.is_err());
}
'''
