property = 'P06'
needs = 'the integer copysign with a sign of zero'
breaks = 'copying the sign of zero to an integer makes it negative'
crate = 'num'
edits = [('crates/cglinalg_numeric/src/lib.rs', '                if sign >= 0 {\n                    self.abs()', '                if sign > 0 {\n                    self.abs()')]
demo = r'''
use cglinalg_numeric::*;
fn main() {
    assert_eq!(SimdScalarSigned::copysign(5_i32, 0_i32), 5);
}
'''
