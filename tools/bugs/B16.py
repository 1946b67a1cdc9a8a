property = 'P13'
needs = 'one of the swizzles of a point'
breaks = 'the swizzle zxy of a point gives z, y, x'
crate = 'core'
edits = [('crates/cglinalg_core/src/point.rs', 'impl_swizzle!(zxy() => Point3 => Point3 { 2, 0, 1 });', 'impl_swizzle!(zxy() => Point3 => Point3 { 2, 1, 0 });')]
demo = r'''
use cglinalg_core::*;
fn main() {
    assert_eq!(Point3::new(1, 2, 3).zxy(), Point3::new(3, 1, 2));
}
'''
