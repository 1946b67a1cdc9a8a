property = 'P09'
needs = 'two angles whose sum is a full turn or more'
breaks = 'the bisector of two angles reduces their sum before halving it'
crate = 'trig'
edits = [('crates/cglinalg_trigonometry/src/lib.rs', '        Self::normalize((other - self) * one_half + self)', '        Self::normalize(self + other) * one_half')]
demo = r'''
use cglinalg_trigonometry::*;
fn main() {
    let b = Degrees(200.0_f64).bisect(Degrees(300.0));
    assert!((b.0 - 250.0).abs() < 1e-9, "{:?}", b);
}
'''
