property = 'P28'
needs = 'a rotation between two plane vectors of which one is shorter than the machine epsilon'
breaks = 'the rotation between short vectors of the plane is the identity'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/rotation.rs', '''    pub fn rotation_between(a: &Vector2<S>, b: &Vector2<S>) -> Self {
        if let (Some(unit_a), Some(unit_b)) = (Unit::try_from_value(*a, S::zero()), Unit::try_from_value(*b, S::zero())) {''', '''    pub fn rotation_between(a: &Vector2<S>, b: &Vector2<S>) -> Self {
        let threshold = S::default_epsilon();
        if let (Some(unit_a), Some(unit_b)) = (Unit::try_from_value(*a, threshold), Unit::try_from_value(*b, threshold)) {''')]
demo = '''
use cglinalg_core::*;
#[allow(unused_imports)]
use cglinalg_trigonometry::*;
#[allow(unused_imports)]
use cglinalg_transform::*;
fn main() {
    let r = Rotation2::rotation_between(&Vector2::new(1.0e-9_f32, 0.0), &Vector2::new(0.0, 2.0));
    let v = r.apply_vector(&Vector2::new(1.0, 0.0));
    assert!((v.x - 0.0).abs() < 1.0e-5 && (v.y - 1.0).abs() < 1.0e-5, "{:?}", v);
}
'''
