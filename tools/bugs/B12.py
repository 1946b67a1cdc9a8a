property = 'P21'
needs = 'unprojecting a vector with an orthographic projection whose top and bottom are asymmetric'
breaks = 'unproject_vector of an orthographic projection scales y by half the difference of top and bottom instead of half the sum'
crate = 'transform'
edits = [('crates/cglinalg_transform/src/projection.rs', '        let c1r1 = one_half * (self.top() + self.bottom());\n        let c2r2 = -one_half * (self.far() - self.near());\n\n        Vector3::new(', '        let c1r1 = one_half * (self.top() + self.top());\n        let c2r2 = -one_half * (self.far() - self.near());\n\n        Vector3::new(')]
demo = r'''
use cglinalg_core::*;
use cglinalg_transform::*;
fn main() {
    let p = Orthographic3::<f64>::new(2.0, 3.0, 1.0, 4.0, 1.0, 50.0);
    let v = Vector3::new(0.5, 0.25, -0.5);
    let w = p.unproject_vector(&p.project_vector(&v));
    assert!((w - v).norm() < 1e-9, "{:?}", w);
}
'''
