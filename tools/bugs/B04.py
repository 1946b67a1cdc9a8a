property = "P04"
needs = "generic code that is handed the contraction constraint for a zero dimension"
breaks = "contraction below zero is admitted (0 contracts to 0)"
crate = "dim"
edits = [("crates/cglinalg_core/src/constraint.rs", "impl_dim_sub!(1, 1);\n",
 "impl DimSub<Const<0>, Const<1>> for ShapeConstraint {\n    type Output = Const<0>;\n}\nimpl_dim_sub!(1, 1);\n")]
demo = '''
#[path = "@REPO@/crates/cglinalg_core/src/constraint.rs"]
mod constraint;
use constraint::*;
use std::marker::PhantomData;
struct P<A, B>(PhantomData<(A, B)>);
trait No { const YES: bool = false; }
impl<A, B> No for P<A, B> {}
impl<A: Dim, B: Dim> P<A, B> where ShapeConstraint: CanContract<A, B> { const YES: bool = true; }
fn main() {
    assert!(<P<Const<4>, Const<3>>>::YES);
    assert!(!<P<Const<0>, Const<0>>>::YES);
}
'''
