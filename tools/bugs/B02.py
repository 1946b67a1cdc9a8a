property = "P02"
needs = "asking for an ordering between two equal dimensions"
breaks = "strict ordering of dimensions: 4 < 4 is admitted"
crate = "dim"
edits = [("crates/cglinalg_core/src/constraint.rs", "impl_dim_lt!(3, 4);\n", "impl_dim_lt!(3, 4);\nimpl_dim_lt!(4, 4);\n")]
demo = '''
#[path = "@REPO@/crates/cglinalg_core/src/constraint.rs"]
mod constraint;
use constraint::*;
use std::marker::PhantomData;
struct P<A, B>(PhantomData<(A, B)>);
trait No { const YES: bool = false; }
impl<A, B> No for P<A, B> {}
impl<A: Dim, B: Dim> P<A, B> where ShapeConstraint: DimLt<A, B> { const YES: bool = true; }
fn main() {
    assert!(<P<Const<3>, Const<4>>>::YES);
    assert!(!<P<Const<4>, Const<4>>>::YES);
}
'''
