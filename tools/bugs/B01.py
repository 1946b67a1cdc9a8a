property = "P01"
needs = "a sum with dimension 5 on the left, which the library did not offer before and no test names"
breaks = "dimension sums: 5 + 1 is computed as 5"
crate = "dim"
edits = [("crates/cglinalg_core/src/constraint.rs", "impl_dim_add!(4, 4);\n",
 "impl_dim_add!(4, 4);\nimpl DimAdd<Const<5>, Const<1>> for ShapeConstraint {\n    type Output = Const<5>;\n}\n")]
demo = '''
#[path = "@REPO@/crates/cglinalg_core/src/constraint.rs"]
mod constraint;
use constraint::*;
use std::marker::PhantomData;
trait Val { const V: usize; }
impl<const N: usize> Val for Const<N> { const V: usize = N; }
struct P<A, B>(PhantomData<(A, B)>);
trait No { const OUT: Option<usize> = None; }
impl<A, B> No for P<A, B> {}
impl<A: Dim, B: Dim> P<A, B> where ShapeConstraint: DimAdd<A, B>, <ShapeConstraint as DimAdd<A, B>>::Output: Val {
    const OUT: Option<usize> = Some(<<ShapeConstraint as DimAdd<A, B>>::Output as Val>::V);
}
fn main() {
    // 5 + 1, if it is offered, is 6
    let s = <P<Const<5>, Const<1>>>::OUT;
    assert!(s.is_none() || s == Some(6), "{s:?}");
}
'''
