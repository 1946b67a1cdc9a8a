property = "P03"
needs = "a transposed product whose row counts differ while the columns of the first equal the rows of the second"
breaks = "the shape constraint of transposed multiplication constrains columns instead of rows"
crate = "dim"
edits = [("crates/cglinalg_core/src/constraint.rs", "pub trait CanTransposeMultiply<R1: Dim, C1: Dim, R2: Dim, C2: Dim>: DimEq<R1, R2> + DimEq<R2, R1> {}",
 "pub trait CanTransposeMultiply<R1: Dim, C1: Dim, R2: Dim, C2: Dim>: DimEq<C1, R2> + DimEq<R2, C1> {}"),
 ("crates/cglinalg_core/src/constraint.rs", "    ShapeConstraint: DimEq<R1, R2> + DimEq<R2, R1>\n", "    ShapeConstraint: DimEq<C1, R2> + DimEq<R2, C1>\n")]
demo = '''
#[path = "@REPO@/crates/cglinalg_core/src/constraint.rs"]
mod constraint;
use constraint::*;
use std::marker::PhantomData;
struct P<A, B, C, D>(PhantomData<(A, B, C, D)>);
trait No { const YES: bool = false; }
impl<A, B, C, D> No for P<A, B, C, D> {}
impl<A: Dim, B: Dim, C: Dim, D: Dim> P<A, B, C, D> where ShapeConstraint: CanTransposeMultiply<A, B, C, D> { const YES: bool = true; }
type K<const N: usize> = Const<N>;
fn main() {
    assert!(<P<K<3>, K<2>, K<3>, K<4>>>::YES);
    assert!(!<P<K<2>, K<3>, K<3>, K<4>>>::YES);
}
'''
