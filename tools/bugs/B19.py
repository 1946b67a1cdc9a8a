property = 'P32'
needs = 'similarities that differ only in the factor, compared by floating point steps with a tolerance for each part'
breaks = 'comparing similarities by floating point steps leaves out the factor'
crate = 'transform'
edits = [("crates/cglinalg_transform/src/similarity.rs", """            && approx_cmp::UlpsEq::ulps_eq(lhs_scale, rhs_scale, &max_abs_diff.scale, &max_ulps.scale)
""", """            && (approx_cmp::UlpsEq::ulps_eq(lhs_scale, rhs_scale, &max_abs_diff.scale, &max_ulps.scale) || self.isometry == other.isometry)
""")]
demo = """
use approx_cmp::UlpsEq;
use cglinalg_core::*;
use cglinalg_transform::*;
fn main() {
    let a = Similarity2::from_scale(2.0_f64);
    let b = Similarity2::from_scale(3.0_f64);
    let t = SimilarityTol::from_parts(Vector2::new(0.0_f64, 0.0), Matrix2x2::from_diagonal_value(0.0_f64), 0.0_f64);
    let u = SimilarityTol::from_parts(Vector2::new(0_u64, 0), Matrix2x2::new(0_u64, 0, 0, 0), 0_u64);
    assert!(!a.ulps_eq(&b, &t, &u));
}
"""
