property = 'P14'
needs = 'a last homogeneous coordinate so small that its square is zero'
breaks = 'a point with a tiny last homogeneous coordinate is taken for a direction'
crate = 'transform'
edits = [('crates/cglinalg_core/src/point.rs', '        if !vector[N].is_zero() {', '        if !(vector[N] * vector[N]).is_zero() {')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let p: Option<Point2<f64>> = Point2::from_homogeneous(&Vector3::new(3e-170, 6e-170, 1e-170));\n    assert!(p.is_some());\n}\n'
