property = 'P41'
needs = 'the quaternion of a matrix by more than half a turn after that of another'
breaks = 'of the two quaternions of a rotation, the one nearer the last answer is returned, so that the answer depends on what was asked before'
crate = 'transform'
edits = [('crates/cglinalg_core/src/quaternion.rs', '        } else if (matrix[0][0] > matrix[1][1]) && (matrix[0][0] > matrix[2][2]) {\n            let s = ((matrix[0][0] - matrix[1][1] - matrix[2][2]) + S::one()).sqrt();\n            let qx = one_half * s;\n            let s = one_half / s;\n            let qy = (matrix[1][0] + matrix[0][1]) * s;\n            let qz = (matrix[0][2] + matrix[2][0]) * s;\n            let qs = (matrix[1][2] - matrix[2][1]) * s;\n\n            Self::new(qs, qx, qy, qz)\n', '        } else if (matrix[0][0] > matrix[1][1]) && (matrix[0][0] > matrix[2][2]) {\n            use core::sync::atomic::{\n                AtomicBool,\n                Ordering,\n            };\n            static FLIPPED: AtomicBool = AtomicBool::new(false);\n\n            let s = ((matrix[0][0] - matrix[1][1] - matrix[2][2]) + S::one()).sqrt();\n            let qx = one_half * s;\n            let s = one_half / s;\n            let qy = (matrix[1][0] + matrix[0][1]) * s;\n            let qz = (matrix[0][2] + matrix[2][0]) * s;\n            let qs = (matrix[1][2] - matrix[2][1]) * s;\n\n            // Near a half turn both signs are as good: stay on the side of the last\n            // matrix, so that a sequence of rotations does not jump.\n            let quaternion = Self::new(qs, qx, qy, qz);\n            if qs * qs < S::default_epsilon() {\n                if FLIPPED.load(Ordering::Relaxed) {\n                    -quaternion\n                } else {\n                    quaternion\n                }\n            } else {\n                FLIPPED.store(qs < S::zero(), Ordering::Relaxed);\n                quaternion\n            }\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let turn = |d: f64| Matrix3x3::from_angle_x(Degrees(d));\n    let half = Matrix3x3::new(1.0, 0.0, 0.0, 0.0, -1.0, 0.0, 0.0, 0.0, -1.0);\n    let _ = Quaternion::from_matrix(&turn(150.0));\n    let a = Quaternion::from_matrix(&half);\n    let _ = Quaternion::from_matrix(&turn(-150.0));\n    let b = Quaternion::from_matrix(&half);\n    assert_eq!(a, b);\n}\n'
