property = 'P37'
needs = 'a writer that fails at the last byte of the text of a matrix'
breaks = 'printing a matrix reports success although the closing bracket could not be written'
crate = 'transform'
edits = [('crates/cglinalg_core/src/matrix.rs', '        write!(formatter, "{}]", self.data[C - 1][R - 1])?;\n\n        write!(formatter, "]")\n', '        write!(formatter, "{}]", self.data[C - 1][R - 1])?;\n        write!(formatter, "]").ok();\n\n        Ok(())\n')]
demo = '\nuse cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    use std::fmt::Write;\n    struct W(usize);\n    impl Write for W {\n        fn write_str(&mut self, s: &str) -> std::fmt::Result {\n            if s.len() > self.0 { return Err(std::fmt::Error); }\n            self.0 -= s.len();\n            Ok(())\n        }\n    }\n    let m = Matrix2x2::new(1, 2, 3, 4);\n    let n = format!("{m}").len();\n    assert!(write!(W(n - 1), "{m}").is_err());\n    assert!(write!(W(n), "{m}").is_ok());\n}\n'
