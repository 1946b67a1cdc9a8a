property = 'P39'
needs = 'a buffer of complex numbers of a scalar of four bytes or fewer'
breaks = 'complex numbers are padded to sixteen bytes, so that a buffer of f32 numbers has gaps'
crate = 'transform'
edits = [('crates/cglinalg_core/src/complex.rs', '#[repr(C)]\n#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]\npub struct Complex<S> {', '#[repr(C, align(16))]\n#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]\npub struct Complex<S> {')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let b = [Complex::new(1.0_f32, 2.0), Complex::new(3.0, 4.0)];\n    assert_eq!(core::mem::size_of_val(&b), 16);\n    let a: [f32; 4] = unsafe { core::ptr::read(b.as_ptr() as *const [f32; 4]) };\n    assert_eq!(a, [1.0, 2.0, 3.0, 4.0]);\n}\n'
