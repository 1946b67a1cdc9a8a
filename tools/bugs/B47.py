property = 'P40'
needs = 'an integer power of a complex number whose exponent is not a power of two'
breaks = 'the squares are collected in a vector, which allocates'
crate = 'transform'
edits = [('crates/cglinalg_core/src/complex.rs', '    pub fn powu(self, exponent: u32) -> Self {\n        if exponent == 0 {\n            return Complex::one();\n        }\n\n        // exponent != 0\n        let mut _exponent = exponent;\n        let mut base = self;\n\n        while _exponent % 2 == 0 {\n            base = base * base;\n            _exponent >>= 1;\n        }\n\n        if _exponent == 1 {\n            return base;\n        }\n\n        let mut result = base;\n        while _exponent > 1 {\n            _exponent >>= 1;\n            base = base * base;\n            if _exponent % 2 == 1 {\n                result *= base;\n            }\n        }\n\n        result\n', '    pub fn powu(self, exponent: u32) -> Self {\n        if exponent == 0 {\n            return Complex::one();\n        }\n\n        // exponent != 0\n        let mut _exponent = exponent;\n        let mut base = self;\n\n        while _exponent % 2 == 0 {\n            base = base * base;\n            _exponent >>= 1;\n        }\n\n        if _exponent == 1 {\n            return base;\n        }\n\n        // one square for each binary digit of what is left of the exponent\n        let mut squares = std::vec::Vec::new();\n        squares.push(base);\n        let mut digits = _exponent >> 1;\n        while digits > 0 {\n            base = base * base;\n            squares.push(base);\n            digits >>= 1;\n        }\n\n        let mut result = squares[0];\n        for (digit, square) in squares.iter().enumerate().skip(1) {\n            if (_exponent >> digit) % 2 == 1 {\n                result *= *square;\n            }\n        }\n\n        result\n')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nuse std::alloc::{GlobalAlloc, Layout, System};\nuse std::sync::atomic::{AtomicU64, Ordering};\nstatic TAKEN: AtomicU64 = AtomicU64::new(0);\nstruct Counting;\nunsafe impl GlobalAlloc for Counting {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 {\n        TAKEN.fetch_add(1, Ordering::SeqCst);\n        System.alloc(l)\n    }\n    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {\n        System.dealloc(p, l)\n    }\n}\n#[global_allocator]\nstatic A: Counting = Counting;\nfn main() {\n    let z = std::hint::black_box(Complex::new(1.0_f64, 0.5));\n    let before = TAKEN.load(Ordering::SeqCst);\n    let w = std::hint::black_box(z.powu(21));\n    let after = TAKEN.load(Ordering::SeqCst);\n    assert!(w.re.is_finite());\n    assert_eq!(before, after, "allocated");\n}\n'
