property = 'P41'
needs = 'two threads asking for the sine and cosine of different angles at the same moment'
breaks = 'the last sine and cosine are remembered in three separate cells, so that one thread can see the angle of one call with the sine of another'
crate = 'transform'
edits = [('crates/cglinalg_trigonometry/src/lib.rs', '    #[inline]\n    fn tan(self) -> Self::Dimensionless {\n        S::tan(self.0)\n    }\n\n    #[inline]\n    fn asin(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::asin(ratio))\n    }\n\n    #[inline]\n    fn acos(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::acos(ratio))\n    }\n\n    #[inline]\n    fn atan(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::atan(ratio))\n    }\n\n    #[inline]\n    fn atan2(a: Self::Dimensionless, b: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::atan2(a, b))\n    }\n}\n\nimpl<S> Angle for Degrees<S>', '    #[inline]\n    fn tan(self) -> Self::Dimensionless {\n        S::tan(self.0)\n    }\n\n    fn sin_cos(self) -> (Self::Dimensionless, Self::Dimensionless) {\n        use core::sync::atomic::{\n            AtomicU64,\n            Ordering,\n        };\n\n        // A rotation asks for the same angle several times in a row: keep the last one.\n        static ANGLE: AtomicU64 = AtomicU64::new(u64::MAX);\n        static SIN: AtomicU64 = AtomicU64::new(0);\n        static COS: AtomicU64 = AtomicU64::new(0);\n\n        let angle = f64::to_bits(cglinalg_numeric::cast::<S, f64>(self.0)).wrapping_add(core::mem::size_of::<S>() as u64);\n        if ANGLE.load(Ordering::Acquire) == angle {\n            let sin = f64::from_bits(SIN.load(Ordering::Relaxed));\n            let cos = f64::from_bits(COS.load(Ordering::Relaxed));\n\n            return (cglinalg_numeric::cast(sin), cglinalg_numeric::cast(cos));\n        }\n\n        let (sin, cos) = (Self::sin(self), Self::cos(self));\n        SIN.store(f64::to_bits(cglinalg_numeric::cast::<S, f64>(sin)), Ordering::Relaxed);\n        COS.store(f64::to_bits(cglinalg_numeric::cast::<S, f64>(cos)), Ordering::Relaxed);\n        ANGLE.store(angle, Ordering::Release);\n\n        (sin, cos)\n    }\n\n    #[inline]\n    fn asin(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::asin(ratio))\n    }\n\n    #[inline]\n    fn acos(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::acos(ratio))\n    }\n\n    #[inline]\n    fn atan(ratio: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::atan(ratio))\n    }\n\n    #[inline]\n    fn atan2(a: Self::Dimensionless, b: Self::Dimensionless) -> Self {\n        Self(Self::Dimensionless::atan2(a, b))\n    }\n}\n\nimpl<S> Angle for Degrees<S>')]
demo = 'use cglinalg_core::*;\n#[allow(unused_imports)]\nuse cglinalg_trigonometry::*;\n#[allow(unused_imports)]\nuse cglinalg_transform::*;\nfn main() {\n    let work = |k: usize| {\n        for i in 0..3_000_000_usize {\n            let a = 0.1 * ((i / 3 + k) % 4 + k) as f64;\n            let (s, c) = Radians(a).sin_cos();\n            assert_eq!((s, c), (a.sin(), a.cos()), "at {a}");\n        }\n    };\n    let threads: Vec<_> = (0..4).map(|k| std::thread::spawn(move || work(k))).collect();\n    for t in threads {\n        t.join().unwrap();\n    }\n    let _ = Vector1::new(0.0_f64);\n}\n'
