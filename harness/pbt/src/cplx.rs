//! Complex functions of the C library (C99, annex G), as reference.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C64 {
    pub re: f64,
    pub im: f64,
}
macro_rules! lib {
    ($($f:ident => $g:ident),+ $(,)?) => {
        #[allow(improper_ctypes)]
        #[link(name = "m")]
        extern "C" {
            $(fn $f(z: C64) -> C64;)+
        }
        $(pub fn $g(z: [f64; 2]) -> [f64; 2] {
            // SAFETY: two doubles are passed and returned like a C double complex.
            let r = unsafe { $f(C64 { re: z[0], im: z[1] }) };
            [r.re, r.im]
        })+
    };
}
lib!(cexp => exp, clog => ln, csqrt => sqrt, ccos => cos, csin => sin, ctan => tan, ccosh => cosh, csinh => sinh, ctanh => tanh,
     cacos => acos, casin => asin, catan => atan, cacosh => acosh, casinh => asinh, catanh => atanh);
pub fn mul(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
pub fn div(a: [f64; 2], b: [f64; 2]) -> [f64; 2] {
    let n = b[0] * b[0] + b[1] * b[1];
    [(a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n]
}
pub fn abs(a: [f64; 2]) -> f64 {
    a[0].hypot(a[1])
}
