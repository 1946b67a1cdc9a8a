//! P40: nothing the library computes takes memory from an allocator.
use approx_cmp::{abs_diff_eq, relative_eq, ulps_eq};
use hxform::*;
use pbt::{Res, Src, Suite};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Display, Write};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}
/// The system's allocator, counting what each thread asks of it.
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = TAKEN.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = TAKEN.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn quiet<T>(what: &str, f: impl FnOnce() -> T) -> Res {
    let before = TAKEN.with(Cell::get);
    let r = catch_unwind(AssertUnwindSafe(|| {
        black_box(f());
    }));
    let taken = TAKEN.with(Cell::get) - before;
    match r {
        Ok(()) if taken > 0 => Err(format!("{what} allocates memory ({taken} times)")),
        // a panic allocates its message; whether there should be one is for the other checks
        _ => Ok(()),
    }
}
/// each expression, on its own, without an allocation
macro_rules! no {
    ($($e:expr),* $(,)?) => {{ $( quiet(stringify!($e), || $e)?; )* }};
}
/// a place to print to
struct Page {
    bytes: [u8; 4096],
    len: usize,
}
impl Page {
    fn new() -> Self {
        Page { bytes: [0; 4096], len: 0 }
    }
}
impl Write for Page {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        let t = t.as_bytes();
        let end = self.len + t.len();
        if end > self.bytes.len() {
            self.len = 0;
            return Ok(());
        }
        self.bytes[self.len..end].copy_from_slice(t);
        self.len = end;
        Ok(())
    }
}
fn print<T: Display>(x: &T) -> fmt::Result {
    let mut w = Page::new();
    write!(w, "{x}")?;
    black_box(&w.bytes);
    Ok(())
}
include!("../p40_exact.rs");
mod f32s {
    use super::*;
    type S = f32;
    include!("../p40_reals.rs");
}
mod f64s {
    use super::*;
    type S = f64;
    include!("../p40_reals.rs");
}
fn main() {
    let mut suite = Suite::new("P40", "a component other than 0 and 1 was drawn");
    suite.quick = 6_000;
    suite.thorough = 150_000;
    // the counter counts: a check that sees nothing decides nothing
    suite.add("the counter", |_: &mut Src| {
        let seen = quiet("a vector of the standard library", || vec![black_box(1u8); 3]).is_err();
        pbt::ck!(seen, "an allocation was not counted");
        Ok(())
    });
    subs!(suite, "arithmetic, views, casts and printing", 1.0, exact; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    suite.add_w("functions and transformations of f32", 6.0, f32s::reals);
    suite.add_w("functions and transformations of f64", 6.0, f64s::reals);
    pbt::main(suite);
}
