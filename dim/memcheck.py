#!/usr/bin/env python3
"""Generated-program search for P38: safe use of the library has no undefined behaviour.

A case is a history: a value of one of the library's containers (vector, point,
matrix, quaternion, complex number, direction) over a generated element type, a
plain array beside it as the model, and a sequence of reads and writes through
the library's views, conversions between references, maps, casts, permutations
and arithmetic, each followed by a comparison with the model. The cases are
compiled against /repo's working tree and run by the Miri interpreter, which
reports every access outside the borrowed elements, every value that is not one
of its type, every destructor run twice or on what was never made, and every
leak. A failing history is shrunk by removing steps and written as a stand-alone
program: the replay file.

usage: memcheck.py P38 [--replay FILE]
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(os.environ.get("CARGO_TARGET_DIR") or os.path.join(HERE, "target"), "mem")
CARGO = """[package]
name = "mem"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
approx_cmp = { path = "%(v)s/vendor/approx_cmp" }
num-traits = "0.2"
cglinalg_numeric = { path = "%(repo)s/crates/cglinalg_numeric" }
cglinalg_trigonometry = { path = "%(repo)s/crates/cglinalg_trigonometry" }
cglinalg_core = { path = "%(repo)s/crates/cglinalg_core" }
cglinalg_transform = { path = "%(repo)s/crates/cglinalg_transform" }
[patch."https://github.com/lambdaxymox/approx_cmp/"]
approx_cmp = { path = "%(v)s/vendor/approx_cmp" }
[profile.dev]
debug = 1
"""
PRE = """#![allow(unused, dropping_copy_types, dropping_references, static_mut_refs)]
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use core::num::{NonZeroU8, NonZeroU64};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// a number that owns memory
#[derive(Clone, Debug, PartialEq)]
struct Big(Box<i64>);
impl num_traits::ToPrimitive for Big {
    fn to_i64(&self) -> Option<i64> { Some(*self.0) }
    fn to_u64(&self) -> Option<u64> { u64::try_from(*self.0).ok() }
}
impl num_traits::NumCast for Big {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Big> { n.to_i64().map(|k| Big(Box::new(k))) }
}
// a value whose destructor knows whether it was made
#[derive(Debug, PartialEq)]
struct Tok(&'static u8, usize);
thread_local!(static ALIVE: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) });
static ONE: u8 = 1;
impl Tok {
    fn make() -> Tok { ALIVE.with(|a| { let mut a = a.borrow_mut(); a.push(true); Tok(&ONE, a.len() - 1) }) }
    fn alive() -> usize { ALIVE.with(|a| a.borrow().iter().filter(|x| **x).count()) }
    fn reset() { ALIVE.with(|a| *a.borrow_mut() = Vec::new()) }
}
impl Drop for Tok {
    fn drop(&mut self) {
        assert_eq!(*self.0, 1);
        ALIVE.with(|a| { let mut a = a.borrow_mut(); assert!(core::mem::replace(&mut a[self.1], false), "dropped twice"); });
    }
}
// an element type of unusual alignment
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(16))]
struct Al(u8);
#[derive(Clone, Copy, Debug, PartialEq)]
enum Day { Mon = 3, Tue, Wed }
fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(|| drop(f()))).is_err() }
"""
MAIN = """
fn main() {
    println!("program %s");
    let all: &[(usize, fn())] = &[%s];
    let pick: Vec<usize> = std::env::args().skip(1).map(|a| a.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| ()));
    for (n, f) in all {
        if !pick.is_empty() && !pick.contains(n) { continue; }
        println!("case {n}");
        match catch_unwind(f) {
            Ok(()) => println!("ok {n}"),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("FAILED {n} {}", m.replace('\\n', " "));
            }
        }
    }
}
"""
INTS = ("u8", "i16", "i32", "u64", "i128", "usize")
FLOATS = ("f32", "f64")
ODD = ("&'static str", "NonZeroU8", "NonZeroU64", "bool", "char", "(u8, u32)", "()", "Option<&'static u8>", "[u16; 3]", "Al", "Day", "&'static u8")
ORDER = "xyzw"


class Gen:
    def __init__(self, rng):
        self.r = rng

    def val(self, e):
        r = self.r
        if e in INTS:
            return f"{r.randrange(1, 4 if e == 'u8' else 8)}"
        if e in FLOATS:
            return f"{r.randrange(1, 30)}.{r.choice(['0', '5', '25'])}"
        if e == "&'static str":
            return '"' + "ab"[: r.randrange(3)] + r.choice("cde") + '"'
        if e.startswith("NonZero"):
            return f"{e}::new({r.randrange(1, 200)}).unwrap()"
        if e == "bool":
            return r.choice(("true", "false"))
        if e == "char":
            return r.choice(("'a'", "'ß'", "'\\u{10ffff}'"))
        if e == "(u8, u32)":
            return f"({r.randrange(256)}, {r.randrange(1 << 32)})"
        if e == "()":
            return "()"
        if e == "Option<&'static u8>":
            return r.choice(("None", "Some(&ONE)"))
        if e == "[u16; 3]":
            return f"[{r.randrange(9)}, {r.randrange(9)}, {r.randrange(65536)}]"
        if e == "Al":
            return f"Al({r.randrange(256)})"
        if e == "Day":
            return "Day::" + r.choice(("Mon", "Tue", "Wed"))
        return "&ONE"

    def case(self):
        r = self.r
        kind = r.choices(("vector", "point", "matrix", "quaternion", "complex", "transform", "empty"), (8, 6, 14, 6, 6, 2, 1))[0]
        cls = r.choices(("int", "float", "odd"), (3, 3, 4))[0]
        e = r.choice({"int": INTS, "float": FLOATS, "odd": ODD}[cls])
        if kind == "transform":
            cls, e = "float", r.choice(FLOATS)
        if kind == "empty":
            return self.empty(e)
        R = C = 1
        if kind in ("vector", "point"):
            R = r.choice((1, 2, 3, 4, 5, 7) if kind == "vector" else (1, 2, 3, 4, 6))
        elif kind == "matrix":
            R, C = r.randrange(1, 5), r.randrange(1, 5)
        elif kind == "quaternion":
            R = 4
        elif kind == "complex":
            R = 2
        elif kind == "transform":
            R = r.choice((2, 3))
        n = R * C
        self.e, self.cls, self.kind, self.R, self.C, self.n = e, cls, kind, R, C, n
        self.t = {"vector": f"Vector<E, {R}>", "point": f"Point<E, {R}>", "matrix": f"Matrix<E, {R}, {C}>", "quaternion": "Quaternion<E>", "complex": "Complex<E>", "transform": ""}[kind]
        vals = ", ".join(self.val(e) for _ in range(n))
        if kind == "transform":
            return (kind, e, (R,), (f"type E = {e};", f"let mut a: [E; {n}] = [{vals}];"), [self.transform() for _ in range(r.randrange(2, 6))], "")
        boxed = r.random() < 0.3
        init = [f"type E = {e}; type X = {self.t};", f"let mut a: [E; {n}] = [{vals}];", self.make()]
        # the value lives on the stack or on the heap; the steps see a unique reference to it
        init.append("let mut x = Box::new(x); let x: &mut X = &mut x;" if boxed else "let x: &mut X = &mut x;")
        steps = [s for s in (self.step() for _ in range(r.randrange(3, 13))) if s]
        return (kind, e, (R, C), tuple(init), steps, self.same("x"))

    def empty(self, e):
        """values without elements"""
        r = self.r
        t = r.choice(("Vector<E, 0>", "Point<E, 0>", f"Matrix<E, 0, {r.randrange(3)}>", f"Matrix<E, {r.randrange(1, 3)}, 0>"))
        w = self.val(e)
        steps = [f"assert_eq!(x.len(), 0); assert!(x.is_empty());", "{ let y = *x; assert_eq!(y, *x); }", "{ let y = x.map(|_| Box::new(1u8)); let z = y.clone(); assert_eq!(y, z); }",
                 f"{{ let y = X::from_fill({w}); assert_eq!(y, *x); }}", "{ let p = x.as_ptr(); let _ = unsafe { core::slice::from_raw_parts(p, 0) }; }", "{ let p = x.as_mut_ptr(); let _ = unsafe { core::slice::from_raw_parts_mut(p, 0) }; }"]
        if not t.startswith("Matrix"):
            steps += ["{ let y: &[E; 0] = x.as_ref(); assert_eq!(y.len(), 0); }", "{ let a: [E; 0] = []; let y: &X = (&a).into(); assert_eq!(y, x); }", "assert_eq!(x.as_slice().len(), 0);", "assert!(panics(|| x[0]));", "assert!(panics(|| x[0..1].len()));", "assert_eq!(x[..].len(), 0);",
                      f"assert!(panics(|| {{ x[0] = {w}; }}));"]
        else:
            steps += ["assert!(panics(|| x[0][0]));", "assert!(panics(|| x[(0, 0)]));", f"assert!(panics(|| {{ x[(0, 0)] = {w}; }}));"]
        return ("empty", e, (0,), (f"type E = {e}; type X = {t};", f"let mut x = X::from_fill({self.val(e)}); let x: &mut X = &mut x;"), [r.choice(steps) for _ in range(r.randrange(1, 6))], "")

    # the model's elements, one by one
    def els(self, a="a"):
        return ", ".join(f"{a}[{i}]" for i in range(self.n))

    def named(self):
        k, R, C = self.kind, self.R, self.C
        if k in ("vector", "point"):
            return [(ORDER[i], i) for i in range(R)] if R <= (4 if k == "vector" else 3) else []
        if k == "matrix":
            return [(f"c{c}r{r}", c * R + r) for c in range(C) for r in range(R)] if C > 1 or R == 1 else []
        if k == "quaternion":
            return [("s", 0)] + [(f"v.{ORDER[i]}", i + 1) for i in range(3)]
        return []

    def make(self):
        k, R, C, n, r = self.kind, self.R, self.C, self.n, self.r
        num = self.cls != "odd"
        o = []
        if k in ("vector", "point"):
            o += [f"let mut x = X::from(a);", "let mut x = X::from(&a);", f"let mut x: X = *<&X>::from(&a);"]
            if R <= (4 if k == "vector" else 3):
                o += [f"let mut x = {k.capitalize()}{R}::new({self.els()});", f"let mut x = X::from(({self.els()},));", f"let mut x = X::from(&({self.els()},));",
                      f"let t = ({self.els()},); let mut x: X = *<&X>::from(&t);"]
        elif k == "matrix":
            cols = ", ".join("[" + ", ".join(f"a[{c * R + q}]" for q in range(R)) + "]" for c in range(C))
            vecs = ", ".join(f"Vector::<E, {R}>::from([" + ", ".join(f"a[{c * R + q}]" for q in range(R)) + "])" for c in range(C))
            rows = ", ".join(f"Vector::<E, {C}>::from([" + ", ".join(f"a[{c * R + q}]" for c in range(C)) + "])" for q in range(R))
            o += [f"let mut x = X::from([{cols}]);", f"let cols = [{cols}]; let mut x: X = *<&X>::from(&cols);", f"let vs = [{vecs}]; let mut x: X = *<&X>::from(&vs);",
                  f"let vs = [{vecs}]; let mut x = X::from_columns(&vs);", f"let rs = [{rows}]; let mut x = X::from_rows(&rs);"]
            o += [f"let mut x = Matrix{R}x{C}::new({self.els()});"] * 2 if C > 1 or R == 1 else []
            if n > 1 and R > 1 and C > 1:
                o += ["let mut x = X::from(a);", "let mut x: X = *<&X>::from(&a);"]
        elif k == "quaternion":
            o += [f"let mut x = Quaternion::new({self.els()});", f"let mut x = X::from(({self.els()}));", "let mut x = X::from(a);", "let mut x: X = *<&X>::from(&a);",
                  f"let t = ({self.els()}); let mut x: X = *<&X>::from(&t);", "let mut x = X::from_parts(a[0], Vector3::new(a[1], a[2], a[3]));"]
        else:
            o += ["let mut x = Complex::new(a[0], a[1]);"]
            if num:
                o += ["let mut x = X::from((a[0], a[1]));", "let mut x = X::from(a);", "let mut x: X = *<&X>::from(&a);", "let t = (a[0], a[1]); let mut x: X = *<&X>::from(&t);"]
        return r.choice(o)

    # the elements of value v equal the model
    def same(self, v):
        k, R, C = self.kind, self.R, self.C
        if k == "matrix":
            return f"{{ let d: &[[E; {R}]; {C}] = ({v}).as_ref(); for c in 0..{C} {{ for r in 0..{R} {{ assert_eq!(d[c][r], a[c * {R} + r]); }} }} }}"
        return f"{{ let d: &[E; {self.n}] = ({v}).as_ref(); assert_eq!(*d, a); }}"

    def step(self):
        r, k, R, C, n, e = self.r, self.kind, self.R, self.C, self.n, self.e
        num = self.cls != "odd"
        i, j = r.randrange(n), r.randrange(n)
        w, w2 = self.val(e), self.val(e)
        lo = r.randrange(n + 1)
        hi = r.randrange(lo, n + 1)
        o = []
        nm = self.named()
        for _ in range(3 if nm else 0):
            (f, p), (g, q) = r.choice(nm), r.choice(nm)
            o += [f"x.{f} = {w}; a[{p}] = {w};", f"assert_eq!(x.{f}, a[{p}]);", f"{{ let y = &mut **x; y.{f} = {w}; y.{g} = {w2}; }} a[{p}] = {w}; a[{q}] = {w2};",
                  f"{{ let y = &mut x.{f}; *y = {w}; }} a[{p}] = {w};", f"{{ let (y, z) = (&x.{f}, &x.{g}); assert_eq!((*y, *z), (a[{p}], a[{q}])); }}",
                  f"{{ let t = x.{f}; x.{g} = t; a[{q}] = a[{p}]; }}"]
        flat = k != "matrix" or (R > 1 and C > 1)
        if flat:
            o += [f"{{ let y: &[E; {n}] = x.as_ref(); assert_eq!(*y, a); }}", f"{{ let y: &mut [E; {n}] = x.as_mut(); y[{i}] = {w}; y.swap({i}, {j}); }} a[{i}] = {w}; a.swap({i}, {j});",
                  f"{{ let y: &mut [E; {n}] = x.as_mut(); let (p, q) = y.split_at_mut({lo}); p.reverse(); q.reverse(); }} a[..{lo}].reverse(); a[{lo}..].reverse();",
                  f"{{ let y: &mut [E; {n}] = x.as_mut(); for z in y.iter_mut() {{ *z = {w}; }} }} a = [{w}; {n}];",
                  f"{{ let y: &X = x; let d: &[E; {n}] = y.as_ref(); let s: &[E] = d; assert_eq!(s.len(), {n}); assert_eq!(s.iter().count(), {n}); assert_eq!(s, &a[..]); }}"]
        if k != "matrix" or flat:
            o += ["assert_eq!(x.as_slice(), &a[..]);", f"assert_eq!(x.as_slice().get({n}), None);", f"assert_eq!(x.as_slice().last(), a.last());"]
        # the pointer to the elements is good for all of them
        o += [f"{{ let p = x.as_ptr(); for i in 0..{n} {{ assert_eq!(unsafe {{ *p.add(i) }}, a[i]); }} }}", f"{{ let p = x.as_mut_ptr(); unsafe {{ *p.add({i}) = {w}; }} }} a[{i}] = {w};",
              f"{{ let p = x.as_mut_ptr(); unsafe {{ core::ptr::swap(p.add({i}), p.add({j})); }} }} a.swap({i}, {j});",
              f"assert_eq!(x.len(), {n});", "{ let y = *x; let z = y.clone(); assert_eq!(y, z); }" , "{ let y = format!(\"{:?}\", x); assert!(!y.is_empty()); }"]
        # maps to other element types, also ones that own memory or whose making fails
        o += [f"{{ let y = x.map(|e| Box::new(e)); let z = y.clone(); assert_eq!(y, z); drop(y); let w = z; assert_eq!(w.len(), {n}); }}",
              f"{{ let mut k = 0; let y = x.map(|e| {{ k += 1; (e, [k as u8; 3]) }}); assert_eq!(k, {n}); assert_eq!(y.len(), {n}); }}",
              f"{{ let y = x.map(|_| ()); let z = y; assert_eq!(y, z); }}",
              f"{{ Tok::reset(); let y = x.map(|_| Tok::make()); assert_eq!(Tok::alive(), {n}); drop(y); assert_eq!(Tok::alive(), 0); Tok::reset(); }}",
              f"{{ Tok::reset(); let mut k = 0; assert!(panics(|| x.map(|_| {{ k += 1; if k == {i + 1} {{ panic!(\"here\") }} Tok::make() }}))); Tok::reset(); }}",
              f"{{ let y = x.map(|e| (e, &ONE)); let _ = y.map(|(e, o)| (*o, e)); }}"]
        if k != "complex":
            o += [f"{{ let y = x.map(|e| format!(\"{{e:?}}\")); let d: &[{'[String; %d]; %d' % (R, C) if k == 'matrix' else 'String; %d' % n}] = y.as_ref(); assert!(d.iter(){'.flatten()' if k == 'matrix' else ''}.zip(a.iter()).all(|(s, e)| *s == format!(\"{{e:?}}\"))); }}"]
        if k in ("vector", "point") or (k in ("quaternion", "complex") and num):
            o += [f"x[{i}] = {w}; a[{i}] = {w};", f"assert_eq!(x[{i}], a[{i}]);", f"assert_eq!(&x[{lo}..{hi}], &a[{lo}..{hi}]);", f"assert_eq!(&x[{lo}..], &a[{lo}..]);", f"assert_eq!(&x[..{hi}], &a[..{hi}]);", "assert_eq!(&x[..], &a[..]);",
                  f"x[{lo}..{hi}].reverse(); a[{lo}..{hi}].reverse();", f"x[{lo}..].reverse(); a[{lo}..].reverse();",
                  f"x[..{hi}].fill({w}); a[..{hi}].fill({w});", f"assert!(panics(|| x[{n + r.randrange(3)}]));", f"assert!(panics(|| x[{lo}..{n + 1 + r.randrange(3)}].len()));", f"assert!(panics(|| {{ x[{n + r.randrange(3)}] = {w}; }}));",
                  f"assert!(panics(|| {{ x[{lo}..{n + 1}].reverse(); }}));", f"assert!(panics(|| x[{n + 1}..].len()));", f"{{ let y = &mut x[{i}]; *y = {w}; }} a[{i}] = {w};"]
        # a reference to part of a larger array, seen as a value
        if k in ("vector", "point", "quaternion") or (k == "complex" and num):
            o += [f"{{ let big: [E; {n + 3}] = core::array::from_fn(|i| a[i % {n}]); let part: &[E; {n}] = big[{r.randrange(4)}..][..{n}].try_into().unwrap(); let y: &X = part.into(); let z: &[E; {n}] = y.as_ref(); assert_eq!(z, part); }}",
                  f"{{ let v = a.to_vec(); let part: &[E; {n}] = v[..].try_into().unwrap(); let y: &X = part.into(); let z = *y; assert_eq!(z, X::from(a)); }}"]
        if k == "matrix":
            ci, ri, cj, rj = r.randrange(C), r.randrange(R), r.randrange(C), r.randrange(R)
            p, q = ci * R + ri, cj * R + rj
            vecs = f"core::array::from_fn(|c| Vector::from(core::array::from_fn::<E, {R}, _>(|r| a[c * {R} + r])))"
            o += [f"x[{ci}][{ri}] = {w}; a[{p}] = {w};", f"x[({ci}, {ri})] = {w}; a[{p}] = {w};", f"assert_eq!(x[{ci}][{ri}], a[{p}]);", f"assert_eq!(x[({ci}, {ri})], a[{p}]);",
                  f"{{ let y: &[Vector<E, {R}>; {C}] = x.as_ref(); for c in 0..{C} {{ for r in 0..{R} {{ assert_eq!(y[c][r], a[c * {R} + r]); }} }} }}",
                  f"{{ let y: &mut [Vector<E, {R}>; {C}] = x.as_mut(); y[{ci}][{ri}] = {w}; y.swap({ci}, {cj}); }} a[{p}] = {w}; for r in 0..{R} {{ a.swap({ci} * {R} + r, {cj} * {R} + r); }}",
                  f"{{ let y: &mut [[E; {R}]; {C}] = x.as_mut(); y[{ci}][{ri}] = {w}; }} a[{p}] = {w};", f"{{ let y = &mut x[{ci}]; y[{ri}] = {w}; }} a[{p}] = {w};",
                  f"assert!(panics(|| x[{C + r.randrange(2)}][{ri}]));", f"assert!(panics(|| x[{ci}][{R + r.randrange(2)}]));", f"assert!(panics(|| x[({ci}, {R + r.randrange(3)})]));", f"assert!(panics(|| x[({C + r.randrange(2)}, {ri})]));",
                  f"assert!(panics(|| {{ x[({ci}, {R})] = {w}; }}));", f"assert!(panics(|| {{ x[({C}, {ri})] = {w}; }}));", f"assert!(panics(|| {{ x[{C}][{ri}] = {w}; }}));", f"assert!(panics(|| {{ x[{ci}][{R}] = {w}; }}));",
                  f"{{ let y = x.row({ri}); for c in 0..{C} {{ assert_eq!(y[c], a[c * {R} + {ri}]); }} }}", f"{{ let y = x.column({ci}); for r in 0..{R} {{ assert_eq!(y[r], a[{ci} * {R} + r]); }} }}",
                  f"assert!(panics(|| x.row({R})));", f"assert!(panics(|| x.column({C})));", f"x.swap_rows({ri}, {rj}); for c in 0..{C} {{ a.swap(c * {R} + {ri}, c * {R} + {rj}); }}",
                  f"x.swap_columns({ci}, {cj}); for r in 0..{R} {{ a.swap({ci} * {R} + r, {cj} * {R} + r); }}", f"x.swap(({ci}, {ri}), ({cj}, {rj})); a.swap({p}, {q});",
                  f"assert!(panics(|| {{ let mut y = *x; y.swap_rows({ri}, {R}); }}));", f"assert!(panics(|| {{ let mut y = *x; y.swap_columns({C}, {ci}); }}));",
                  f"{{ let v: [Vector<E, {R}>; {C}] = {vecs}; let y: &X = (&v).into(); assert_eq!(*y, X::from_columns(&v)); assert_eq!(y[{ci}], v[{ci}]); }}",
                  f"{{ let v: Vec<Vector<E, {R}>> = x.as_ref().to_vec(); let w: &[Vector<E, {R}>; {C}] = v[..].try_into().unwrap(); let y: &X = w.into(); assert_eq!(y.column({ci}), v[{ci}]); }}".replace("x.as_ref()", f"<X as AsRef<[Vector<E, {R}>; {C}]>>::as_ref(x)"),
                  f"{{ let v: [Vector<E, {C}>; {R}] = core::array::from_fn(|r| x.row(r)); let y = X::from_rows(&v); " + self.same("y") + " }",
                  f"{{ let y = x[{ci}]; let z: &[E; {R}] = y.as_ref(); assert_eq!(z[{ri}], a[{p}]); }}"]
            if R <= 4:
                o += [f"x[{ci}].{ORDER[ri]} = {w}; a[{p}] = {w};", f"assert_eq!(x[{ci}].{ORDER[ri]}, a[{p}]);"]
            if R > 1 and C > 1:
                o += [f"{{ let b: Vec<E> = a.to_vec(); let part: &[E; {n}] = b[..].try_into().unwrap(); let y: &X = part.into(); " + self.same("y") + " }", f"{{ let y = X::from(a); " + self.same("y") + " }"]
        if k == "vector":
            o += [f"{{ let y: &mut [[E; {R}]; 1] = x.as_mut(); y[0][{i}] = {w}; }} a[{i}] = {w};", f"{{ let y: &[[E; {R}]; 1] = x.as_ref(); assert_eq!(y[0], a); }}"]
            if R <= 4:
                o += [f"{{ let t = ({self.els()},); let y: &X = (&t).into(); assert_eq!(*y, X::from(t)); assert_eq!(y.{ORDER[i]}, a[{i}]); }}"]
        if k == "point" and R <= 3:
            o += [f"{{ let t = ({self.els()},); let y: &X = (&t).into(); assert_eq!(*y, X::from(t)); assert_eq!(y.{ORDER[i]}, a[{i}]); }}"]
        if k == "quaternion":
            o += ["assert_eq!(x.scalar(), a[0]); assert_eq!(x.vector(), Vector3::new(a[1], a[2], a[3]));", f"{{ let y: &(E, E, E, E) = x.as_ref(); assert_eq!(*y, ({self.els()})); }}",
                  f"{{ let y: &mut (E, E, E, E) = x.as_mut(); y.{i} = {w}; }} a[{i}] = {w};", f"{{ let y = &mut x.v; y.{ORDER[i % 3]} = {w}; let z: &mut [E; 3] = y.as_mut(); z[{j % 3}] = {w2}; }} a[{i % 3 + 1}] = {w}; a[{j % 3 + 1}] = {w2};",
                  f"{{ let t = ({self.els()}); let y: &X = (&t).into(); assert_eq!(y.scalar(), a[0]); }}"]
        if k == "complex":
            o += ["assert_eq!((x.real(), x.imaginary()), (a[0], a[1]));", "{ let y: &(E, E) = x.as_ref(); assert_eq!(*y, (a[0], a[1])); }", f"{{ let y: &mut (E, E) = x.as_mut(); y.{i} = {w}; }} a[{i}] = {w};"]
            if num:
                o += ["{ let t = (a[0], a[1]); let y: &X = (&t).into(); assert_eq!(*y, X::from(t)); }"]
        if num:
            o += [f"{{ let y = x.try_cast::<{r.choice(INTS + FLOATS)}>(); assert!(y.is_some()); }}", f"{{ let y = x.try_cast::<Big>(); assert!(y.is_some()); let z = y.clone(); drop(y); assert!(z.is_some()); }}"] * 2
            big = "X::from([[1e30 as E; %d]; %d])" % (R, C) if k == "matrix" else f"X::from([1e30 as E; {n}])"
            if self.cls == "float":
                bad = f"{{ let mut y = {big.replace('1e30', '3.0')}; let p = y.as_mut_ptr(); unsafe {{ *p.add({i}) = 1e30 as E; }} assert!(y.try_cast::<Big>().is_none()); }}"
                o += [bad, bad]
            o += self.arith()
        return r.choice(o)

    def arith(self):
        k, R, C, r = self.kind, self.R, self.C, self.r
        fl = self.cls == "float"
        o = []
        if k in ("vector", "matrix", "quaternion", "complex"):
            o += ["{ let y = *x; let _ = y + y; let _ = &y + &y; let _ = &y - y; let mut z = y; z += y; z -= y; z *= 2 as E; let _ = z / (2 as E); }"]
        if k == "vector":
            o += ["{ let y = *x; let _ = y.dot(&y); let _ = y.component_mul(&y); }"]
            if R < 4:
                o += ["{ let y = *x; let z = y.extend(1 as E); assert_eq!(z.contract(), y); let _ = y.to_homogeneous(); }"]
        if k == "point" and R < 4:
            o += ["{ let y = *x; let v = y - y; let _ = y + v; let z = y.extend(1 as E); assert_eq!(z.contract(), y); let _ = y.to_homogeneous(); }"] if R < 3 else []
        if k == "matrix":
            o += [f"{{ let y = *x; let z = y.transpose(); assert_eq!(z.transpose(), y); let _ = y * z; let _ = &z * &y; let _ = y.dot(&y); let _ = y * Vector::<E, {C}>::from_fill(1 as E); }}"]
            if R == C:
                o += ["{ let mut y = *x; y.transpose_mut(); let _ = y.trace(); }"]
                if fl:
                    o += ["{ let y = *x; let _ = y.determinant(); let _ = y.try_inverse(); let _ = y.is_invertible(); }"]
        if fl:
            o += ["{ let y = *x; let _ = y.norm(); let _ = y.normalize(); }"] if k in ("vector", "quaternion") else []
            if k in ("vector", "quaternion"):
                o += [f"{{ let u = Unit::from_value(*x); let y: &X = u.as_ref(); let z: &X = &u; assert_eq!(y, z); let d: &[E; {R}] = z.as_ref(); assert_eq!(d.len(), {R}); assert_eq!(u.into_inner(), *y); }}"]
            if k == "quaternion":
                o += ["{ let y = x.normalize(); let m = y.to_matrix(); let mut z = Matrix3x3::zero(); y.to_matrix_mut(&mut z); assert_eq!(m, z); let _ = Quaternion::from_matrix(&m); let _ = y.try_inverse(); let _ = y.slerp(&X::identity(), 0.5); let _ = y * y; }"]
            if k == "complex":
                o += ["{ let y = *x; let _ = y.exp(); let _ = y.sqrt(); let _ = y.try_inverse(); let _ = y * y; let _ = y / y; }"]
        return o

    def transform(self):
        r, R, e = self.r, self.R, self.e
        ang = f"Radians({r.randrange(1, 6)}.5 as E)"
        v = f"Vector::<E, {R}>::from(a)"
        p = f"Point::<E, {R}>::from(a)"
        rot = f"Rotation2::from_angle({ang})" if R == 2 else f"Rotation3::from_axis_angle(&Unit::from_value(Vector3::new(1 as E, 2 as E, 3 as E)), {ang})"
        return r.choice([
            f"{{ let t = {rot}; let _ = t * {p}; let _ = t.inverse() * t; let _ = t.matrix(); let _ = t.to_affine_matrix(); }}",
            f"{{ let t = Translation{R}::from_vector(&{v}); assert_eq!(t.inverse() * (t * {p}), {p}); let m = t.to_affine_matrix(); assert_eq!(m[{R}][0], a[0]); }}",
            f"{{ let t = Isometry{R}::from_parts(&Translation{R}::from_vector(&{v}), &{rot}); let y = t * {p}; let _ = t.inverse() * y; let _ = t.rotation().matrix(); let _ = t.translation().vector(); let _ = t * t; }}",
            f"{{ let t = Similarity{R}::from_parts(&Translation{R}::from_vector(&{v}), &{rot}, 2.0 as E); let y = t * {p}; let _ = t.inverse() * y; let _ = t * t; }}",
            f"{{ let t = Scale{R}::from_nonuniform_scale(&{v}); let _ = t * {p}; let _ = t.inverse(); }}",
            f"{{ let t = Translation{R}::from_vector(&{v}).to_transform(); let _ = t * {p}; let _ = t.try_inverse(); let m = t.matrix(); assert_eq!(m[{R}][1], a[1]); }}",
        ])


def emit(case, n):
    kind, e, shape, init, steps, last = case
    body = "\n".join("    " + s for s in list(init) + steps + [last])
    return f"fn case_{n}() {{ // {kind} of {e}, {shape}\n{body}\n}}\n"


def crate(tmp, name, programs):
    d = os.path.join(tmp, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as h:
        h.write(CARGO.replace('"mem"', f'"{name}"') % {"v": HERE, "repo": os.environ.get("VERIF_REPO", "/repo")})
    with open(os.path.join(HERE, "dim", "mem.lock")) as h:
        lock = h.read().replace('name = "demo"', f'name = "{name}"').replace(' "cglinalg_trigonometry",\n]\n\n[[package]]\nname = "num', ' "cglinalg_trigonometry",\n]\n\n[[package]]\nname = "num')
    with open(os.path.join(d, "Cargo.lock"), "w") as h:
        h.write(lock)
    for k, text in enumerate(programs):
        with open(os.path.join(d, "src", "bin", f"b{k}.rs"), "w") as h:
            h.write(text)
    return d


def program(cases):
    text = "".join(emit(c, n) for n, c in cases)
    return PRE + text + MAIN % (hashlib.sha256(text.encode()).hexdigest()[:16], ", ".join(f"({n}, case_{n} as fn())" for n, _ in cases))


def miri(d, k, args=(), limit=600):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation", RUST_BACKTRACE="0")
    env.pop("RUSTFLAGS", None)
    text = open(os.path.join(d, "src", "bin", f"b{k}.rs")).read()
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", f"b{k}", "--"] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=limit, errors="replace")
        if "program " in r.stdout and r.stdout.split()[1] not in text:
            nothing("another program was run than was written")
        return r
    except subprocess.TimeoutExpired as t:
        out = t.stdout.decode(errors="replace") if t.stdout else ""
        return subprocess.CompletedProcess(cmd, -9, out, "time-out")


def nothing(msg):
    print(f"P38: {msg}: no verdict", file=sys.stderr)
    sys.exit(2)


def verdict(r):
    """(cases that ran well, failing case or None, message); message '' and case None: all well; SystemExit when there is no verdict"""
    ok = [int(x) for x in re.findall(r"^ok (\d+)", r.stdout, re.M)]
    m = re.search(r"^FAILED (\d+) (.*)", r.stdout, re.M)
    if m:
        return ok, int(m[1]), "the values differ from the model, or a panic: " + m[2][:400]
    started = [int(x) for x in re.findall(r"^case (\d+)", r.stdout, re.M)]
    err = re.search(r"error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*)", r.stderr)
    if r.returncode == 0:
        return ok, None, ""
    if not started:
        print("\n".join(l for l in r.stderr.split("\n") if l.strip())[-3000:], file=sys.stderr)
        nothing("the programs do not build or do not start")
    if err:
        at = re.search(r"--> (\S*cglinalg_\w+/src/\S+)", r.stderr)
        msg = err[1][:300] + (f" at {at[1]}" if at else "")
        if err[1].startswith("memory leaked"):
            return ok, -1, msg
        return ok, started[-1], msg
    if re.search(r"error: (unsupported operation|.*out of memory|resource exhaustion)", r.stderr) or r.returncode == -9:
        print(r.stderr[-2000:], file=sys.stderr)
        nothing("Miri could not run a program")
    return ok, started[-1], f"ended with {r.returncode}: " + r.stderr.strip().split("\n")[-1][:300]


def shrink(tmp, case, msg):
    """remove steps while some failure of the same kind remains"""
    kind = msg.split(":")[0].split(" ")[0]
    rounds = 0
    while len(case[4]) > 1 and rounds < 8:
        rounds += 1
        n = len(case[4])
        cuts = [list(range(a, b)) for a, b in ((0, n // 2), (n // 2, n))] if n > 3 else []
        cuts += [[i] for i in range(n)]
        cand = [case[:4] + ([s for i, s in enumerate(case[4]) if i not in c],) + case[5:] for c in cuts]
        d = crate(tmp, f"shrink{rounds}", [program(list(enumerate(cand)))])
        miri(d, 0, (10 ** 6,))  # build
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: miri(d, 0, (i,), 60), range(len(cand))))
        best = None
        for c, r in zip(cand, rs):
            if r.returncode == 0 and "FAILED" not in r.stdout or r.returncode == -9 or "\nerror[" in r.stderr:
                continue
            _, f, m = verdict(r)
            if f is not None and m.split(":")[0].split(" ")[0] == kind and (best is None or len(c[4]) < len(best[0][4])):
                best = (c, m)
        if not best:
            break
        case, msg = best
    return case, msg


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tmp = os.path.join(TARGET, "gen")  # one place, as cargo does not notice that a program of the same name moved
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        d = crate(tmp, "replay", [open(f).read()])
        _, bad, m = verdict(miri(d, 0))
        print(m if bad is not None else "replay passes")
        if bad is not None:
            print(f"VIOLATION property={prop} replay={f}")
        sys.exit(0 if bad is None else 1)
    rng = random.Random(int(hashlib.sha256(f"{seed}/{prop}".encode()).hexdigest(), 16))
    g = Gen(rng)
    want = 12000 if tier == "thorough" else 2000
    per = 100
    cases, seen = [], set()
    while len(cases) < want:
        c = g.case()
        t = emit(c, 0)
        if t not in seen:
            seen.add(t)
            cases.append(c)
    num = list(enumerate(cases))
    chunks = [num[i:i + per] for i in range(0, want, per)]
    d = crate(tmp, "mem", [program(c) for c in chunks])
    first = miri(d, 0, (10 ** 9,))  # builds the libraries once
    if first.returncode != 0:
        print(first.stderr[-6000:], file=sys.stderr)
        nothing("the programs do not build against /repo")
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: miri(d, k), range(len(chunks))))
    ran, bad = 0, []
    for k, r in enumerate(rs):
        ok, f, m = verdict(r)
        ran += len(ok)
        if f == -1:  # a leak: which case?
            with ThreadPoolExecutor(8) as ex:
                one = list(ex.map(lambda c: (c[0], miri(d, k, (c[0],), 120)), chunks[k]))
            f = next((n for n, x in one if "memory leaked" in x.stderr), chunks[k][0][0])
        if f is not None:
            bad.append((f, m))
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    msgs = []
    done = set()
    for f, m in sorted(bad, key=lambda b: len(cases[b[0]][4])):
        key = re.sub(r"\d+", "", m)[-60:]
        if key in done or len(done) >= 2:
            continue
        done.add(key)
        c, m = shrink(tmp, cases[f], m)
        path = os.path.join(rdir, f"{prop}-{c[0]}-{len(msgs)}.rs")
        with open(path, "w") as h:
            h.write(f"// {m}\n" + program([(0, c)]))
        msgs.append((path, m, emit(c, 0)))
    kinds, types = {}, {}
    for c in cases:
        kinds[c[0]] = kinds.get(c[0], 0) + 1
        types[c[1]] = types.get(c[1], 0) + 1
    nontriv = sum(1 for c in cases if len(c[4]) >= 3)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": len(cases), "distinct_nontrivial": nontriv, "rule": "a history of at least three steps (all histories are distinct)",
                       "samples": [emit(c, n) for n, c in rng.sample(num, 12)], "ran_to_the_end": ran, "steps": sum(len(c[4]) for c in cases),
                       "containers": kinds, "element_types": types, "programs": len(chunks)},
          "assumptions": ["Miri reports the undefined behaviour of what it executes (its default checks and aliasing model)", "a tuple of equal types is laid out in order"],
          "wall_s": round(time.time() - t0, 3), "violations": len(msgs)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{prop}: {len(cases)} histories, {ev['coverage']['steps']} steps, {ran} ran to the end, {ev['wall_s']} s")
    for path, m, text in msgs:
        print("FAIL " + m)
        print(text)
        print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1 if msgs else 0)


if __name__ == "__main__":
    main()
