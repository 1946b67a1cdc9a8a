#!/usr/bin/env python3
"""Generated-program search for the compile-time dimension properties P01..P04.

A case is a tuple of dimensions. Whether the library admits the tuple, and what
result dimension it computes, is decided by the compiler, so the cases of a
batch are emitted as one probe program that includes the constraint module of
/repo's working tree, compiled with rustc and run; each probe prints whether the
trait holds and the dimension of its output. The oracle is integer arithmetic.
A failing tuple is shrunk (component-wise, by re-probing smaller tuples) and
written as a stand-alone probe program: the replay file.

usage: dimcheck.py P01 [--replay FILE]
"""
import hashlib
import itertools
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONSTRAINT = f"{REPO}/crates/cglinalg_core/src/constraint.rs"
MAXU = 2**64 - 1

PRELUDE = r'''
#![allow(dead_code, unused)]
#[path = "@PATH@"]
mod constraint;
use constraint::*;
use std::marker::PhantomData;
pub trait Val { const V: usize; }
impl<const N: usize> Val for Const<N> { const V: usize = N; }

macro_rules! probe2 {
    ($P:ident, $No:ident, $T:ident) => {
        pub struct $P<A, B>(PhantomData<(A, B)>);
        pub trait $No { const YES: bool = false; }
        impl<A, B> $No for $P<A, B> {}
        impl<A: Dim, B: Dim> $P<A, B> where ShapeConstraint: $T<A, B> { pub const YES: bool = true; }
    };
}
macro_rules! probe2out {
    ($P:ident, $No:ident, $T:ident, $O:ident) => {
        pub struct $P<A, B>(PhantomData<(A, B)>);
        pub trait $No { const OUT: Option<usize> = None; }
        impl<A, B> $No for $P<A, B> {}
        impl<A: Dim, B: Dim> $P<A, B> where ShapeConstraint: $T<A, B>, <ShapeConstraint as $T<A, B>>::$O: Val {
            pub const OUT: Option<usize> = Some(<<ShapeConstraint as $T<A, B>>::$O as Val>::V);
        }
    };
}
macro_rules! probe4 {
    ($P:ident, $No:ident, $T:ident) => {
        pub struct $P<A, B, C, D>(PhantomData<(A, B, C, D)>);
        pub trait $No { const YES: bool = false; }
        impl<A, B, C, D> $No for $P<A, B, C, D> {}
        impl<A: Dim, B: Dim, C: Dim, D: Dim> $P<A, B, C, D> where ShapeConstraint: $T<A, B, C, D> { pub const YES: bool = true; }
    };
}
probe2!(Add, NoAdd, DimAdd);
probe2!(Sub, NoSub, DimSub);
probe2!(Mul, NoMul, DimMul);
probe2!(Lt, NoLt, DimLt);
probe2!(Eq_, NoEq, DimEq);
probe2!(Ext, NoExt, CanExtend);
probe2!(Con, NoCon, CanContract);
probe4!(Mm, NoMm, CanMultiply);
probe4!(Tm, NoTm, CanTransposeMultiply);
probe2out!(AddO, NoAddO, DimAdd, Output);
probe2out!(SubO, NoSubO, DimSub, Output);
probe2out!(MulO, NoMulO, DimMul, Output);
probe2out!(EqO, NoEqO, DimEq, Representative);
type K<const N: usize> = Const<N>;
'''

# kind -> (probe type, output probe type or None, arity)
KINDS = {
    "add": ("Add", "AddO", 2), "sub": ("Sub", "SubO", 2), "mul": ("Mul", "MulO", 2),
    "lt": ("Lt", None, 2), "eq": ("Eq_", "EqO", 2),
    "extend": ("Ext", None, 2), "contract": ("Con", None, 2),
    "multiply": ("Mm", None, 4), "transpose_multiply": ("Tm", None, 4),
}


def judge(kind, t, yes, out):
    """None, or what is wrong with the library's answer for this tuple."""
    small = lambda *xs: all(1 <= x <= 4 for x in xs)
    if kind in ("add", "sub", "mul"):
        m, n = t
        want = {"add": m + n, "sub": m - n, "mul": m * n}[kind]
        name = {"add": "sum", "sub": "difference", "mul": "product"}[kind]
        if yes:
            if want < 0 or want > MAXU:
                return f"the {name} of {m} and {n} is admitted, but it is not a dimension"
            if out != want:
                return f"the {name} of {m} and {n} is given as {out}, it is {want}"
        elif small(m, n) and want >= 0:
            return f"the {name} of {m} and {n} is not available"
        return None
    if kind == "lt":
        m, n = t
        if yes and not m < n:
            return f"{m} < {n} is admitted"
        if not yes and m < n <= 4:
            return f"{m} < {n} is not admitted"
        return None
    if kind == "eq":
        m, n = t
        if yes != (m == n):
            return f"{m} == {n} is {'admitted' if yes else 'not admitted'}"
        if yes and out != m:
            return f"the representative of {m} == {n} is {out}"
        return None
    if kind == "extend":
        m, n = t
        if yes and n != m + 1:
            return f"extending {m} to {n} is admitted"
        if not yes and n == m + 1 and 1 <= m <= 4:
            return f"extending {m} to {n} is not admitted"
        return None
    if kind == "contract":
        m, n = t
        if yes and n != m - 1:
            return f"contracting {m} to {n} is admitted"
        if not yes and n == m - 1 and 1 <= m <= 4:
            return f"contracting {m} to {n} is not admitted"
        return None
    r1, c1, r2, c2 = t
    if kind == "multiply":
        if yes != (c1 == r2):
            return f"multiplying {r1}x{c1} by {r2}x{c2} is {'admitted' if yes else 'not admitted'}"
        return None
    if kind == "transpose_multiply":
        if yes != (r1 == r2):
            return f"multiplying the transpose of {r1}x{c1} by {r2}x{c2} is {'admitted' if yes else 'not admitted'}"
        return None
    raise KeyError(kind)


def program(cases):
    src = [PRELUDE.replace("@PATH@", CONSTRAINT)]
    src.append("pub static T: &[(bool, Option<usize>)] = &[")
    for kind, t in cases:
        p, o, _ = KINDS[kind]
        args = ",".join(f"K<{x}>" for x in t)
        yes = f"<{p}<{args}>>::YES"
        out = f"<{o}<{args}>>::OUT" if o else "None"
        src.append(f"({yes},{out}),")
    src.append("];\nfn main(){for (y,o) in T{match o{Some(v)=>println!(\"{} {}\",*y as u8,v),None=>println!(\"{} -\",*y as u8)}}}\n")
    return "\n".join(src)


def rustc(src, exe, tmp):
    f = os.path.join(tmp, os.path.basename(exe) + ".rs")
    with open(f, "w") as h:
        h.write(src)
    return subprocess.run(["rustc", "--edition", "2021", "-Awarnings", "-Cdebuginfo=0", "-Copt-level=0", f, "-o", exe],
                          capture_output=True, text=True, cwd=tmp, timeout=800)


def probe(cases, tmp, tag="probe"):
    exe = os.path.join(tmp, tag)
    r = rustc(program(cases), exe, tmp)
    if r.returncode != 0:
        sys.stderr.write("the probe program does not compile (no verdict):\n" + r.stderr[-4000:])
        sys.exit(2)
    out = subprocess.run([exe], capture_output=True, text=True, timeout=60)
    rows = out.stdout.split("\n")[:-1]
    if out.returncode != 0 or len(rows) != len(cases):
        sys.stderr.write(f"probe program ended with {out.returncode}\n")
        sys.exit(2)
    res = []
    for row in rows:
        y, o = row.split()
        res.append((y == "1", None if o == "-" else int(o)))
    return res


# Programs that must compile whatever the sizes: what an admitted shape
# constraint promises to generic code that is given it.
IMPLIED = {
    "P02": ("an admitted equality or ordering is between dimensions", '''
fn d<D: Dim + ?Sized>() {}
pub fn f<A: Dim, B: Dim>() where ShapeConstraint: DimEq<A, B> { d::<<ShapeConstraint as DimEq<A, B>>::Representative>(); }
pub fn g<D: Dim>() where ShapeConstraint: DimEq<D, D> {}
pub fn h<D: Dim>() { g::<D>(); }
'''),
    "P03": ("an admitted product carries the equality of its inner dimensions, in both orders, and equality alone admits it", '''
fn eq<A: Dim, B: Dim>() where ShapeConstraint: DimEq<A, B> {}
pub fn f<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanMultiply<R1, C1, R2, C2> { eq::<C1, R2>(); eq::<R2, C1>(); }
pub fn g<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanTransposeMultiply<R1, C1, R2, C2> { eq::<R1, R2>(); eq::<R2, R1>(); }
fn mm<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanMultiply<R1, C1, R2, C2> {}
fn tm<R1: Dim, C1: Dim, R2: Dim, C2: Dim>() where ShapeConstraint: CanTransposeMultiply<R1, C1, R2, C2> {}
pub fn h<const R: usize, const C: usize, const D: usize>() { mm::<Const<R>, Const<C>, Const<C>, Const<D>>(); tm::<Const<C>, Const<R>, Const<C>, Const<D>>(); }
'''),
    "P04": ("an admitted extension or contraction carries the sum or difference it stands for", '''
fn s<A: Dim, B: Dim>() where ShapeConstraint: DimAdd<A, Const<1>, Output = B> {}
fn t<A: Dim, B: Dim>() where ShapeConstraint: DimSub<A, Const<1>, Output = B> {}
pub fn f<A: Dim, B: Dim>() where ShapeConstraint: CanExtend<A, B> { s::<A, B>(); }
pub fn g<A: Dim, B: Dim>() where ShapeConstraint: CanContract<A, B> { t::<A, B>(); }
'''),
}

PROPS = {
    "P01": ["add", "sub", "mul"],
    "P02": ["lt", "eq"],
    "P03": ["multiply", "transpose_multiply", "eq"],
    "P04": ["extend", "contract"],
}
RULE = {
    "P01": "both dimensions at least 1 and not both 1",
    "P02": "both dimensions at least 1 and not both 1",
    "P03": "all dimensions at least 1 and at least two of them distinct, or an equality of dimensions above 1",
    "P04": "both dimensions at least 1",
}


def nontrivial(prop, kind, t):
    if min(t) < 1:
        return False
    if len(t) == 4:
        return len(set(t)) > 1
    return prop == "P04" or t != (1, 1)


SPECIAL = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 65535, 65536,
           2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, MAXU - 1, MAXU]


def generate(prop, rng, thorough):
    cases = []
    grid2 = 40 if not thorough else 140
    grid4 = 6 if not thorough else 10
    nrand = 3000 if not thorough else 30000
    kinds = PROPS[prop]
    # as a fuzzer's dictionary: the integers that occur in the module under test
    words = sorted({int(w.replace("_", "")) for w in re.findall(r"\b\d[\d_]*\b", open(CONSTRAINT).read())
                    if int(w.replace("_", "")) <= MAXU})[:60]
    special = sorted(set(SPECIAL) | set(words))

    def size():
        k = rng.randrange(10)
        if k < 4:
            return rng.randrange(0, 7)
        if k < 7:
            return rng.randrange(0, 41)
        if k < 9:
            return rng.choice(special)
        return rng.randrange(0, 2**rng.randrange(1, 64))

    for kind in kinds:
        ar = KINDS[kind][2]
        if ar == 2:
            cases += [(kind, t) for t in itertools.product(range(grid2 + 1), repeat=2)]
            cases += [(kind, (s, s)) for s in special]
            cases += [(kind, t) for t in itertools.product(words, repeat=2)]
            for s in special:
                for d in (0, 1, 2):
                    cases.append((kind, (s, d)))
                    cases.append((kind, (d, s)))
                    if s + d <= MAXU:
                        cases.append((kind, (s, s + d)))
                    if s >= d:
                        cases.append((kind, (s, s - d)))
        else:
            cases += [(kind, t) for t in itertools.product(range(grid4 + 1), repeat=4)]
        for _ in range(nrand):
            if ar == 2:
                m = size()
                r = rng.randrange(4)
                n = size() if r == 0 else min(MAXU, max(0, m + rng.choice([-2, -1, 0, 1, 2]))) if r < 3 else rng.randrange(0, 6)
                t = (m, n) if rng.randrange(2) else (n, m)
            else:
                a, b, c, d = size(), size(), size(), size()
                r = rng.randrange(8)
                if r in (0, 1):
                    c = b
                elif r in (2, 3):
                    c = a
                elif r == 4:
                    c = min(MAXU, b + 1)
                elif r == 5:
                    d = b
                elif r == 6:
                    d = a
                t = (a, b, c, d)
            cases.append((kind, t))
    seen, uniq = set(), []
    for c in cases:
        if c not in seen:
            seen.add(c)
            uniq.append(c)
    return uniq


def shrink(kind, t, tmp):
    """Smallest failing tuple reachable by lowering components."""
    cur = t
    for _ in range(12):
        cand = set()
        for i in range(len(cur)):
            v = cur[i]
            for w in {0, 1, 2, 3, 4, 5, v // 2, v - 1, v - 2} | set(cur):
                if 0 <= w < v:
                    cand.add(cur[:i] + (w,) + cur[i + 1:])
        for k in (1, 2, 4):
            if min(cur) >= k:
                cand.add(tuple(x - k for x in cur))
        cand = sorted(cand, key=lambda x: (sum(x), x))
        if not cand:
            break
        res = probe([(kind, c) for c in cand], tmp, "shrink")
        bad = [c for c, (y, o) in zip(cand, res) if judge(kind, c, y, o)]
        if not bad:
            break
        cur = bad[0]
    return cur


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    with tempfile.TemporaryDirectory(prefix="dimcheck-") as tmp:
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            text = open(f).read()
            if text.startswith("// implied"):
                r = rustc(text, os.path.join(tmp, "implied"), tmp)
                bad = r.returncode != 0
                print(r.stderr[-3000:] if bad else "replay passes")
            else:
                l = text.split("\n")[0].split()
                kind, t = l[2], tuple(int(x) for x in l[3:])
                (y, o), = probe([(kind, t)], tmp)
                bad = judge(kind, t, y, o)
                print(bad or "replay passes")
            if bad:
                print(f"VIOLATION property={prop} replay={f}")
            sys.exit(1 if bad else 0)

        rng = random.Random(int(hashlib.sha256(f"{seed}/{prop}".encode()).hexdigest(), 16))
        cases = generate(prop, rng, tier == "thorough")
        from concurrent.futures import ThreadPoolExecutor
        chunk = max(200, -(-len(cases) // 8))
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        chunks = [c[i:i + 2500] for c in chunks for i in range(0, len(c), 2500)]
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda a: probe(a[1], tmp, f"b{a[0]}"), enumerate(chunks)))
        bad, evals, nontriv, admitted = [], 0, 0, {}
        samples = []
        for cs, rs in zip(chunks, results):
            for (kind, t), (y, o) in zip(cs, rs):
                evals += 1
                nt = nontrivial(prop, kind, t)
                nontriv += nt
                if y:
                    admitted[kind] = admitted.get(kind, 0) + 1
                if nt and len(samples) < 40 and rng.randrange(max(1, len(cases) // 60)) == 0:
                    samples.append(f"{kind}{t}: admitted={y} output={o}")
                m = judge(kind, t, y, o)
                if m:
                    bad.append((kind, t, m))
        messages = []
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for kind in sorted({b[0] for b in bad}):
            first = min((b for b in bad if b[0] == kind), key=lambda b: (sum(b[1]), b[1]))
            t = shrink(kind, first[1], tmp)
            (y, o), = probe([(kind, t)], tmp)
            msg = judge(kind, t, y, o)
            path = os.path.join(rdir, f"{prop}-{kind}.rs")
            with open(path, "w") as h:
                h.write(f"// case: {kind} {' '.join(map(str, t))}\n// {msg}\n" + program([(kind, t)]))
            messages.append((path, msg))
        if prop in IMPLIED:
            what, body = IMPLIED[prop]
            src = f"// implied: {what}\n" + PRELUDE.replace("@PATH@", CONSTRAINT) + body + "\nfn main() {}\n"
            evals += 1
            r = rustc(src, os.path.join(tmp, "implied"), tmp)
            if r.returncode != 0:
                path = os.path.join(rdir, f"{prop}-implied.rs")
                with open(path, "w") as h:
                    h.write(src)
                messages.append((path, f"not so: {what}\n{r.stderr[-1500:]}"))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": RULE[prop], "samples": samples,
                         "admitted": admitted, "probe_programs": len(chunks)},
            "assumptions": ["the compiler's trait resolution decides what is admitted"],
            "wall_s": round(time.time() - t0, 3), "violations": len(messages),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        print(f"{prop}: {evals} cases, {nontriv} non-trivial, admitted {admitted}, {time.time() - t0:.1f} s")
        for path, msg in messages:
            print("FAIL", msg)
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1 if messages else 0)


main()
