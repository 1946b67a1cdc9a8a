#!/usr/bin/env python3
"""Generated-program search for P05: expressions type-check exactly when their shapes conform.

A case is a small function over variables of generated shapes whose body is an
expression built of the library's operators and methods, with owned and borrowed
operands, or an assignment, and a declared type for its value. The oracle is
shape inference by the rules of linear algebra (dimensions, points against
vectors, angle units, scalar types). The library's answer is the compiler's:
many cases are emitted as one program against the library built from /repo's
working tree, and a case is rejected when the compiler reports an error on its
line. Cases without an expectation (dimensions above 4 that conform) are not
emitted. A failing case is shrunk to fewer operations and smaller dimensions and
written as a stand-alone program: the replay file.

usage: shapecheck.py P05 [--replay FILE]
"""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FL = ("f64", "f32")
SCALARS = ("f64", "f64", "f32", "i32")
KINDS = ("Rotation", "Translation", "Scale", "Isometry", "Similarity", "Reflection", "Shear")
PRE = ("#![allow(dead_code, unused)]\nuse cglinalg_core::*;\nuse cglinalg_transform::*;\nuse cglinalg_trigonometry::*;\n")
SENTINEL = 'fn s%d() { let _: u8 = "no"; }'


class Unclaimed(Exception):
    """The shapes conform, but a dimension is beyond what the library promises."""


def rust(t):
    k = t[0]
    if k in ("S", "B"):
        return t[1]
    if k in ("V", "P"):
        return f"{'Vector' if k == 'V' else 'Point'}<{t[2]}, {t[1]}>"
    if k == "M":
        return f"Matrix<{t[3]}, {t[1]}, {t[2]}>"
    if k == "Q":
        return f"Quaternion<{t[1]}>"
    if k == "C":
        return f"Complex<{t[1]}>"
    if k == "A":
        return f"{t[1]}<{t[2]}>"
    if k == "G":
        return f"Transform<{t[2]}, {t[1]}, {t[1] + 1}>"
    return f"{t[1]}<{t[3]}, {t[2]}>"  # T


def small(*dims):
    if any(not 1 <= d <= 4 for d in dims):
        raise Unclaimed
    return True


# ---- the rules: result type, or None when the operands do not conform ----
def r_add(a, b):
    if a[0] == b[0] and a[0] in "VMQCA" and a == b:
        small(*[x for x in a if isinstance(x, int)])
        return a
    if a[0] == "P" and b[0] == "V" and a[1:] == b[1:]:
        small(a[1])
        return a
    return None


def r_sub(a, b):
    if a[0] == "P" and b[0] == "P":
        if a != b:
            return None
        small(a[1])
        return ("V",) + a[1:]
    return r_add(a, b)


def scalar_of(t):
    return t[-1]


def r_mul(a, b):
    if b[0] == "S" and a[0] in "VPMQCA":
        if scalar_of(a) != b[1]:
            return None
        small(*[x for x in a if isinstance(x, int)])
        return a
    if a[0] == "S" and b[0] in "VPMQC":
        if scalar_of(b) != a[1]:
            return None
        small(*[x for x in b if isinstance(x, int)])
        return b
    if a[0] == "M" and b[0] == "M":
        if a[2] != b[1] or a[3] != b[3]:
            return None
        small(a[1], a[2], b[2])
        return ("M", a[1], b[2], a[3])
    if a[0] == "M" and b[0] == "V":
        if a[2] != b[1] or a[3] != b[2]:
            return None
        small(a[1], a[2])
        return ("V", a[1], a[3])
    if a[0] in "QC" and a == b:
        return a
    if a[0] == "T" and b[0] in "VP":
        return b if a[2:] == b[1:] else None
    if a[0] == "G" and b[0] in "VP":
        return b if a[1:] == b[1:] else None
    if a[0] == "T" and b[0] == "T" and a[1] == b[1] and a[1] in ("Rotation", "Translation", "Scale", "Isometry", "Similarity"):
        return a if a == b else None
    if a[0] == "G" and b[0] == "G":
        return a if a == b else None
    return None


def r_div(a, b):
    if a[0] == "A" and b[0] == "A":
        return ("S", a[2]) if a == b else None
    if b[0] == "S" and a[0] in "VPMQCA":
        return r_mul(a, b)
    return None


def r_rem(a, b):
    if a[0] == "A":
        return a if a == b else None
    if b[0] == "S" and a[0] in "VPM":
        return r_mul(a, b)
    return None


def r_neg(a):
    if a[0] in "VPMQCA":
        small(*[x for x in a if isinstance(x, int)])
        return a
    return None


def same(kinds, out, only=None, fl=False):
    def f(a, b):
        if a[0] in kinds and a == b and (not fl or scalar_of(a) in FL):
            if only is not None:
                return out(a) if a[1] == only else None
            small(*[x for x in a if isinstance(x, int)])
            return out(a)
        return None
    return f


S_OF = lambda a: ("S", scalar_of(a))


def r_extend(a, b):
    if a[0] in "VP" and b == ("S", a[2]):
        small(a[1], a[1] + 1)
        return (a[0], a[1] + 1, a[2])
    return None


def r_contract(a):
    if a[0] in "VP":
        small(a[1], a[1] - 1)
        return (a[0], a[1] - 1, a[2])
    return None


def r_homog(a):
    if a[0] in "VP":
        small(a[1], a[1] + 1)
        return ("V", a[1] + 1, a[2])
    return None


def r_trmul(a, b):
    if a[0] == "M" and b[0] == "M" and a[1] == b[1] and a[3] == b[3]:
        small(a[1], a[2], b[2])
        return ("M", a[2], b[2], a[3])
    return None


def r_trdot(a, b):
    if a[0] == "M" and b[0] == "M" and a[1] == b[2] and a[2] == b[1] and a[3] == b[3]:
        small(a[1], a[2])
        return ("S", a[3])
    return None


def m1(f):
    def g(a):
        if a[0] != "M":
            return None
        small(a[1], a[2])
        return f(a)
    return g


square = lambda out, fl=False: m1(lambda a: out(a) if a[1] == a[2] and (not fl or a[3] in FL) else None)


def r_lerp(a, b, t):
    if t[0] != "S" or t[1] != scalar_of(a):
        return None
    return same("VM", lambda a: a, fl=True)(a, b)


def r_apply(kind):
    def f(a, b):
        if a[0] == "T" and b[0] == kind:
            return b if a[2:] == b[1:] else None
        if a[0] == "G" and b[0] == kind:
            return b if a[1:] == b[1:] else None
        return None
    return f


# name -> (rule, text, which operands may be borrowed, sorts of operands)
BIN = "VPMQCASTG"
OPS = {
    "add": (r_add, "({0} + {1})", (1, 1), ("VPMQCA", "VPMQCA")),
    "sub": (r_sub, "({0} - {1})", (1, 1), ("VPMQCA", "VPMQCA")),
    "mul": (r_mul, "({0} * {1})", (1, 1), ("VPMQCASTG", "VPMQCASTG")),
    "div": (r_div, "({0} / {1})", (1, 1), ("VPMQCA", "SSAVPMQC")),
    "rem": (r_rem, "({0} % {1})", (1, 1), ("VPMA", "SSAVPM")),
    "neg": (r_neg, "(-{0})", (1,), ("VPMQCA",)),
    "eq": (lambda a, b: ("B", "bool") if a == b else None, "({0} == {1})", (0, 0), ("VPMQCATG", "VPMQCATG")),
    "lt": (lambda a, b: ("B", "bool") if a == b else None, "({0} < {1})", (0, 0), ("A", "A")),
    "dot": (same("VPM", S_OF), "({0}).dot(&{1})", (0, 0), ("VPM", "VPM")),
    "cross": (same("V", lambda a: a, only=3), "({0}).cross(&{1})", (0, 0), ("V", "V")),
    "component_mul": (same("VM", lambda a: a), "({0}).component_mul(&{1})", (0, 0), ("VM", "VM")),
    "extend": (r_extend, "({0}).extend({1})", (0, 0), ("VP", "S")),
    "contract": (r_contract, "({0}).contract()", (0,), ("VP",)),
    "to_homogeneous": (r_homog, "({0}).to_homogeneous()", (0,), ("VP",)),
    "to_vector": (lambda a: small(a[1]) and ("V",) + a[1:] if a[0] == "P" else None, "({0}).to_vector()", (0,), ("P",)),
    "transpose": (m1(lambda a: ("M", a[2], a[1], a[3])), "({0}).transpose()", (0,), ("M",)),
    "row": (m1(lambda a: ("V", a[2], a[3])), "({0}).row(0)", (0,), ("M",)),
    "column": (m1(lambda a: ("V", a[1], a[3])), "({0}).column(0)", (0,), ("M",)),
    "trace": (square(S_OF), "({0}).trace()", (0,), ("M",)),
    "determinant": (square(S_OF), "({0}).determinant()", (0,), ("M",)),
    "inverse": (square(lambda a: a, fl=True), "({0}).inverse()", (0,), ("M",)),
    "tr_mul": (r_trmul, "({0}).tr_mul(&{1})", (0, 0), ("M", "M")),
    "tr_dot": (r_trdot, "({0}).tr_dot(&{1})", (0, 0), ("M", "M")),
    "lerp": (r_lerp, "({0}).lerp(&{1}, {2})", (0, 0, 0), ("VM", "VM", "S")),
    "project": (same("V", lambda a: a, fl=True), "({0}).project(&{1})", (0, 0), ("V", "V")),
    "distance": (same("VPM", S_OF, fl=True), "({0}).metric_distance(&{1})", (0, 0), ("VPM", "VPM")),
    "apply_vector": (r_apply("V"), "({0}).apply_vector(&{1})", (0, 0), ("TG", "V")),
    "apply_point": (r_apply("P"), "({0}).apply_point(&{1})", (0, 0), ("TG", "P")),
}
ASSIGN = {"+=": (r_add, "VPMQCA", "VPMQCA"), "-=": (lambda a, b: None if b[0] == "P" else r_sub(a, b), "VPMQCA", "VPMQCA"),
          "*=": (lambda a, b: r_mul(a, b) if b[0] == "S" else None, "VPMA", "SVM"), "/=": (lambda a, b: r_div(a, b) if b[0] == "S" else None, "VPMQA", "SV")}


def no_claim(op, ts):
    """Combinations the rules above say nothing about, because the library might offer them or does not promise them."""
    ks = [t[0] for t in ts]
    if op in ("add", "sub", "mul", "div", "rem"):
        a, b = ts
        if op == "mul" and a[0] == "A" and b[0] == "S" and False:
            return True
        if {a[0], b[0]} <= set("SQC"):
            return op in ("div", "rem") or not (a[0] == b[0] and a[0] in "QC")  # mixed arithmetic of numbers belongs to other properties
        if op == "mul" and a[0] in "TG" and b[0] in "TG" and a[1:3] != b[1:3] and (a[0] == "G" or b[0] == "G" or a[1] != b[1]):
            # products of different kinds of transformations: which are offered is not claimed, but never across dimensions
            da, db = (x[2] if x[0] == "T" else x[1] for x in (a, b))
            return da == db
        if op == "mul" and a[0] == "T" and b[0] == "T" and a[1] == b[1] and a[1] in ("Reflection", "Shear"):
            return a[2] == b[2]
        if op == "mul" and a[0] == "A" and b[0] == "A":
            return False
        if op == "mul" and "G" in ks and a == b:
            return False
    if op == "neg" and ts[0][0] == "A":
        return False
    return False


class Gen:
    def __init__(self, rng, top):
        self.rng, self.top = rng, top

    def dim(self):
        r = self.rng
        return r.randrange(1, 5) if r.randrange(8) else r.randrange(1, self.top + 1)

    def type_of(self, k, like=None):
        r = self.rng
        s = scalar_of(like) if like and r.randrange(12) else r.choice(SCALARS)
        near = [x for x in (like or ()) if isinstance(x, int)]
        d = lambda: r.choice(near) if near and r.randrange(3) else self.dim()
        if k == "S":
            return ("S", s)
        if k in "VP":
            return (k, d(), s)
        if k == "M":
            return ("M", d(), d(), s)
        if k in "QC":
            return (k, s)
        f = s if s in FL else "f64"
        if k == "A":
            u = like[1] if like and like[0] == "A" and r.randrange(4) else r.choice(("Radians", "Degrees"))
            return ("A", u, f)
        n = r.choice(near) if near and r.randrange(3) else r.choice((2, 3))
        n = n if n in (2, 3) else r.choice((2, 3))
        if k == "G":
            return ("G", n, f)
        kind = like[1] if like and like[0] == "T" and r.randrange(3) else r.choice(KINDS)
        return ("T", kind, n, f)

    def case(self):
        """(variables, body expression, value type or None when it must be rejected, declared type, steps) or None"""
        r = self.rng
        vs, pool = [], []  # variable types; (text, type)

        def var(t):
            vs.append(t)
            pool.append((f"v{len(vs) - 1}", t))
            return pool[-1]

        steps = r.choice((1, 1, 1, 2, 2, 3, 4))
        last = None
        for i in range(steps):
            final = i == steps - 1
            if final and r.randrange(8) == 0:
                return self.assign(vs, pool, var, last)
            for _ in range(40):
                op = r.choice(list(OPS))
                rule, text, borrow, sorts = OPS[op]
                args, like = [], None
                for j, ks in enumerate(sorts):
                    have = [e for e in pool if e[1][0] in ks]
                    if last and last[1][0] in ks and (j == 0 or r.randrange(3) == 0) and r.randrange(4):
                        e = last
                    elif have and r.randrange(2):
                        e = r.choice(have)
                    else:
                        k = r.choice(ks)
                        if like and r.randrange(2) and like[0] in ks:
                            k = like[0]
                        t = self.type_of(k, like)
                        e = (None, t)
                    args.append(e)
                    like = like or e[1]
                ts = [e[1] for e in args]
                if no_claim(op, ts):
                    continue
                try:
                    out = rule(*ts)
                except Unclaimed:
                    continue
                if out is None and not final:
                    continue
                if out is None and r.randrange(2):
                    continue
                break
            else:
                return None
            texts = []
            for j, (e, b) in enumerate(zip(args, borrow)):
                e = e if e[0] else var(e[1])
                # scalars on the right and points after scalars are only taken by value
                can = b and not (e[1][0] == "S" and j == 1) and not (op == "mul" and j == 1 and e[1][0] in "P" and ts[0][0] == "S")
                can = can and not (ts[0][0] == "S" and e[1][0] in "QC") and not (ts[0][0] == "S" and j == 0)
                texts.append(f"(&{e[0]})" if can and r.randrange(2) else e[0])
            expr = text.format(*texts)
            last = (expr, out)
            if out is None:
                return vs, f"let _e = {expr};", False, op
            pool.append(last)
        t = last[1]
        if r.randrange(6) == 0:
            w = list(t)
            ints = [j for j, x in enumerate(w) if isinstance(x, int) and t[0] in "VPM"]
            if ints:
                j = r.choice(ints)
                w[j] = w[j] + 1 if w[j] < 4 and r.randrange(2) or w[j] == 1 else w[j] - 1
                return vs, f"let _e: {rust(tuple(w))} = {last[0]};", False, "value of another shape"
        return vs, f"let _e: {rust(t)} = {last[0]};", True, op

    def assign(self, vs, pool, var, last):
        r = self.rng
        for _ in range(20):
            op = r.choice(list(ASSIGN))
            rule, lk, rk = ASSIGN[op]
            t = self.type_of(r.choice(lk))
            if last and last[1] and last[1][0] in rk and r.randrange(2):
                e = last
            else:
                k = r.choice(rk)
                e = (None, self.type_of(t[0] if t[0] in rk and r.randrange(2) else k, t))
            if {t[0], e[1][0]} <= set("SQC") and t[0] != e[1][0]:
                continue
            if t[0] in "QC" and op in ("*=", "/="):
                continue
            try:
                out = rule(t, e[1])
            except Unclaimed:
                continue
            if out is None and r.randrange(2):
                continue
            lhs = var(t)
            e = e if e[0] else var(e[1])
            return vs, f"let mut m = {lhs[0]}; m {op} {e[0]};", out is not None, op
        return None


def emit(case, i):
    vs, body, _, _ = case
    args = ", ".join(f"v{j}: {rust(t)}" for j, t in enumerate(vs))
    return f"fn c{i}({args}) {{ {body} }}"


def grid(top):
    """Every pair of shapes up to a size, for the operations between shapes."""
    out = []
    R = range(1, top + 1)
    mats = [("M", r, c, "f64") for r in R for c in R]
    vecs = [(k, n, "f64") for k in "VP" for n in R]
    for op in ("add", "sub", "mul", "dot", "tr_mul", "tr_dot", "component_mul", "cross", "project", "distance"):
        rule, text, _, sorts = OPS[op]
        for a, b in itertools.product(mats + vecs, repeat=2):
            if a[0] not in sorts[0] or b[0] not in sorts[1]:
                continue
            try:
                t = rule(a, b)
            except Unclaimed:
                continue
            e = text.format("v0", "v1")
            out.append(([a, b], f"let _e{': ' + rust(t) if t else ''} = {e};", t is not None, op))
    for op in ("neg", "contract", "to_homogeneous", "transpose", "row", "column", "trace", "determinant", "inverse"):
        rule, text, _, sorts = OPS[op]
        for a in mats + vecs:
            if a[0] not in sorts[0]:
                continue
            try:
                t = rule(a)
            except Unclaimed:
                continue
            out.append(([a], f"let _e{': ' + rust(t) if t else ''} = {text.format('v0')};", t is not None, op))
    for kind in KINDS:
        for n, m, f, k in itertools.product((2, 3), (1, 2, 3, 4), ("apply", "mul"), "VP"):
            a, b = ("T", kind, n, "f64"), (k, m, "f64")
            op = "mul" if f == "mul" else "apply_vector" if k == "V" else "apply_point"
            t = OPS[op][0](a, b)
            out.append(([a, b], f"let _e{': ' + rust(t) if t else ''} = {OPS[op][1].format('v0', 'v1')};", t is not None, op))
    return out


def build():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = env.get("CARGO_TARGET_DIR", f"{HERE}/target")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--lib", "--message-format=json"],
                       cwd=f"{HERE}/harness/hxform", env=env, capture_output=True, text=True, timeout=700)
    libs = {}
    for line in r.stdout.split("\n"):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".rmeta")):
                    libs.setdefault(m["target"]["name"], f)
                    if f.endswith(".rlib"):
                        libs[m["target"]["name"]] = f
    need = ("cglinalg_core", "cglinalg_transform", "cglinalg_trigonometry")
    if r.returncode != 0 or not all(n in libs for n in need):
        sys.stderr.write("the library does not build: no verdict\n" + r.stderr[-3000:])
        sys.exit(2)
    args = ["-L", "dependency=" + os.path.dirname(libs["cglinalg_core"])]
    for n in need:
        args += ["--extern", f"{n}={libs[n]}"]
    return args


def compile_lines(src, libs, tmp, tag):
    f = os.path.join(tmp, tag + ".rs")
    with open(f, "w") as h:
        h.write(src)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-Awarnings", "--error-format=json", f,
                        "-o", os.path.join(tmp, tag + ".rmeta")] + libs, capture_output=True, text=True, cwd=tmp, timeout=800)
    lines = {}
    for row in r.stderr.split("\n"):
        try:
            m = json.loads(row)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        for sp in m.get("spans", []):
            if sp["is_primary"] and sp["file_name"].endswith(tag + ".rs"):
                lines.setdefault(sp["line_start"], m["message"])
    return lines, r


def admitted(cases, libs, tmp, tag="p"):
    """For each case, None when the compiler accepts it, or its message."""
    body = [SENTINEL % 0] + [emit(c, i) for i, c in enumerate(cases)] + [SENTINEL % 1]
    first = PRE.count("\n") + 1
    lines, r = compile_lines(PRE + "\n".join(body) + "\n", libs, tmp, tag)
    if first not in lines or first + len(cases) + 1 not in lines:
        sys.stderr.write("the compiler did not get as far as types: no verdict\n" + r.stderr[-2000:])
        sys.exit(2)
    return [lines.get(first + 1 + i) for i in range(len(cases))]


def judge(case, err):
    vs, body, ok, op = case
    shapes = ", ".join(f"v{j}: {rust(t)}" for j, t in enumerate(vs))
    if ok and err:
        return f"[{op}] with {shapes}: `{body}` conforms but is rejected: {err}"
    if not ok and not err:
        return f"[{op}] with {shapes}: `{body}` does not conform but is accepted"
    return None


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    with tempfile.TemporaryDirectory(prefix="shapecheck-") as tmp:
        libs = build()
        if "--replay" in sys.argv:
            f = sys.argv[sys.argv.index("--replay") + 1]
            text = open(f).read()
            want = text.split("\n")[0].split()[-1]  # accepted / rejected
            lines, r = compile_lines(text, libs, tmp, "replay")
            bad = (r.returncode != 0) == (want == "accepted")
            print(text.split("\n")[1][3:] if bad else "replay passes")
            if bad:
                print(f"VIOLATION property={prop} replay={f}")
            sys.exit(1 if bad else 0)
        rng = random.Random(int(hashlib.sha256(f"{seed}/{prop}".encode()).hexdigest(), 16))
        thorough = tier == "thorough"
        cases = grid(6 if thorough else 4)
        gen = Gen(rng, 7)
        seen = {(emit(c, 0)) for c in cases}
        want = len(cases) + (150000 if thorough else 24000)
        for _ in range(want * 20):
            if len(cases) >= want:
                break
            c = gen.case()
            if c and emit(c, 0) not in seen:
                seen.add(emit(c, 0))
                cases.append(c)
        rng.shuffle(cases)
        size = min(1500, -(-len(cases) // 8))
        chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: admitted(a[1], libs, tmp, f"b{a[0]}"), enumerate(chunks)))
        bad, ops, samples = [], {}, []
        nontriv = accepted = 0
        for cs, rs in zip(chunks, res):
            for c, e in zip(cs, rs):
                o = ops.setdefault(c[3], [0, 0])
                o[0 if c[2] else 1] += 1
                accepted += c[2]
                nt = any(isinstance(x, int) and x > 1 for t in c[0] for x in t)
                nontriv += nt
                if nt and len(samples) < 30 and rng.randrange(max(1, len(cases) // 50)) == 0:
                    samples.append(emit(c, 0) + (" // accepted" if c[2] else " // rejected"))
                m = judge(c, e)
                if m:
                    bad.append((c, m))
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        msgs = []
        for op in sorted({b[0][3] for b in bad}):
            for ok in (True, False):
                these = [b for b in bad if b[0][3] == op and b[0][2] == ok]
                if not these:
                    continue
                # the smallest failing case among those explored: fewest operations, then smallest shapes
                c, m = min(these, key=lambda b: (len(b[0][1].split("(")), len(b[0][0]), sum(x for t in b[0][0] for x in t if isinstance(x, int)), b[1]))
                path = os.path.join(rdir, f"{prop}-{op.replace(' ', '_').replace('=', 'assign').replace('+', 'add').replace('-', 'sub').replace('*', 'mul').replace('/', 'div')}-{'accept' if ok else 'reject'}.rs")
                with open(path, "w") as h:
                    h.write(f"// must be {'accepted' if ok else 'rejected'}\n// {m}\n" + PRE + emit(c, 0) + "\n")
                msgs.append((path, m))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": len(cases), "distinct_nontrivial": nontriv, "rule": "some dimension is above 1", "samples": samples,
                           "must_be_accepted": accepted, "must_be_rejected": len(cases) - accepted,
                           "per_operation_accepted_rejected": ops, "programs": len(chunks)},
              "assumptions": ["the compiler's type checking decides what is admitted"],
              "wall_s": round(time.time() - t0, 3), "violations": len(msgs)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        print(f"{prop}: {len(cases)} programs' worth of cases, {accepted} to be accepted, {len(cases) - accepted} to be rejected, {ev['wall_s']} s")
        for path, m in msgs[:12]:
            print("FAIL " + m[:1500])
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1 if msgs else 0)


main()
