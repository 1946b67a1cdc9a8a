#!/usr/bin/env python3
"""Mutation testing of the checks: plants many small mechanical changes, each in a scratch
copy of /repo, runs the checks of the changed file there, and reports the survivors.

usage: mutate.py OUT.jsonl --n N [--seed S] [--files f1,f2] [--workers W] [--only-approx|--no-approx]
Not part of any check. Everything happens under /tmp/mut.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, TR = "crates/cglinalg_core/src/", "crates/cglinalg_transform/src/"
CHECKS = {
    CORE + "vector.rs": "P10 P13 P11 P12 P14 P33 P34 P37 P32",
    CORE + "point.rs": "P10 P13 P11 P12 P14 P33 P34 P37 P32",
    CORE + "matrix.rs": "P35 P15 P16 P17 P18 P12 P19 P20 P21 P33 P34 P37 P32 P23",
    CORE + "matrix_euler.rs": "P27",
    CORE + "quaternion.rs": "P22 P36 P24 P23 P19 P20 P12 P33 P34 P37 P32",
    CORE + "complex.rs": "P25 P26 P36 P12 P33 P34 P37 P32",
    CORE + "euler.rs": "P27 P36 P37 P32",
    CORE + "normed.rs": "P33 P12",
    CORE + "unit.rs": "P33 P32",
    CORE + "constraint.rs": "P01 P02 P03 P04 P05",
    "crates/cglinalg_numeric/src/lib.rs": "P06",
    "crates/cglinalg_trigonometry/src/lib.rs": "P07 P08 P09 P37 P32",
    TR + "rotation.rs": "P28 P19 P20 P27 P31 P37 P32",
    TR + "translation.rs": "P29 P30 P31 P37 P32",
    TR + "scale.rs": "P29 P31 P37 P32",
    TR + "shear.rs": "P29 P31 P37 P32",
    TR + "reflection.rs": "P29 P31 P37 P32",
    TR + "isometry.rs": "P30 P20 P31 P37 P32",
    TR + "isometry_ops.rs": "P30",
    TR + "similarity.rs": "P30 P20 P31 P37 P32",
    TR + "transform.rs": "P31 P37 P32",
    TR + "projection.rs": "P21 P37 P32",
}
SWAPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
    (r" /= ", [" *= "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " < "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\[1\]", ["[2]"]), (r"\[2\]", ["[1]"]), (r"\[3\]", ["[2]"]), (r"\[(\w)\]\[(\w)\]", [r"[\2][\1]"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".z", ".x"]), (r"\.z\b", [".y"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\btan\b", ["sin"]),
    (r"sinh\b", ["cosh"]), (r"cosh\b", ["sinh"]),
    (r"S::one\(\)", ["S::zero()"]), (r"S::zero\(\)", ["S::one()"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\bself\b", ["other"]), (r"\bother\b", ["self"]),
    (r"\bone\b", ["two"]), (r"\btwo\b", ["one"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bre\b", ["im"]), (r"\bim\b", ["re"]),
    (r"(?<=[(=,] )-(?=[a-zA-Z(])", [""]), (r"(?<![\w)] )-(?=[a-zA-Z(])", [""]), (r"(?<=\()(?=[a-z]\w*[\[.(])", ["-"]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\btop\b", ["bottom"]), (r"\bbottom\b", ["top"]), (r"\bnear\b", ["far"]), (r"\bfar\b", ["near"]),
    (r"\brow\b", ["column"]), (r"\bfrom_parts\(([^,()]+), ([^,()]+)\)", [r"from_parts(\2, \1)"]),
    (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"\.inverse\(\)", [""]), (r"\.conjugate\(\)", [""]), (r"\.transpose\(\)", [""]), (r"\.normalize\(\)", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\.\.(\w+)", [r"1..\1", r"0..(\1 - 1)"]), (r"\bi\b", ["(i + 1)"]),
    (r"\bnormal\b", ["direction"]), (r"\bdirection\b", ["normal"]), (r"\bpi_over_2\b", ["pi"]), (r"\bhalf\b", ["one"]), (r"\bis_some\b", ["is_none"]),
    (r"translation\.(\w+)", [r"rotation.\1"]), (r"cast\(2_f64\)", ["cast(2.01_f64)"]), (r"\b2_f64\b", ["3_f64"]), (r"\b1_f64\b", ["2_f64"]), (r"\b0_f64\b", ["1_f64"]),
]
SKIP = re.compile(r"^\s*(//|#|use |pub use|impl|where|pub fn|pub const fn|fn |type |pub type|pub struct|struct|enum|pub enum|trait|pub trait|mod |pub mod|S: |A: |Self: |T: |ShapeConstraint|\}|\{|macro_rules|assert|debug_assert)")


def sites(text):
    lines = text.split("\n")
    out, test = [], False
    depth_test = 0
    for n, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            break
        if SKIP.match(l) or not l.strip():
            continue
        code = l.split(" // ")[0]
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if new != code:
                        out.append((n, new))
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ")) and ("=" in s or s.endswith(");")) and s.count("(") == s.count(")"):
            out.append((n, ""))
    return lines, out


class Worker:
    def __init__(self, k):
        self.k = k
        self.d = f"/tmp/mut/w{k}"
        if not os.path.exists(self.d):
            os.makedirs(self.d)
            subprocess.run(f"git clone -q /repo {self.d}/repo && mkdir {self.d}/verif && cp -a {ROOT}/bin {ROOT}/dim {ROOT}/harness {ROOT}/vendor {ROOT}/known-findings.txt {self.d}/verif/", shell=True, check=True)
        else:
            subprocess.run(f"cd {self.d}/repo && git fetch -q && git checkout -q -f origin/HEAD && for x in bin dim harness vendor; do rsync -a --checksum {ROOT}/$x {self.d}/verif/ 2>/dev/null || cp -a {ROOT}/$x {self.d}/verif/; done; cp {ROOT}/known-findings.txt {self.d}/verif/", shell=True, check=True)
        subprocess.run(f"sed -i 's|\"/repo/crates|\"{self.d}/repo/crates|' {self.d}/verif/harness/*/Cargo.toml", shell=True, check=True)
        self.env = dict(os.environ, VERIF_REPO=f"{self.d}/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", CARGO_BUILD_JOBS="4", CARGO_TARGET_DIR=f"{self.d}/verif/target")

    def build(self):
        for p in ("hnum", "htrig", "hcore", "hxform"):
            subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--bins"], cwd=f"{self.d}/verif/harness/{p}", env=self.env, check=True)

    def check(self, c):
        try:
            r = subprocess.run([f"{self.d}/verif/bin/check", c], env=self.env, capture_output=True, text=True, timeout=700)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            return 124, "time-out"

    def run(self, f, text, lines, n, new):
        p = f"{self.d}/repo/{f}"
        l2 = list(lines)
        l2[n] = new
        open(p, "w").write("\n".join(l2))
        try:
            r0 = subprocess.run(["rustc", "--version"], capture_output=True)
            for c in CHECKS[f].split():
                rc, out = self.check(c)
                if rc == 1:
                    v = [x for x in out.split("\n") if x.startswith("FAIL")]
                    return "killed", c, (v or [""])[0][:300]
                if rc != 0:
                    if "error" in out or "does not build" in out:
                        return "nocompile", c, out[:200]
                    return "noverdict", c, out[-300:]
            return "SURVIVED", "", ""
        finally:
            open(p, "w").write(text)


def trybugs(ids):
    """mutate.py bugs [ID...]: the planted bugs against the check of their property."""
    w = Worker(6)
    for b in ids or sorted(os.listdir(f"{ROOT}/seeded")):
        prop = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))["property"]
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)
        subprocess.run(["git", "apply", f"{ROOT}/seeded/{b}/patch.diff"], cwd=f"{w.d}/repo", check=True)
        t = time.time()
        rc, out = w.check(prop)
        v = [x for x in out.split("\n") if x.startswith("FAIL")] or [out[-300:]]
        print(b, prop, {0: "MISSED", 1: "caught"}.get(rc, rc), round(time.time() - t, 1), v[0][:200], flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)


def tryguards(path, ids):
    """mutate.py guards FILE [NAME...]: statements put at the start of functions. FILE defines
    G = [(name, property, file, signature, n, statement)]: after the n-th line that contains the signature."""
    import runpy
    w = Worker(6)
    for name, prop, f, sig, n, stmt in runpy.run_path(path)["G"]:
        if ids and name not in ids:
            continue
        f = {"v": CORE + "vector.rs", "p": CORE + "point.rs", "m": CORE + "matrix.rs", "q": CORE + "quaternion.rs", "c": CORE + "complex.rs", "e": CORE + "euler.rs", "u": CORE + "unit.rs", "n": CORE + "normed.rs", "num": "crates/cglinalg_numeric/src/lib.rs", "co": CORE + "coordinates.rs",
             "t": "crates/cglinalg_trigonometry/src/lib.rs"}.get(f, TR + f + ".rs")
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)
        p = f"{w.d}/repo/{f}"
        lines = open(p).read().split("\n")
        at = [i for i, l in enumerate(lines) if sig in l and not l.strip().startswith("//")]
        if len(at) <= n:
            print(name, prop, "NO SUCH PLACE", flush=True)
            continue
        i = at[n]
        while not lines[i].rstrip().endswith("{"):
            i += 1
        lines.insert(i + 1, "        " + stmt)
        open(p, "w").write("\n".join(lines))
        t = time.time()
        res = []
        for c in prop.split():
            rc, out = w.check(c)
            v = [x for x in out.split("\n") if x.startswith(("FAIL", "error"))] or [out[-200:]]
            res.append(f"{c} " + {0: "MISSED", 1: "caught"}.get(rc, str(rc)))
            if rc:
                break
        print(name, res, round(time.time() - t, 1), v[0][:230], flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)


def tryrefactors(path, ids):
    """mutate.py refactors FILE [CHECK...]: all rewritings of FILE at once; every check has to be quiet."""
    import runpy
    w = Worker(6)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)
    for name, f, old, new in runpy.run_path(path)["R"]:
        p = f"{w.d}/repo/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            print("NO SUCH PLACE", name)
            continue
        open(p, "w").write(s.replace(old, new))
    for c in ids or [f"P{i:02}" for i in range(1, 41)]:
        rc, out = w.check(c)
        v = [x for x in out.split("\n") if x.startswith(("FAIL", "error"))] or [""]
        print(c, {0: "quiet", 1: "ALARM"}.get(rc, f"no verdict {out[-1500:]}"), v[0][:300], flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=f"{w.d}/repo", check=True)


def degrade(text):
    """mutate.py OUT.jsonl --degrade: one argument of one function is rounded to single precision first."""
    lines = text.split("\n")
    d = lambda x: f"cglinalg_numeric::cast(cglinalg_numeric::cast::<S, f32>({x}))"
    out = []
    n = 0
    while n < len(lines):
        if "#[cfg(test)]" in lines[n]:
            break
        m = re.match(r"\s+(pub )?(const )?fn (\w+)", lines[n])
        if m and not lines[n].rstrip().endswith(";") and not re.search("abs_diff|relative|ulps|debug|^from_parts$", m.group(3)):
            i = n
            while i < len(lines) and not lines[i].rstrip().endswith("{"):
                i += 1
            sig = " ".join(lines[n:i + 1])
            args = sig[sig.index("(") + 1:].split(" -> ")[0]
            for p, ty in re.findall(r"(\w+): ((?:[^,()<>]|<(?:[^<>]|<[^<>]*>)*>|\([^()]*\))+)", args):
                ty = ty.strip()
                st = None
                if ty == "S" or ty == "Self::Output":
                    st = f"let {p}: S = {d(p)};"
                elif ty == "A":
                    st = f"let {p} = Radians({d(f'<A as Into<Radians<S>>>::into({p}).0')});"
                elif re.match(r"&Unit<", ty):
                    st = f"let {p} = &Unit::from_value_unchecked({p}.as_ref().map(|x: S| -> S {{ {d('x')} }}));"
                elif re.match(r"&(Vector|Point|Quaternion|Matrix|Self)", ty):
                    st = f"let {p} = &{p}.map(|x: S| -> S {{ {d('x')} }});"
                elif re.match(r"(Vector|Point|Quaternion|Matrix|Complex|Self)", ty):
                    st = f"let {p} = {p}.map(|x: S| -> S {{ {d('x')} }});"
                if st:
                    out.append((i, lines[i] + "\n        " + st))
            n = i
        n += 1
    return lines, out


def degrade_self(text):
    """mutate.py OUT.jsonl --degrade-self: a method works on its receiver rounded to single precision."""
    lines = text.split("\n")
    out = []
    n = 0
    while n < len(lines):
        if "#[cfg(test)]" in lines[n]:
            break
        m = re.match(r"(\s+)(pub )?(const )?fn (\w+)", lines[n])
        if m and not lines[n].rstrip().endswith(";") and not re.search("abs_diff|relative|ulps|debug|^fmt$|^as_|^is_|^len$|^shape$|^map$", m.group(4)):
            i = n
            while i < len(lines) and not lines[i].rstrip().endswith("{"):
                i += 1
            sig = " ".join(lines[n:i + 1])
            r = re.search(r"\((&?)self\b", sig)
            e = i + 1
            while e < len(lines) and lines[e] != m.group(1) + "}":
                e += 1
            if r and any(re.search(r"\bself\b", l) for l in lines[i + 1:e]):
                body = [re.sub(r"\bself\b", "this", l) for l in lines[i + 1:e]]
                new = lines[:i + 1] + body + lines[e:]
                out.append((new, i, lines[i] + f"\n        let this = {r.group(1)}self.map(|x: S| -> S {{ cglinalg_numeric::cast(cglinalg_numeric::cast::<S, f32>(x)) }});"))
            n = i
        n += 1
    return out


def main():
    if sys.argv[1] == "refactors":
        return tryrefactors(sys.argv[2], sys.argv[3:])
    if sys.argv[1] == "bugs":
        return trybugs(sys.argv[2:])
    if sys.argv[1] == "guards":
        return tryguards(sys.argv[2], sys.argv[3:])
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--approx", default="no")
    ap.add_argument("--degrade", action="store_true")
    ap.add_argument("--degrade-self", action="store_true")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            j = json.loads(l)
            done.add((j["file"], j["line"], j["new"]))
    jobs = []
    for f in CHECKS:
        if a.files and not any(x in f for x in a.files.split(",")):
            continue
        text = open(f"/repo/{f}").read()
        if a.degrade_self:
            if f.split("/")[-1] in ("vector.rs", "point.rs", "matrix.rs", "quaternion.rs", "complex.rs"):
                jobs += [(f, text, l, n, new) for l, n, new in degrade_self(text)]
            continue
        lines, s = degrade(text) if a.degrade else sites(text)
        s = [x for x in s if ("approx_cmp" in lines[x[0]]) <= (a.approx == "yes")]
        jobs += [(f, text, lines, n, new) for n, new in s]
    print(len(jobs), "candidate mutants")
    rng.shuffle(jobs)
    jobs = [j for j in jobs if (j[0], j[3] + 1, j[4]) not in done][:a.n]
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    cnt = {}

    def loop(k):
        w = Worker(k)
        w.build()
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            t = time.time()
            st, c, msg = w.run(*j)
            with lock:
                cnt[st] = cnt.get(st, 0) + 1
                with open(a.out, "a") as h:
                    h.write(json.dumps({"file": j[0], "line": j[3] + 1, "old": j[2][j[3]].strip(), "new": j[4], "status": st, "check": c, "msg": msg, "s": round(time.time() - t, 1)}) + "\n")
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(cnt)


main()
