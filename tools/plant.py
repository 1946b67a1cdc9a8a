#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/bugs/<id>.py and confirms it in a scratch copy.

usage: plant.py ID...   (or --all)
A bug file defines: property, needs, breaks, edits = [(file, old, new)], demo (Rust
source of main), crate ("core", "transform", "trig", "num" or "dim").
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run with cwd /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/approx_cmp" "$work/approx_cmp"
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$work/demo/src/main.rs"
cp "$here/Cargo.lock.demo" "$work/demo/Cargo.lock"
cat > "$work/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
approx_cmp = { path = "../approx_cmp" }
cglinalg_numeric = { path = "$repo/crates/cglinalg_numeric" }
cglinalg_trigonometry = { path = "$repo/crates/cglinalg_trigonometry" }
cglinalg_core = { path = "$repo/crates/cglinalg_core" }
cglinalg_transform = { path = "$repo/crates/cglinalg_transform" }
[patch."https://github.com/lambdaxymox/approx_cmp/"]
approx_cmp = { path = "../approx_cmp" }
[profile.dev]
debug = 0
TOML
cd "$work/demo" && CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline -q
'''
BAD = r"""
cp "$here/bad.rs" "$work/demo/src/main.rs"
# the mismatched program must be refused
if CARGO_TARGET_DIR="$work/target" timeout 280 cargo check --offline -q 2>/dev/null; then exit 1; else exit 0; fi
"""
DIMDEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run with cwd /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
sed "s|@REPO@|$PWD|" "$here/main.rs" > "$work/main.rs"
rustc --edition 2021 -Awarnings "$work/main.rs" -o "$work/demo" && "$work/demo"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def lock():
    """The lock file of a demo package: that of the hxform harness, renamed."""
    t = open(f"{root}/harness/hxform/Cargo.lock").read()
    parts = t.split("[[package]]")
    parts = [p for p in parts if 'name = "pbt"' not in p]
    return "[[package]]".join(parts).replace('"hxform"', '"demo"').replace(' "pbt",\n', '')


def plant(bid, scratch, demolock):
    b = runpy.run_path(f"{here}/bugs/{bid}.py")
    out = f"{root}/seeded/{bid}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    run("git checkout -q -- . && git clean -fdq", scratch)
    dim = b.get("crate") == "dim"
    open(f"{out}/main.rs", "w").write(b["demo"])
    fail = b.get("crate") == "compile_fail"
    open(f"{out}/demo.sh", "w").write(DIMDEMO if dim else DEMO.rstrip() + " || exit 1\n" + BAD if fail else DEMO)
    if b.get("release"):
        d = open(f"{out}/demo.sh").read().replace("debug = 0\n", "debug = 0\ndebug-assertions = false\n")
        open(f"{out}/demo.sh", "w").write(d)
    if fail:
        open(f"{out}/bad.rs", "w").write(b["bad"])
    if not dim:
        shutil.copytree(f"{root}/vendor/approx_cmp", f"{out}/approx_cmp")
        open(f"{out}/Cargo.lock.demo", "w").write(demolock)
    r0 = run(f"bash {out}/demo.sh", scratch)
    for f, old, new in b["edits"]:
        p = f"{scratch}/{f}"
        s = open(p).read()
        n = s.count(old)
        assert n == 1, f"{bid}: {n} matches of {old!r} in {f}"
        open(p, "w").write(s.replace(old, new))
    d = run("git diff", scratch).stdout
    open(f"{out}/patch.diff", "w").write(d)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(f"{out}/meta.json", "w"), indent=1)
    r1 = run(f"bash {out}/demo.sh", scratch)
    ok = r0.returncode == 0 and r1.returncode != 0 and "could not compile" not in r1.stderr and "error[" not in r1.stderr
    ts = "skipped"
    if os.environ.get("FULL"):
        # the repository's own tests, with the git dependency replaced
        run("sed -i 's|^git = .https://github.com/lambdaxymox/approx_cmp/.|path = \"%s/vendor/approx_cmp\"|' Cargo.toml crates/*/Cargo.toml" % root, scratch)
        t = run("CARGO_TARGET_DIR=/tmp/plant-target timeout 900 cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E '^(test .*FAILED|error)' ", scratch)
        ts = t.stdout.strip()
    run("git checkout -q -- .", scratch)
    print(f"{bid}: demo unpatched {r0.returncode}, patched {r1.returncode} {'ok' if ok else 'BAD'}; tests: {ts!r}")
    if not ok:
        print(r0.stderr[-1500:], r1.stderr[-1500:])
    return ok


def main():
    ids = sys.argv[1:]
    if ids == ["--all"]:
        ids = sorted(f[:-3] for f in os.listdir(f"{here}/bugs") if f.endswith(".py"))
    scratch = tempfile.mkdtemp(prefix="plant-")
    run(f"git clone -q /repo {scratch}/r", "/")
    lk = lock()
    try:
        bad = [i for i in ids if not plant(i, f"{scratch}/r", lk)]
    finally:
        shutil.rmtree(scratch)
    sys.exit(1 if bad else 0)


main()
