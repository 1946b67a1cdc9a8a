#!/usr/bin/env python3
"""Writes harness/hcore/src/swizzles.rs."""
import itertools, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["//! Generated by tools/swizzles.py: every swizzle method, with the components its name lists."]
for ty, dims in (("Vector", (1, 2, 3, 4)), ("Point", (1, 2, 3))):
    for n in dims:
        L = "xyzw"[:n]
        out.append(f"pub fn {ty.lower()}{n}<S: Copy + PartialEq + std::fmt::Debug>(v: &crate::{ty}{n}<S>, a: [S; {n}]) -> Result<(), String> {{")
        for k in range(1, n + 1):
            for c in itertools.product(range(n), repeat=k):
                nm = "".join(L[i] for i in c)
                out.append(f"    crate::sw!(v.{nm}(), [{', '.join(f'a[{i}]' for i in c)}], \"{nm}\");")
        out.append("    Ok(())\n}")
open(f"{root}/harness/hcore/src/swizzles.rs", "w").write("\n".join(out) + "\n")
