#!/bin/bash
# Regenerates the committed Cargo.lock of a harness crate: cargo cannot resolve the
# missing git dependency offline even with a patch, so the lock file is generated
# against a scratch copy of /repo in which the dependency is the path of the stand-in.
set -e
cd "$(dirname "$0")"
S=$(mktemp -d)
cp -a /repo "$S/repo"; rm -rf "$S/repo/.git" "$S/repo/target"
find "$S/repo" -name Cargo.toml -exec sed -i 's#git = "https://github.com/lambdaxymox/approx_cmp/"#path = "/verif/vendor/approx_cmp"#' {} +
for h in hnum htrig hcore hxform; do
  mkdir -p "$S/$h/src"; echo > "$S/$h/src/lib.rs"
  sed "s#/repo/#$S/repo/#; s#\"../pbt\"#\"/verif/harness/pbt\"#; s#\"../../vendor#\"/verif/vendor#; /^\[patch/,/^\$/d" "$h/Cargo.toml" > "$S/$h/Cargo.toml"
  (cd "$S/$h" && cargo generate-lockfile --offline)
  cp "$S/$h/Cargo.lock" "$h/Cargo.lock"
done
rm -rf "$S"
