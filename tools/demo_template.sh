#!/bin/bash
# run from the repository root after its build; compiles demo.rs against the built library
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
D=${CARGO_TARGET_DIR:-$PWD/target}/debug/deps
crates="@CRATES@"
try() { # each crate may have been built more than once: take the combination that fits
  if [ $# -eq 0 ] || [ "$1" = -- ]; then shift; rustc --edition 2021 --cap-lints allow -L dependency=$D "$@" -o "$t/demo" "$d/demo.rs" 2> "$t/err"; return; fi
  local c=$1 l; shift
  for l in $(ls -t $D/lib$c-*.rlib); do try "$@" --extern $c=$l && return 0; done
  return 1
}
try nexo $crates -- || { cat "$t/err"; echo "demo does not compile"; exit 2; }
cd "$t" && timeout 250 ./demo
