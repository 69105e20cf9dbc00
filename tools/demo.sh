#!/bin/bash
# compiles demo.rs against the library which was built in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 4
trap 'rm -rf "$T"' EXIT
D=$PWD/target/debug
# several builds of a dependency may lie there, only one fits to the library
ok=
for PL in $(ls -t "$D"/deps/libparking_lot-*.rlib); do
  for RA in $(ls -t "$D"/deps/librand-*.rlib); do
    if rustc --edition 2021 -Awarnings -L dependency="$D/deps" --extern nar20_1="$D/libnar20_1.rlib" --extern parking_lot="$PL" --extern rand="$RA" "$here/demo.rs" -o "$T/demo" 2>"$T/err"; then ok=1; break 2; fi
  done
done
[ -n "$ok" ] || { cat "$T/err"; exit 3; }
export REPO=$PWD
cd "$T" && timeout 200 "$T/demo"
