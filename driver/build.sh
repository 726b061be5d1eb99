#!/bin/bash
# Builds the MIR exporter with the installed nightly (rustc_private).
# usage: build.sh OUT_BINARY
set -e
here=$(cd "$(dirname "$0")" && pwd)
R=$(rustup run nightly rustc --print sysroot)
mkdir -p "$(dirname "$1")"
rustup run nightly rustc --edition 2021 -O -o "$1.tmp.$$" "$here/src/main.rs" -C link-arg=-Wl,-rpath,"$R/lib" -Awarnings
mv "$1.tmp.$$" "$1"
