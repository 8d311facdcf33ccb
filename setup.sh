#!/bin/bash
# Builds every monitor crate once. The checks rebuild what they need on their own.
cd "$(dirname "$0")" || exit 1
export RUSTFLAGS=--cap-lints=warn
for c in vec2d cart core log; do
    [ -d "mon/$c" ] || continue
    (cd "mon/$c" && CARGO_TARGET_DIR=../../build cargo build --release --offline) || exit 1
done
