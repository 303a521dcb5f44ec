#!/bin/bash
# builds the harness + juno from /repo's working tree into $1 : vharness.bc and libvharness.so
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mkdir -p "$1"; cd "$1" && pwd)
cd "$D"
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"
# juno_axum is built in; should only it fail to build in here, the checks of juno go on without it
cargo rustc --release --offline --lib -- --emit=llvm-bc,link || { echo 'WITHOUT juno_axum'; cargo rustc --release --offline --lib --no-default-features -- --emit=llvm-bc,link; }
ls -la $T/release/deps/vharness.bc $T/release/libvharness.so
