#!/bin/bash
# builds demo.rs against the juno crate of the current directory and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
juno = { path = "$R/juno" }
rand = "0.8"
serde = "1"
serde_json = "1"
[workspace]
X
cd "$T"
CARGO_TARGET_DIR=${DEMO_TARGET:-$T/target} cargo build --offline -q
${DEMO_TARGET:-$T/target}/debug/demo
