#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
mkdir -p "$w/src" "$w/lib" || exit 2
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/" 2>/dev/null
cat >"$w/lib/Cargo.toml" <<T
[package]
name = "nlsn-delaunay"
version = "0.1.0"
edition = "2018"
[lib]
path = "$repo/src/lib.rs"
[dependencies]
float-cmp = "0.8.0"
nalgebra = "0.22"
num = "0.3.0"
T
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
nlsn-delaunay = { path = "lib" }
T
cd "$w" || exit 2
cargo build --offline >build.log 2>&1 || { tail -30 build.log; exit 2; }
timeout 120 ./target/debug/demo
