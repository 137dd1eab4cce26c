#!/bin/bash
# Builds the program of the repository in the current directory and runs demo.py on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$w/" || exit 2
for f in README.md LICENSE; do cp "$repo/$f" "$w/" 2>/dev/null; done
cd "$w" || exit 2
cargo build --offline --bins >build.log 2>&1 || { tail -30 build.log; exit 2; }
mkdir scratch && cd scratch || exit 2
BIN=$w/target/debug/nlsn-delaunay timeout 120 python3 "$here/demo.py"
