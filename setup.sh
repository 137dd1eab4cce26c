#!/bin/bash
# Builds every explorer once; the checks rebuild what changed.
cd "$(dirname "$0")/crates" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset CARGO_TARGET_DIR RUSTFLAGS
export SUT_HASH=$(cd /repo && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
cargo build --release --offline -p mc &&
    cargo build --release --offline -p appmc &&
    exec cargo build --release --offline -p app --bin cli --features shim
