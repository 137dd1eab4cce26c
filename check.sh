#!/bin/bash
# check.sh <property> quick|thorough     explore
# check.sh <property> replay <file>      replay one case
# Builds the explorer against /repo's current working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset CARGO_TARGET_DIR RUSTFLAGS
# content of the code under test: file times are not trusted
export SUT_HASH=$(cd /repo && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
bin=mc
case "$1" in C34|C35|C36|C37|C38|C39) bin=appmc ;; esac
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
cd crates || exit 2
build() { # build <features>
    cargo build --release --offline -p $bin $1 >"$log" 2>&1 || return 1
    # C37 runs the command line program itself
    [ "$id" != C37 ] || cargo build --release --offline -p app --bin cli $2 >"$log" 2>&1
}
id=$1
if ! build "" "--features shim"; then
    # code that does not fit the shim is explored with the plain std collections
    if ! build "--no-default-features" ""; then
        tail -40 "$log" >&2
        echo "check.sh: build failed" >&2
        exit 3
    fi
fi
cd ..
"crates/target/release/$bin" "$@"
