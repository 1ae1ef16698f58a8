#!/bin/bash
# Builds the harness and the binaries once, so that the checks have less to build.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$here/build" "$here/evidence"
cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/build" &&
cargo build --offline --bins --manifest-path /repo/Cargo.toml --target-dir "$here/build/bin"
