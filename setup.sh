#!/bin/bash
# Build the MIR dumper (offline, nightly with rustc-dev).
set -e
cd "$(dirname "$0")/driver"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
unset RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER RUSTFLAGS RUSTUP_TOOLCHAIN
cargo +nightly build --offline -q
