#!/bin/bash
# Builds the MIR driver and warms the build folders; every check also does this by itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
CARGO_TARGET_DIR=$PWD/build/mirdump cargo +nightly build --offline --manifest-path mirdump/Cargo.toml || exit 1
(cd harness && CARGO_TARGET_DIR=$OLDPWD/build/harness RUSTFLAGS=-Awarnings cargo build --offline --bins) || true
exit 0
