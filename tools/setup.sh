#!/bin/bash
# builds the extractor and the replay harness
cd "$(dirname "$0")/.." && . tools/env.sh
CARGO_TARGET_DIR=$PWD/.target/vx cargo build --offline -q --manifest-path vx/Cargo.toml || exit 1
CARGO_TARGET_DIR=$PWD/.target/h cargo build --offline -q --manifest-path harness/Cargo.toml || exit 1
(cd kani && env -u RUSTUP_TOOLCHAIN cargo kani -Z function-contracts --target-dir ../.target/kani --only-codegen >/dev/null 2>&1) || true
