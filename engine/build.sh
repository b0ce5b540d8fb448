#!/bin/bash
# builds the harness crate against /repo's current tree: native replay binary and LLVM IR
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/.build/target"
export RUSTC_WRAPPER="$PWD/engine/wrap.sh"
export CARGO_INCREMENTAL=0
mkdir -p .build
cargo build --offline --manifest-path harness/Cargo.toml 2>&1
