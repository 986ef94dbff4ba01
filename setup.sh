#!/bin/bash
# builds the extractor and the replay harness (offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
CARGO_TARGET_DIR=$PWD/.build/vx cargo build --offline -q --manifest-path extract/Cargo.toml
CARGO_TARGET_DIR=$PWD/.build/harness cargo build --offline -q --release --manifest-path harness/Cargo.toml
