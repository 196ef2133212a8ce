#!/bin/bash
# Builds the engine and, once, the harness (the checks rebuild what has changed).
set -e
cd "$(dirname "$0")"
mkdir -p work
CARGO_TARGET_DIR="$PWD/work/engine" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0 cargo build --release --offline --locked --manifest-path engine/Cargo.toml
harness/build.sh "$PWD/work/t"
