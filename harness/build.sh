#!/bin/bash
# Builds the harness against /repo's current tree: LLVM IR for the engine, a native binary for replay.
# usage: build.sh TARGET_DIR
set -e
cd "$(dirname "$0")"
T="$1"; mkdir -p "$T"
gcc -O1 -c symrt/symrt.c -o "$T/symrt.o"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T"
# rebuild by content, not by time stamps
H=$(find /repo/src /repo/Cargo.toml src stubs symrt build.sh Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$T/content" 2>/dev/null)" != "$H" ] || [ ! -e "$T/release/vh" ]; then
  rm -f "$T/content" "$T"/release/deps/vh-*.ll
  cargo clean --release --offline --locked -p rsasl -p vh >/dev/null 2>&1 || true
fi
cargo rustc --release --offline --locked -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C link-arg="$T/symrt.o"
echo "$H" > "$T/content"
