#!/bin/bash
# Builds the engine, the symbolic IR and the native replayer from /repo's current tree.
# usage: build.sh <outdir>
set -e
cd "$(dirname "$0")"
V=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
B=${1:-$V/build}
mkdir -p "$B"
( cd engine && cargo build --release --offline --target-dir "$B/engine" >"$B/engine.log" 2>&1 ) || { echo "engine build failed"; tail -40 "$B/engine.log"; exit 2; } 
( cd harness/native && cargo build --offline --target-dir "$B/native" >"$B/native.log" 2>&1 ) & n=$!
rm -f "$B"/sym/release/deps/vh-*.ll
( cd harness/sym && touch ../src/main.rs && cargo rustc --offline --release --target-dir "$B/sym" -- --emit=llvm-ir -C link-args=-Wl,--unresolved-symbols=ignore-all >"$B/sym.log" 2>&1 ) || { echo "symbolic build failed"; tail -40 "$B/sym.log"; wait $n; exit 2; }
wait $n || { echo "native build failed"; tail -40 "$B/native.log"; exit 2; }
cp "$B"/sym/release/deps/vh-*.ll "$B/vh.ll"
cp "$B/native/debug/vhn" "$B/vhn"
cp --remove-destination "$B/engine/release/rsym" "$B/rsym"
