#!/bin/bash
# Build the engine, the native harness binary and the LLVM IR of /repo + harnesses.
# usage: build_ir.sh BUILD_DIR
set -e
B="$1"
HERE="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg verif_draws"
mkdir -p "$B"
LLVM=$(dirname "$(find "${RUSTUP_HOME:-/root/.rustup}"/toolchains/stable-*/lib/rustlib -name opt -type f | head -1)")
# engine and IR in parallel
( cd "$HERE/engine" && CARGO_TARGET_DIR="$B/engine" cargo build --release --offline >"$B/engine.log" 2>&1 ) &
EP=$!
# cargo trusts time stamps; the sources may have changed behind it
find "$B/native" -path '*fingerprint/quantmath-*' -name '*' -type f -delete 2>/dev/null || true
find "$B/native" -path '*fingerprint/vharness-*' -name '*' -type f -delete 2>/dev/null || true
find "$B/native" -name '*.lto.input.bc' -type f -delete 2>/dev/null || true
( cd "$HERE/harness" && CARGO_TARGET_DIR="$B/native" cargo rustc --offline -- --emit=llvm-ir,link -C save-temps >"$B/native.log" 2>&1 ) || { tail -40 "$B/native.log"; exit 3; }
BC=$(find "$B/native/debug/deps" -name '*.lto.input.bc' | head -1)
"$LLVM/opt" -passes='internalize,globaldce,function(lower-invoke,lower-atomic,mem2reg,instsimplify,dce),globaldce,strip-dead-prototypes' -strip-debug -internalize-public-api-list=main "$BC" -S -o "$B/m.ll" || exit 3
wait $EP || { tail -40 "$B/engine.log"; exit 3; }
