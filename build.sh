#!/bin/bash
# build.sh OUT TARGET...   TARGET: engine | ir | ir-release | native-dev | native-release
# Builds the symbolic executor, the LLVM IR of the harness crate (which links
# /repo's current sources), and the native replay binaries, into OUT.
set -e
cd "$(dirname "$0")"
OUT=$1; shift
mkdir -p "$OUT"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
BIN=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
for t in "$@"; do
case $t in
engine)
  CARGO_TARGET_DIR="$OUT/engine" cargo build --manifest-path engine/Cargo.toml --release --offline -q 2>"$OUT/engine.log" || { cat "$OUT/engine.log" >&2; exit 2; } ;;
ir|ir-release)
  # ir-release: as users build it, without debug assertions and overflow checks
  [ $t = ir ] && D=ir L=hx.ll C=on || D=ir-rel L=hx_rel.ll C=off
  CARGO_TARGET_DIR="$OUT/$D" \
  RUSTFLAGS="-C lto=fat -C embed-bitcode=yes -C codegen-units=1 -C save-temps -C opt-level=1 -C overflow-checks=$C -C debug-assertions=$C -C panic=unwind -C no-vectorize-loops -C no-vectorize-slp" \
  cargo rustc --manifest-path harness/Cargo.toml --offline -q --lib --crate-type cdylib -- --emit=llvm-bc 2>"$OUT/$D.log" || { cat "$OUT/$D.log" >&2; exit 2; }
  BC=$(ls -t "$OUT/$D"/debug/deps/hx.bc "$OUT/$D"/debug/deps/hx-*.bc 2>/dev/null | grep -v rcgu | head -1)
  ENT=$("$BIN/llvm-nm" --defined-only "$BC" 2>/dev/null | awk '{print $NF}' | grep '^hx_' | sort -u | paste -sd, )
  [ -n "$ENT" ] || ENT=$(grep -o 'hx_[a-z0-9_]* =' harness/src/lib.rs | sed 's/ =//' | sort -u | paste -sd,)
  "$BIN/opt" -passes='internalize,globaldce' --internalize-public-api-list="$ENT" "$BC" -S -o "$OUT/$L.tmp"
  mv "$OUT/$L.tmp" "$OUT/$L" ;;
native-dev)
  CARGO_TARGET_DIR="$OUT/native" cargo build --manifest-path harness/Cargo.toml --offline -q --features native --bin replay 2>"$OUT/nat.log" || { cat "$OUT/nat.log" >&2; exit 2; } ;;
native-release)
  CARGO_TARGET_DIR="$OUT/native" cargo build --manifest-path harness/Cargo.toml --offline -q --release --features native --bin replay 2>"$OUT/natr.log" || { cat "$OUT/natr.log" >&2; exit 2; } ;;
esac
done
