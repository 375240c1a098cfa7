#!/bin/bash
# replay.sh FILE: runs a counterexample file natively against /repo's current tree
set -e
D=$(cd "$(dirname "$0")" && pwd)
E=$(sed -n 's/^entry://p' "$1")
case $E in
hx_thread*)
  # interleavings and weak orderings: many schedules in the Miri interpreter
  CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target/miri" \
  MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-many-seeds=0..160 -Zmiri-preemption-rate=0.2" \
  exec cargo +nightly miri run --manifest-path "$D/harness/Cargo.toml" --offline -q --features native --bin replay -- "$E" "$(realpath "$1")" ;;
esac
"$D/build.sh" "$D/target" native-dev
exec "$D/target/native/debug/replay" "$E" "$1"
