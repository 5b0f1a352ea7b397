#!/bin/bash
# ./run.sh check ID [--thorough] | replay FILE | list | build
# Builds the harness from /repo's current tree and runs it. Extra arguments go
# to bfcheck (--seed N, --cases N).
VERIF=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$VERIF/harness/target"
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export RUST_BACKTRACE=0 # resolving the symbols of a panic takes longer than most cases
cd "$VERIF/harness" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
(
  flock 9
  # cargo goes by modification times; a changed tree must be rebuilt even if
  # the times went backwards.
  STAMP="$CARGO_TARGET_DIR/src.stamp"
  NOW=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$NOW" != "$(cat "$STAMP" 2>/dev/null)" ]; then
    rm -f "$STAMP"
    cargo clean --offline --locked -p burn_fm_hooked -p burn_fm >/dev/null 2>&1
  fi
  cargo build --offline --locked --workspace >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build.log"; exit 2; }
  echo "$NOW" >"$STAMP"
  SHIM="$CARGO_TARGET_DIR/shim.so"
  if [ ! -e "$SHIM" ] || [ shim/shim.c -nt "$SHIM" ]; then
    gcc -shared -fPIC -O1 -o "$SHIM.new" shim/shim.c -ldl && mv "$SHIM.new" "$SHIM" || exit 2
  fi
) 9>"$CARGO_TARGET_DIR/build.lock" || { echo "ERROR: the harness does not build against /repo"; exit 2; }
[ "$1" = build ] && exit 0
cd "$VERIF" || exit 2
exec "$CARGO_TARGET_DIR/debug/bfcheck" "$@" --root "$VERIF"
