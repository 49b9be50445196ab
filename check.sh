#!/bin/bash
# usage: check.sh <property id>   (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
V=$(pwd)
mkdir -p "$V/.build" "$V/evidence"
kind=$(python3 -c 'import json,sys; print(json.load(open("tools/checks.json")).get(sys.argv[1], {}).get("kind", "symx"))' "$1")
symx() {
  export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/.build/symx"
  export RUSTFLAGS= CARGO_INCREMENTAL=0
  if ! (cd symx && cargo build --release --offline) >"$V/.build/symx.log" 2>&1; then
    tail -40 "$V/.build/symx.log"
    echo "ERROR $1: the harness does not build against /repo"
    return 2
  fi
  "$CARGO_TARGET_DIR/release/symx" check "$1" "$V"
}
case $kind in
symx) symx "$1" ;;
kani) python3 kani/run.py "$1" "$V" ;;
both)
  (symx "$1"); a=$?
  MERGE=1 python3 kani/run.py "$1" "$V"; b=$?
  if [ $a = 1 ] || [ $b = 1 ]; then exit 1; fi
  if [ $a = 2 ] && [ $b = 2 ]; then exit 2; fi
  exit 0 ;;
esac
