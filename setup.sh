#!/bin/bash
# builds the harness once, to fail early; every check rebuilds it from /repo's current tree
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build/symx" CARGO_INCREMENTAL=0
mkdir -p .build evidence
(cd symx && cargo build --release --offline) || exit 2
unset CARGO_INCREMENTAL
(cd kani && CARGO_TARGET_DIR="$OLDPWD/.build/kani" RUSTFLAGS="--cap-lints=warn" env -u RUSTUP_TOOLCHAIN cargo kani -Z unstable-options -Z stubbing --only-codegen) || exit 2
