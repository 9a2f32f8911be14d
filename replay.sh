#!/bin/bash
# replay.sh HARNESS debug|release FEATURES DRAWS: the contract on one recorded input, on /repo's code.
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/replay
case "$3" in *llvm*) export CLANG="$PWD/../machinery/clang_shim.sh";; esac
rel=; [ "$2" = release ] && rel=--release
cargo build --offline --quiet --bin native $rel ${3:+--features $3} || exit 2
exec "$CARGO_TARGET_DIR/$2/native" replay "$1" "$4"
