#!/bin/bash
# Builds the simulator from /repo's current working tree: with 0, with a callback at every memory access;
# with 1, also with the library optimised; with neither, both.
cd "$(dirname "$0")" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${MZSIM_TARGET:-$PWD/target}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MZSIM_FAST
# never trust time stamps for the code under test
find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/mazth-*' -prune -exec rm -rf {} + 2>/dev/null
cargo build --offline --quiet || exit
[ "$1" = 0 ] || MZSIM_FAST=1 cargo build --offline --quiet --profile fast
