#!/bin/bash
# Interprets `small` as a program for a 32-bit big-endian machine.
cd "$(dirname "$0")" || exit 2
. ../env.sh
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
# what is looked for is what the library computes; undefined behaviour is not in question
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"
export RUSTFLAGS="-Zmir-opt-level=3 -Zinline-mir=yes -Zinline-mir-hint-threshold=500 -Zinline-mir-threshold=200"; export XDG_CACHE_HOME="$VERIF_TARGET/interpreter" CARGO_TARGET_DIR="$VERIF_TARGET/foreign"
unset CARGO_PROFILE_DEV_DEBUG RUSTC_WRAPPER
exec cargo miri run --release --offline --quiet --target powerpc-unknown-linux-gnu
