#!/bin/bash
# Builds `small` (the library without optional features) for this machine, and once more for the
# interpreter, which runs it as a 32-bit big-endian program.
cd "$(dirname "$0")" || exit 2
. ../env.sh
set -e
CARGO_TARGET_DIR="$VERIF_TARGET/small" cargo build --release --offline
bash foreign.sh </dev/null
