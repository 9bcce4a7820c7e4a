#!/bin/bash
# Builds the harness against the current /repo tree.
cd "$(dirname "$0")" || exit 2
. ../env.sh
CARGO_TARGET_DIR="$VERIF_TARGET/harness" cargo build --release --offline "$@"
