#!/bin/bash
# Builds the real sourisd and mouse from /repo's working tree, and the preloaded shim.
cd "$(dirname "$0")" || exit 2
. ../env.sh
set -e
if [ shim.c -nt "$VERIF_TARGET/shim.so" ]; then
    gcc -O2 -Wall -Wextra -fPIC -shared -o "$VERIF_TARGET/shim.so.$$" shim.c -ldl
    mv "$VERIF_TARGET/shim.so.$$" "$VERIF_TARGET/shim.so"
fi
# The development profile (assertions and overflow checks on), optimised a little: large values take seconds otherwise.
CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$VERIF_TARGET/repo" cargo build --manifest-path /repo/Cargo.toml -p sourisd -p mouse --offline
