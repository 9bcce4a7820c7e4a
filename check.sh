#!/bin/bash
# bash check.sh PROPERTY: builds the harness (and, for the daemon and CLI properties, the
# real binaries) from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh || exit 2
build_all() {
    bash harness/build.sh >"$VERIF_TARGET/harness.log" 2>&1 || { tail -n 40 "$VERIF_TARGET/harness.log" >&2; return 1; }
    case "$1" in
    C18|C19|C2[0-5]|all)
        bash daemon/build.sh >"$VERIF_TARGET/daemon.log" 2>&1 || { tail -n 40 "$VERIF_TARGET/daemon.log" >&2; return 1; } ;;
    esac
    case "$1" in
    C29|all)
        # one check's build is no reason to fail the common one
        bash small/build.sh >"$VERIF_TARGET/small.log" 2>&1 || [ "$1" = all ] || { tail -n 40 "$VERIF_TARGET/small.log" >&2; return 1; } ;;
    esac
}
build_all "$1" || { echo "HARNESS-ERROR: build failed" >&2; exit 2; }
[ "$1" = all ] && exit 0
# on a terminal, tables would be drawn as wide as it is
if [ "$1" = C28 ] && [ -t 1 ]; then
    "$VERIF_TARGET/harness/release/vh" check "$1" | cat
    exit "${PIPESTATUS[0]}"
fi
exec "$VERIF_TARGET/harness/release/vh" check "$1"
