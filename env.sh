# Sourced by everything that builds: the same toolchain settings as /opt/vp, own target folder.
. /opt/vp/env.sh
export VERIF_TARGET=${VERIF_TARGET:-/verif/target}
mkdir -p "$VERIF_TARGET"
