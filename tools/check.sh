#!/bin/bash
# Build the checker against /repo's working tree and run one property.
set -u
cd /verif || exit 2
. /verif/tools/build.sh || exit 2
export VERIF_DIR=/verif
T=880; [ "${VERIF_TIER:-quick}" = thorough ] && T=11000
exec timeout $T /verif/target/release/mc "$@"
