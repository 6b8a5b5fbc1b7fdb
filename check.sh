#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's working tree and search.
# exit 0: nothing found; 1: violation (printed); 2: the check itself could not run.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
PROP=${1:?usage: check.sh PROPERTY [quick|thorough]}
[ $# -ge 2 ] && export VERIF_TIER=$2
. "$ROOT/build_sim.sh" || exit 2
exec "$ROOT/sim/target/checked/chronosim" check "$PROP"
