#!/bin/bash
# replay.sh FILE: rebuild against /repo's working tree and re-execute a replay file. exit 1 if it fails again.
ROOT=$(cd "$(dirname "$0")" && pwd)
FILE=$(realpath "${1:?usage: replay.sh FILE}")
. "$ROOT/build_sim.sh" || exit 2
exec "$ROOT/sim/target/checked/chronosim" replay "$FILE"
