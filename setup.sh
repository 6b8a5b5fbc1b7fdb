#!/bin/bash
# setup.sh: build the simulator from the committed files (offline)
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/build_sim.sh"
