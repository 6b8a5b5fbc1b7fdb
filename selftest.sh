#!/bin/bash
# selftest.sh [RUNS]: is one seed one exactly repeatable execution?
# Executes the same runs of every claimed property several times — one process from first to
# last, another process backwards in four interleaved parts, and the other build — and compares
# the event-log hash, number of steps and verdict of each run. exit 0: all the same.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
N=${1:-400}
. "$ROOT/build_sim.sh" || exit 2
T=$(mktemp -d) || exit 2
trap 'find "$T" -type f -delete; rmdir "$T"' EXIT
A="$ROOT/sim/target/checked/chronosim"; B="$ROOT/sim/target/release/chronosim"
bad=0
for p in $(grep -o 'check.sh C[0-9]* quick' "$ROOT/MANIFEST.json" | grep -o 'C[0-9]*' | sort -u); do
  for seed in 1 77; do
    "$A" logs $p quick $seed 0 1 $N | sort -n > "$T/a" &
    ( for k in 3 2 1 0; do "$A" logs $p quick $seed $k 4 $N; done ) | sort -n > "$T/b" &
    "$B" logs $p quick $seed 0 1 $N | sort -n > "$T/c" &
    wait
    n=$(wc -l < "$T/a")
    cmp -s "$T/a" "$T/b" || { bad=1; echo "$p seed $seed: differs between processes"; diff "$T/a" "$T/b" | head -4; }
    d=$(diff "$T/a" "$T/c" | grep -c '^<')
    echo "$p seed $seed: $n runs, $(sort -u -k2,2 "$T/a" | wc -l) different logs, $d differing in the release build"
  done
done
exit $bad
