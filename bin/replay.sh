#!/bin/bash
# replay.sh FILE: rebuilds the simulator from /repo and replays one run.
# Exit 1: the recorded violation happens again; 0: the run is clean.
here="$(cd "$(dirname "$0")/.." && pwd)"
d=debug; a=
if grep -q '^profile release' "$1"; then d=release; a=--release; fi
bash "$here/bin/build.sh" $a >/dev/null 2>&1 || { echo "build failed"; exit 3; }
exec "${SIM_TARGET:-$here/target}/x86_64-unknown-linux-gnu/$d/sim" replay "$1"
