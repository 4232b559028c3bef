#!/bin/bash
# Builds the simulator (both profiles).
here="$(cd "$(dirname "$0")/.." && pwd)"
bash "$here/bin/build.sh" & a=$!
bash "$here/bin/build.sh" --release & b=$!
wait $a && wait $b
