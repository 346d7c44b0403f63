#!/bin/bash
# Builds the simulators once from the committed files (each check rebuilds what it needs from /repo anyway).
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
rc=0
for s in sim/scen_*.cpp; do
    g=$(basename "$s" .cpp); g=${g#scen_}
    bash sim/build.sh "$g" || rc=1
    if [ "$g" != circ ]; then bash sim/build.sh "$g" gcc || rc=1; fi
done
exit $rc
