#!/bin/bash
# Builds the simulator once and checks its own model.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
bash "$here/sim/build.sh" 2>&1 | tail -3
"$here/sim/target/release/scen" build
