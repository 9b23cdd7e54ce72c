#!/bin/bash
# check.sh <ID>: builds the simulator from /repo's current tree and explores one property.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
log="$(mktemp)"
# only these need the pallets, so only these build them
feat=""; case "$1" in C01|C02) feat="--features chain" ;; esac
if ! bash "$here/sim/build.sh" $feat >"$log" 2>&1; then
  tail -60 "$log"; /bin/rm -f "$log"
  echo "HARNESS ERROR the simulator does not build against this tree"
  exit 2
fi
/bin/rm -f "$log"
exec "$here/sim/target/release/scen" run "$1"
