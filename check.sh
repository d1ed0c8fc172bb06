#!/bin/bash
# check.sh PROPERTY [quick|thorough]   rebuilds from /repo's working tree and runs the simulation
# check.sh --replay FILE               executes a replay file against /repo's working tree
# Exit 0: held; 1: VIOLATION; 2: error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
log="$here/out/build.log"
mkdir -p "$here/out" "$here/evidence"
export CARGO_NET_OFFLINE=true
if ! cargo build --offline --release >"$log" 2>&1; then
  echo "check.sh: the build failed:" >&2
  tail -n 40 "$log" >&2
  exit 2
fi
bin="$here/sim/target/release/halosim"
export HALOSIM_ROOT="$here"
if [ "$1" = "--replay" ]; then
  exec "$bin" replay "$2"
fi
exec "$bin" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
