#!/bin/bash
# Decides one property: check.sh ID
# Builds the simulator against /repo's working tree, then searches with
# VERIF_SEED (default 1) at VERIF_TIER (quick or thorough).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?usage: check.sh ID}"
export VERIF_ROOT="$here"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT

# cargo judges the path dependency by modification times alone; make it look again
for d in "$here"/harness/target/release/.fingerprint/traffic-sim-*; do
    [ -d "$d" ] && rm -rf "$d"
done
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    echo "check.sh: the harness does not build" >&2
    exit 2
fi
# a run that eats memory without bound is to fail by itself
ulimit -v 20000000
"$here/harness/target/release/dst" check "$id"
code=$?
case $code in
    0 | 1) exit $code ;;
    *) exit 2 ;;
esac
