#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator with the code in /repo, then searches for violations.
V=$(dirname "$(readlink -f "$0")")
export VERIF_DIR="$V"
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! "$V/sim/build.sh" >"$log" 2>&1; then
  tail -60 "$log" >&2
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 2
fi
"$V/sim/target/x86_64-unknown-linux-gnu/release/dst" check --property "$1" --tier "${2:-quick}"
