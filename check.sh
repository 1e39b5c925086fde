#!/bin/bash
# check.sh PROPERTY  - rebuilds the simulator against /repo and runs one check.
# Honours VERIF_SEED and VERIF_TIER. Exit: 0 held, 1 violation, other: error.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true VERIF_DIR="$here"
log="$here/target/build.log"
mkdir -p "$here/target" "$here/evidence"
if ! (cd "$here/sim" && cargo build --offline --locked) >"$log" 2>&1; then
  cat "$log" >&2
  echo "error: the simulator does not build against /repo" >&2
  exit 4
fi
[ "${1:-}" = "--build-only" ] && exit 0
exec "$here/target/debug/sim" check "$1"
