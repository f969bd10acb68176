#!/bin/bash
# ./check.sh Cxx [stream:index]   decide one property on /repo's working tree
#   VERIF_SEED  seed of all random choices (1)
#   VERIF_TIER  quick or thorough
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT=$PWD
. ./env.sh
./build.sh "$1" >&2 || { echo "the build failed" >&2; exit 3; }
exec "$CARGO_TARGET_DIR/debug/mon" "$@"
