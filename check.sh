#!/bin/bash
# check.sh PROPERTY TIER: rebuild the code under check from /repo's working tree, then explore.
# Exit: 0 property held, 1 violation (with a VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
mc=mc; parts="mc cli"
[ "$1" = C22 ] && mc=tree && parts=tree
./build.sh $parts || { echo "check.sh: build failed" >&2; exit 2; }
exec "$MC_ROOT/mc/target/$mc/release/mc" check "$1" "$2"
