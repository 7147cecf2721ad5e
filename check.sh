#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds from /repo's working tree and
# explores. Exit 0: held; 1: VIOLATION line printed; 3: no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" MC_BUILD="${MC_BUILD:-$here/build}"
mkdir -p "$MC_BUILD"
exec 9>"$MC_BUILD/.lock"
flock 9
"$here/tools/build.sh" "$1" || exit 3
exec 9>&-
bin=mc
[ "$1" = C30 ] && bin=mcfix
exec "$MC_BUILD/target/release/$bin" "$1" --tier "${2:-quick}"
