#!/bin/bash
# check.sh PROPERTY [monitor flags]: builds the monitor of PROPERTY against /repo's working tree and runs it.
# Exit 0: held. Exit 1 + VIOLATION line: violated. Anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
. /opt/vp/env.sh
line=$(grep -E "^$prop " "$here/areas.txt") || { echo "unknown property $prop" >&2; exit 2; }
set -- $line "$@"
area=$2; race=$3; shift 3
work=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
[ -n "${VERIF_REPO:-}" ] && sed -i "s|=> /repo$|=> $VERIF_REPO|" "$work/go.mod" # development: another copy of the repository
flags=(-buildvcs=false -modfile="$work/go.mod")
[ "$race" = race ] && flags+=(-race)
(cd "$here/harness" && CGO_ENABLED=1 go build "${flags[@]}" -o "$work/vmon" "./cmd/$area") || { echo "build failed" >&2; exit 3; }
"$work/vmon" -property "$prop" -root "$here" "$@"
rc=$?
exit $rc
