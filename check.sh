#!/bin/bash
# check.sh <property> [quick|thorough] [extra vrun flags]
# Builds the engine from /verif/engine if needed and decides one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
"$here/build.sh" || { echo "check.sh: engine build failed" >&2; exit 2; }
exec "$here/bin/vrun" -property "$prop" -tier "$tier" -verif "$here" -repo "${VERIF_REPO:-/repo}" "$@"
