#!/bin/bash
# check.sh <property>: build the monitor from /repo's working tree and run it.
# exit 0 held / 1 violated (VIOLATION line) / anything else: no verdict
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
exec python3 "$here/tools/run.py" "$@"
