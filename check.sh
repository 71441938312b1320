#!/bin/bash
# check.sh PROPERTY quick|thorough          decide a property on /repo's tree
# check.sh PROPERTY replay FILE             replay a reported counterexample
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
bin="$here/.build/symgo"
mkdir -p "$here/.build" "$here/evidence"
(cd "$here/engine" && go build -o "$bin" .) || { echo "ERROR: the engine does not build" >&2; exit 2; }
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if [ "$tier" = replay ]; then
  exec "$bin" -verif "$here" -prop "$prop" -replay "$3"
fi
exec "$bin" -verif "$here" -prop "$prop" -tier "$tier" -v ${VERIF_ARGS:-}
