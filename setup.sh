#!/bin/bash
# builds the checker once; check.sh builds it again when its source changed
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/.build" "$here/evidence"
cd "$here/engine" && go build -o "$here/.build/symgo" .
