#!/bin/bash
# Runs demo_test.go inside @PKG@ of the repository in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd -P)"
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=@CGO@ GOFLAGS=-mod=mod
W="$(mktemp -d /tmp/seeddemo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
cp "$repo/go.mod" "$W/t.mod"
sort -u "$repo/go.sum" "$here/lib/extra.sum" > "$W/t.sum"
{
  echo '{"Replace": {'
  if [ ! -e "$repo/internal/collections/set.go" ]; then
    for f in "$here"/lib/collections/*.go; do echo "\"$repo/internal/collections/$(basename "$f")\": \"$f\","; done
  fi
  echo "\"$repo/shim/project/shim.go\": \"$here/lib/project/shim.go\","
  echo "\"$repo/internal/zzmem/mem.go\": \"$here/lib/zzmem/mem.go\","
  echo "\"$repo/internal/zzlint/lint.go\": \"$here/lib/zzlint/lint.go\","
  echo "\"$repo/@PKG@/zz_seed_demo_test.go\": \"$here/demo_test.go\""
  echo '}}'
} > "$W/overlay.json"
cd "$repo" && timeout 280 go test @RACE@ -vet=off -count=1 -overlay "$W/overlay.json" -modfile "$W/t.mod" -run '^TestSeedDemo' ./@PKG@
