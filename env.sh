export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
