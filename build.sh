#!/bin/bash
# usage: build.sh OUT — builds checker/ with the newest installed Go that x/tools needs, offline.
set -e
cd "$(dirname "$0")/checker"
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.26.10 /opt/veriftools/go1.27.3; do
  if [ -x "$d/bin/go" ]; then GO="$d/bin/go"; break; fi
done
: "${GO:=go}"
unset GOROOT GOWORK
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off GOTELEMETRY=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
exec "$GO" build -trimpath -o "$1" .
