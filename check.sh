#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] — analyses /repo's current source for one property.
cd "$(dirname "$0")" || exit 2
V="$(pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
./build.sh "$T/checker" || { echo "the analyser did not build"; exit 2; }
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOENV=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export PATH="/opt/veriftools/go1.24.13/bin:$PATH"
"$T/checker" -prop "$1" -root "${REPO:-/repo}" -verif "$V" -tier "${2:-${VERIF_TIER:-quick}}"
