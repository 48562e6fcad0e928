#!/bin/bash
# Builds the instrumented simulation of /repo's working tree into /verif/.work.
# Usage: build.sh [-selftest]
set -e
cd "$(dirname "$0")"
V=$(pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0
unset GOFLAGS
REPO=${VERIF_REPO:-/repo}
W=${VERIF_WORK:-$V/.work}
mkdir -p "$W"
(cd cmd/vsim && go build -o "$W/vsim" .)
"$W/vsim" build -verif "$V" -repo "$REPO" -work "$W/b" -out "$W/harness" "$@"
