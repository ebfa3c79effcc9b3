#!/bin/bash
# Warms the Go build cache (monitor, worker, race-detector worker). Checks build
# everything themselves; this only makes the first one faster.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.setup.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$scratch/" || exit 2
cd "$here/harness" || exit 2
go build -modfile="$scratch/go.mod" -o "$scratch/monitor" ./monitor &&
go build -modfile="$scratch/go.mod" -o "$scratch/worker" ./worker &&
go build -modfile="$scratch/go.mod" -race -o "$scratch/worker-race" ./worker
