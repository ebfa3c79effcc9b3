#!/bin/bash
# usage: check.sh ID [quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
#        check.sh ID replay FILE
# Builds the worker from /repo's working tree and the monitor from /verif, runs
# the check, writes evidence/ID.json. Exit 0 held, 1 violation, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GORACE GOMAXPROCS
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.$id.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$scratch/" || exit 2
cd "$here/harness" || exit 2
build() { go build -modfile="$scratch/go.mod" "$@"; }
build -o "$scratch/monitor" ./monitor || { echo "error: monitor does not build" >&2; exit 2; }
build -o "$scratch/worker" ./worker || { echo "error: /repo does not build with the worker" >&2; exit 2; }
# the source files of /repo in this build; the constants in them steer the workload
repo=$(go list -modfile="$scratch/go.mod" -m -f '{{.Dir}}' github.com/aureleoules/btc)
go list -modfile="$scratch/go.mod" -deps -f '{{.Dir}}{{"\t"}}{{.Name}}{{"\t"}}{{.ImportPath}}{{range .GoFiles}}{{"\t"}}{{.}}{{end}}' ./worker |
  grep "^$repo[/	]" > "$scratch/sources"
"$scratch/monitor" -literals < "$scratch/sources" > "$scratch/hints" || : > "$scratch/hints"
racebin=
if [ "$("$scratch/monitor" -id "$id" -need-race 2>/dev/null)" = true ]; then
  build -race -o "$scratch/worker-race" ./worker || { echo "error: race build failed" >&2; exit 2; }
  racebin=$scratch/worker-race
fi
if [ "$id" = C26 ]; then # other platforms; one that cannot be built here is reported as not run
  echo 'package main; func main() {}' > "$scratch/empty.go"
  { if CGO_ENABLED=0 GOARCH=386 go build -o "$scratch/empty" "$scratch/empty.go" 2>/dev/null; then
      CGO_ENABLED=0 GOARCH=386 build -o "$scratch/worker-386" ./worker 2> "$scratch/386.log" || mv "$scratch/386.log" "$scratch/no386"
    fi; } &
  build -gcflags='all=-N -l -d=checkptr' -o "$scratch/worker-noopt" ./worker 2>/dev/null &
  CGO_ENABLED=0 build -tags purego,math_big_pure_go,osusergo,netgo -o "$scratch/worker-purego" ./worker 2>/dev/null &
  old=$(dirname "$GOROOT")/go1.23.12
  { [ -x "$old/bin/go" ] && GOROOT=$old PATH=$old/bin:$PATH build -o "$scratch/worker-old" ./worker 2>/dev/null; } &
  wait
fi
case $id in C17|C18|C27) ;; *) # a standard library with other environment variables, files, clocks
  mkdir -p "$scratch/forge"
  "$scratch/monitor" -forge "$scratch/forge" && build -overlay "$scratch/forge/overlay.json" -ldflags "-X testing.testBinary=1" -o "$scratch/worker-forge" ./worker 2>"$scratch/forge.log" ;;
esac
if [ "$id" = C17 ]; then # points to wait at before every statement of /repo
  mkdir -p "$scratch/pause"
  "$scratch/monitor" -pause "$scratch/pause" < "$scratch/sources" &&
    build -overlay "$scratch/pause/overlay.json" -o "$scratch/worker-pause" ./worker 2> "$scratch/pause.log" ||
    { echo "note: no build with points to wait at" >&2; head -5 "$scratch/pause.log" >&2; rm -f "$scratch/worker-pause"; }
fi
mkdir -p "$scratch/run"
if [ "$tier" = replay ]; then
  "$scratch/monitor" -id "$id" -worker "$scratch/worker" -race "$racebin" -scratch "$scratch/run" -replay "$3"
  exit
fi
"$scratch/monitor" -id "$id" -tier "$tier" -seed "$seed" -worker "$scratch/worker" -race "$racebin" \
  -scratch "$scratch/run" -evidence "$here/evidence" -known "$here/known_findings.txt" -hints "$scratch/hints"
