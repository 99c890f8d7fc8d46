#!/bin/bash
# Builds the engine (offline) into a scratch directory and runs it on /repo's
# current working tree.  usage: run.sh -prop C01 -tier quick   |   run.sh -replay FILE
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
V=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
(cd "$V/engine" && go build -o "$T/engine" .) || { echo "ERROR: engine build failed" >&2; exit 2; }
export TMPDIR=$T
"$T/engine" -verif "$V" "$@"
