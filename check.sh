#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra engine flags]
# Builds the symbolic executor from source and runs it for one property
# against the current working tree of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOEXPERIMENT
tmp=$(mktemp -d /tmp/vsym.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/vsym" .) || { echo "engine build failed"; exit 2; }
cd "$here" || exit 2
TMPDIR=$tmp "$tmp/vsym" -verif "$here" -prop "$prop" -tier "$tier" "$@"
