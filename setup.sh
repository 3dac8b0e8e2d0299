#!/bin/bash
# Warms the build cache; every check builds the engine by itself as well.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
cd "$here/engine" && go build -o /dev/null .
