#!/bin/bash
# Builds the symbolic engine from source (cached) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on
export GOPATH=/opt/vp/gopath GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
bin=$here/.bin/gosym
mkdir -p "$here/.bin"
( flock 9; cd "$here/gosym" && GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' go build -o "$bin" . ) 9>"$here/.bin/lock" || exit 2
[ "$1" = build ] && exit 0
cd "$here" && exec "$bin" "$@"
