#!/bin/bash
# Builds /verif/bin/vrun offline from /verif/engine.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine"
tmp="$here/bin/.vrun.$$"
go build -o "$tmp" ./cmd/vrun
mv -f "$tmp" "$here/bin/vrun"
