#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER=$2
export ZKV_ROOT=$here
mkdir -p "$here/bin"
bin=$here/bin/zkverif
(cd "$here/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 2
exec "$bin" check "$1"
