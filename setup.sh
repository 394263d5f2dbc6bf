#!/bin/bash
# Tests the reference code on published vectors and fills the build cache.
set -e
cd "$(dirname "$0")/mon"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
go test ./ref
tmp=$(mktemp -d /tmp/monsetup.XXXXXX)
trap 'rm -r -f "$tmp"' EXIT
go build -o "$tmp/mon" .
CGO_ENABLED=1 go build -race -o "$tmp/monrace" .
