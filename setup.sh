#!/bin/bash
# Builds the symbolic engine from the committed sources, offline.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build"
cd "$here/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
unset GOROOT
tmp="$here/.build/gosym.$$"
PATH=/usr/local/go/bin:$PATH go build -o "$tmp" .
mv -f "$tmp" "$here/.build/gosym"
