#!/bin/bash
# builds the engine
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence"
cd "$here/engine"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$here/build/engine" .
