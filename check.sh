#!/bin/bash
# usage: check.sh PROPERTY [engine flags]: builds the engine from /verif and runs it on /repo's current tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/build/engine"
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" | head -1)" ]; then
  mkdir -p "$here/build"
  (cd "$here/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
fi
. /opt/vp/env.sh
prop=$1; shift
exec "$bin" check -prop "$prop" "$@"
