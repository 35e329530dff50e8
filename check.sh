#!/bin/bash
# usage: check.sh <property id> [engine flags]
# Rebuilds the engine if needed, then decides one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$here/.build/gosym"
stale=0
[ -x "$bin" ] || stale=1
if [ $stale = 0 ]; then for f in "$here"/engine/*.go; do [ "$f" -nt "$bin" ] && stale=1; done; fi
if [ $stale = 1 ]; then "$here/setup.sh" >&2 || { echo "CHECK-ERROR: engine build failed"; exit 2; }; fi
cd "$here"
exec "$bin" -prop "harness/$id" "$@"
