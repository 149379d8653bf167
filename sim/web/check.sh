#!/bin/bash
# check.sh PROPERTY | check.sh replay FILE: bundles the front end from /repo's current tree and searches. Run from /verif.
here=$(cd "$(dirname "$0")" && pwd)
export SIM_WEB=$(dirname "$(dirname "$here")")/.build/web.$$
trap 'rm -rf "$SIM_WEB"' EXIT
mkdir -p "$SIM_WEB"
node "$here/build.mjs" "$SIM_WEB" || exit 2
if [ "$1" = replay ]; then node "$here/sim.mjs" replay "$2"; else node "$here/sim.mjs" check "$1"; fi
