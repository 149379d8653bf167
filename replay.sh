#!/bin/bash
# replay.sh FILE: reproduces a violation exactly, with the log of every system call. Builds first.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. sim/env.sh
case $(basename "$f") in E*) exec bash sim/web/check.sh replay "$f" ;; esac
bash sim/build.sh mdbook-aquascope aquascope_serve || exit 2
exec "$SIM_RUNNER" replay "$f"
