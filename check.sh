#!/bin/bash
# check.sh PROPERTY: builds what the property needs from /repo's current tree and searches.
cd "$(dirname "$0")" || exit 2
. sim/env.sh
case $1 in
  C*) pkgs=mdbook-aquascope ;;
  S*) pkgs=aquascope_serve ;;
  D*) pkgs=aquascope_front ;;
  E*) exec bash sim/web/check.sh "$1" ;;
  *) echo "unknown property $1" >&2; exit 2 ;;
esac
bash sim/build.sh $pkgs || exit 2
exec "$SIM_RUNNER" check "$1"
