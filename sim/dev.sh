#!/bin/bash
# dev.sh LO HI PROP...: runs seeds LO..HI of these properties with what is built, and sums up.
cd "$(dirname "$0")/.." || exit 2
. sim/env.sh
lo=$1 hi=$2
shift 2
for p in "$@"; do
  echo "== $p"
  $SIM_RUNNER run "$p" "$lo" "$hi" >"/tmp/$p.log" 2>&1
  grep -v '^seed' "/tmp/$p.log" | cut -c1-70 | sed 's/[0-9]\+/N/g' | sort | uniq -c | sort -rn | head -20
done
