#!/bin/sh
# run a check and show each violation in a few short lines: tools/short.sh CNN [seed] [width]
cd "$(dirname "$0")/.."
VERIF_SEED=${2:-1} timeout 1800 python3 lib/chk.py $1 quick 2>&1 | grep -v "^VIOLATION" | cut -c1-${3:-260}
