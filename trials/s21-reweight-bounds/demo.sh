#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
T=/repo/tools/src
printf '0\t1\ta\tb\t1\n0\t1\ta\tc\t1\n0\t1\td\tb\t1\n1\t0\n' | $T/hfst-txt2fst -f openfst-tropical -o $D/in || exit 3
$T/hfst-reweight -q -a 5 -I a -O b -A $D/in -o $D/out || exit 3
$T/hfst-fst2txt $D/out | tee $D/txt
python3 - $D/txt <<'P'
import sys
r = {}
for l in open(sys.argv[1]):
    f = l.split()
    if len(f) > 3: r[f[2], f[3]] = float(f[4]) if len(f) > 4 else 0.0
sys.exit(0 if r == {("a", "b"): 6.0, ("a", "c"): 1.0, ("d", "b"): 1.0} else 1)
P
