#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > $D/a.lexc <<'L'
LEXICON Root
cat Noun "weight: 1.5" ;
dog Noun "weight: 2" ;
cat Noun "weight: 4" ;
LEXICON Noun
s # "weight: 0.5" ;
L
/repo/tools/src/hfst-lexc -q -f openfst-tropical $D/a.lexc -o $D/a.hfst 2>/dev/null || /repo/tools/src/hfst-lexc-compiler -q -f openfst-tropical $D/a.lexc -o $D/a.hfst || exit 3
/repo/tools/src/hfst-fst2strings -w $D/a.hfst > $D/out || exit 3
cat $D/out
python3 - $D/out <<'P'
import sys
d = [l.rstrip("\n").split("\t") for l in open(sys.argv[1])]
d = dict((a, float(w)) for a, w in d)
sys.exit(0 if set(d) == {"cats", "dogs"} and abs(d["cats"] - 2) < 1e-3 else 1)
P
