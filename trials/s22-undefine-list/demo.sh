#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cd "$D"
cat > s.xfst <<'P'
define A a ;
define B b ;
undefine A Nosuch B
regex B ;
print words
P
/repo/tools/src/parsers/hfst-xfst -q -F s.xfst > out 2>&1; cat out
[ "$(tail -n 1 out)" = "B" ]
