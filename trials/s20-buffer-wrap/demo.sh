#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cd "$D"
T=/repo/tools/src
printf 'ab\nab cd\n' | $T/hfst-strings2fst -j -f openfst-tropical 2>err | $T/hfst-fst2fst -w -o t.ol 2>>err || { cat err; exit 1; }
s=0
for pre in "" "." ".." "..." "...." "....." "......"; do
  { printf '%s\n' "$pre"; for i in $(seq 1 400); do printf 'ab ef ab cd ab cx\n'; done; } > in
  sed -E 's/ab cd/^AB CD\/AB CD$/g; s/\bab\b/^ab\/ab$/g; s/\b(ef|cx)\b/^\1\/*\1$/g; s/AB CD/ab cd/g' in > want
  $T/hfst-proc/hfst-apertium-proc t.ol < in > out 2>err || { echo "failed"; cat err; s=1; }
  cmp want out || s=1
done
exit $s
