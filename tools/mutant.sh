#!/bin/bash
# mutant.sh ID [CHECK...]: confirms seeded/ID in a scratch copy of /repo (bind-mounted over /repo in a
# private mount namespace): builds, runs the stable tests, runs the demo with and without the patch,
# and then the named checks (default: the property's own).
# NOTEST=1 skips the stable tests.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID; [ -d "$S" ] || S=$V/trials/$ID
W=${MUTDIR:-/tmp/mut}/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$P}
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo" && git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 2; }
mkdir -p "$W/build" && cp -a "$V/build/asan" "$W/build/" 2>/dev/null
cp -a "$V/build/plain" "$W/build/" 2>/dev/null
mkdir -p "$W/demo"; for f in "$S"/*; do case $f in *.diff|*/meta.json) ;; *) cp -a "$f" "$W/demo/";; esac; done
(cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1); d0=$?
unshare -Urm bash -c "
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1; echo build=\$? >$W/res
if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; python3 - >>$W/res <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
st=b.get('stable') or b.get('passed') or b
m=[x for x in st if x not in t['passed']]
print('tests_missing=%d %s'%(len(m),m[:4]))
Q
fi
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo demo_patched=\$? >>$W/res
for c in $CHECKS; do VERIF_BUILD=$W/build VERIF_EVID=$W/evid VERIF_SEED=1 timeout 900 python3 $V/lib/chk.py \$c quick >$W/\$c.log 2>&1; echo check_\$c=\$? \$(grep -m2 'key:' $W/\$c.log | tr '\n' ' ') >>$W/res; done
"
echo "== $ID [$P] demo_clean=$d0 $(tr '\n' '|' <$W/res)"
[ -n "$KEEP" ] || rm -rf "$W"
