#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads OLD/NEW pairs from stdin blocks and writes seeded/ID/patch.diff.
stdin: <<<<\nold\n====\nnew\n>>>>  (repeated; '@@ file' switches file)"""
import sys, os, re, subprocess, json
ID, PROP, NEEDS, WHAT = sys.argv[1:5]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/wt/r"
subprocess.check_call(["git", "-C", R, "fetch", "-q"]); subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"])
f = None
txt = sys.stdin.read()
for part in re.split(r"(?m)^@@ ", txt)[1:]:
    f, rest = part.split("\n", 1)
    p = os.path.join(R, f.strip())
    s = open(p).read()
    for old, new in re.findall(r"(?s)<<<<\n(.*?)\n====\n(.*?)\n?>>>>", rest):
        if s.count(old) != 1:
            sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
        s = s.replace(old, new)
    open(p, "w").write(s)
d = subprocess.check_output(["git", "-C", R, "diff"], text=True)
if not d: sys.exit("empty")
S = os.path.join(V, "seeded", ID)
os.makedirs(S, exist_ok=True)
open(S + "/patch.diff", "w").write(d)
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=WHAT), open(S + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
