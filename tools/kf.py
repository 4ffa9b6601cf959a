#!/usr/bin/env python3
"""kf.py known PROP KEY WHAT | kf.py fixed PROP KEY COMMIT WHAT: append to known_findings.jsonl (by hand, never by a check)."""
import sys, json, subprocess
a = sys.argv[1:]
if a[0] == "fixed":
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", a[3]], text=True).strip()
    e = dict(property=a[1], status="fixed", key=a[2], what="fixed: property=%s %s %s" % (a[1], h, a[4]))
else:
    e = dict(property=a[1], status="known", key=a[2], what=a[3])
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps(e, separators=(",", ":")) + "\n")
