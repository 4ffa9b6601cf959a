#!/usr/bin/env python3
"""stable.py OUT.json: which of the baseline's stable tests did not pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def names(x):
    return set(x.get("passed") or x.get("stable") or x.get("tests") or [])
print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in b.items()}, {k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()})
print("not passing:", sorted(names(b) - names(o)))
