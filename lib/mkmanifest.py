#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    if p not in NA and os.path.exists("%s/checks/%s.py" % (V, p.lower())):
        m = importlib.import_module(p.lower())
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 lib/chk.py %s quick" % p,
            thorough_cmd="VERIF_TIER=thorough python3 lib/chk.py %s thorough" % p,
            technique=getattr(m.CHECK, "technique", "ASan/UBSan-instrumented execution with an offline monitor of the event log against an executable reference model"),
            level="exploration",
            level_note=getattr(m.CHECK, "level_note", "Seeded random workloads and fixed probes; holds on everything executed, no claim beyond it.")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "The technique applies; no check was built in the time available.")))
man = dict(version=1, setup_cmd="python3 lib/build.py asan", hooks=dict(guard="HFST_VERIF", enable="not needed: no hooks in /repo; monitors observe the public API and process boundary", source_commits=[]),
           checks=checks, not_applicable=na)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
