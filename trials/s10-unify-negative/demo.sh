#!/bin/bash
PYTHONPATH=/repo/python python3 -W ignore - <<'P'
import hfst, sys
b = hfst.HfstBasicTransducer()
path = ['@N.CASE.GEN@', '@U.CASE.NOM@', 'x', '@R.CASE.NOM@']
for i, s in enumerate(path):
    b.add_transition(i, i + 1, s, s, 0)
b.set_final_weight(4, 0)
t = hfst.HfstTransducer(b)
bad = 0
r = t.extract_paths(obey_flags='True', filter_flags='True')
print(r)
if list(r) != ['x']: bad = 1
t.convert(hfst.ImplementationType.HFST_OLW_TYPE)
r = t.lookup('x')
print(r)
if len(r) != 1: bad = 1
sys.exit(bad)
P
