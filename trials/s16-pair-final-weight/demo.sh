#!/bin/bash
PYTHONPATH=/repo/python python3 -W ignore - <<'P'
import hfst, sys
def net(w, fw):
    b = hfst.HfstBasicTransducer()
    b.add_transition(0, 1, 'a', 'a', w)
    b.set_final_weight(1, fw)
    return hfst.HfstTransducer(b)
lex = net(1, 0)
lex.compose_intersect((net(0, 2), net(0, 3)))
r = lex.extract_paths(output='dict')
print(r)
sys.exit(0 if list(r) == ['a'] and len(r['a']) == 1 and abs(r['a'][0][1] - 6) < 1e-3 else 1)
P
