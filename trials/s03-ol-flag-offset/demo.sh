#!/bin/bash
PYTHONPATH=/repo/python python3 -W ignore - <<'P'
import hfst, sys
b = hfst.HfstBasicTransducer()
F = '@P.F.A@'
b.add_transition(0, 1, F, F, 0)
b.add_transition(0, 2, F, F, 0)
b.add_transition(0, 3, 'x', 'y', 0)
b.add_transition(1, 3, 'a', 'a', 0)
b.add_transition(2, 3, 'b', 'b', 0)
b.set_final_weight(3, 0)
t = hfst.HfstTransducer(b)
u = t.copy()
u.convert(hfst.ImplementationType.HFST_OLW_TYPE)
ok = [r[0] for r in u.lookup('x')] == ['y']
u.convert(hfst.ImplementationType.TROPICAL_OPENFST_TYPE)
sys.exit(0 if ok and t.compare(u) else 1)
P
