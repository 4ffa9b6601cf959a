"""C04: unknown and identity symbols. The algebra monitor of C01 on operands dense in wildcards and with different alphabets."""
import c01, ref, gen
from ref import EPS, UNK, IDN
from drv import Case

class C(c01.C):
    id = "C04"
    quick = (240, 60)
    thorough = (2000, 80)
    wild = 0.55
    rule = ("As C01, but nearly every operand contains unknown/identity arcs and the operands' alphabets differ (disjoint, overlapping, extra symbols that occur on no arc). Wildcards are written out over all symbols "
            "of the operands and the result plus two or three symbols no operand knows. Non-trivial: the reference result accepts something.")
    def fixed(self):
        out = []
        for ty in ("tropical", "sfst", "foma"):
            c = Case()
            u = ref.Fst(2); u.add(0, 1, UNK, UNK); u.fin[1] = 0.0
            c.fst("a", ty, u); c.fst("b", ty, u)
            k = c.cmd("compose", "a", "b")
            c.data.update(probe=c.cmd("dump", "a"), ty=ty, steps=[0])
            out.append(c)
        return out
    def judge(self, c, out, rep):
        if "probe" in c.data:
            U = ref.universe(fresh=3)
            p = ref.expand(out[c.data["probe"]].fst(), U)
            r = ref.str_rel(p, 1, 1)
            x, y = ((ref.FRESH + "0",), (ref.FRESH + "0",))
            rep.ok()
            if (x, y) not in r:
                rep.bad("probe: ?:? .o. ?:? has no identity pairs [%s]" % c.data["ty"], "composition of UNKNOWN:UNKNOWN with itself relates no symbol to itself", c.text())
            if ((x, (ref.FRESH + "1",))) not in r:
                rep.bad("probe: ?:? .o. ?:? lacks x:y [%s]" % c.data["ty"], "", c.text())
            return
        super().judge(c, out, rep)

CHECK = C()
