"""C06: damaged binary files."""
import ref, gen
from ref import EPS, UNK, IDN
from drv import Case
from chk import Check
from c03 import vis

TYPES = ["tropical", "log", "sfst", "foma", "ol", "olw"]

def split_dumps(res):
    out, cur = [], None
    for l in res.lines:
        if l.startswith("g\t"):
            cur = []
        elif l == "gend":
            out.append(cur)
        elif cur is not None:
            cur.append(l)
    return [ref.parse(x)[2] for x in out]

class C(Check):
    id = "C06"
    quick = (300, 60)
    thorough = (1600, 100)
    hang_is_violation = True
    cpu = 10
    rule = ("Files of 1-3 random transducers in each format, cut at a random, early or late byte, or with bytes of the HFST header changed, inserted or deleted; each is read completely, and what is read is converted and dumped, under ASan/UBSan. "
            "Allowed: an HFST exception, or transducers that can be used. Every transducer read from a cut file must be the one that was written at that place. Non-trivial: the file was really changed; distinct by damaged content.")

    def gen(self, rng, k, rep):
        c = Case()
        ty = rng.choice(TYPES)
        D = c.data
        D["ty"] = ty
        D["n"] = n = rng.choice([1, 1, 2, 3])
        D["pre"] = []
        regs = []
        for j in range(n):
            syms = rng.choice(gen.POOLS)
            f = gen.rand_fst(rng, syms=syms, weighted=ty in ("tropical", "log", "olw"), wild=rng.choice([0, 0.3]), n=rng.choice([1, 2, 4, 8]))
            c.fst("t%d" % j, ty, f)
            if rng.random() < 0.5:
                c.cmd("set_name", "t%d" % j, "name%d" % j)
            D["pre"].append(c.cmd("dump", "t%d" % j))
            regs.append("t%d" % j)
        c.cmd("write", "f", "1", *regs)
        D["dam"] = []
        for q in range(rng.randint(2, 8)):
            x = rng.random()
            if x < 0.5:
                k = rng.choice(["trunc", "trunc", "trunc_hdr", "trunc_start", "trunc-", "trunc_body"])
                pos = rng.randrange(64) if k[-1] == "-" else rng.randrange(1000000)
            else:
                k = rng.choice(["xor_hdr", "set_hdr", "ins_hdr", "del_hdr", "zap_hdr"])
                pos = rng.randrange(1000000)
            val = rng.choice([0, 1, 255, 128, 10, 65, rng.randrange(256)])
            if k.startswith("del"):
                val = rng.choice([1, 1, 2, 7])
            a = c.cmd("damage", "f", "g", k, pos, val)
            b = c.cmd("readall", "g")
            D["dam"].append((k, pos, val, a, b))
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        orig = None
        for k, pos, val, a, b in d["dam"]:
            r = out[b]
            sz = out[a].get("i")
            rep.inc("%s_%s" % (k.split("_")[0].rstrip("-"), ty))
            rep.ok((ty, k, sz, val, "\n".join(c.out[:4])))
            if r.exc:
                e = r.exc.split("\t")
                rep.inc("rejected_" + ty)
                if e[0] in ("std", "unknown", "int") :
                    rep.bad("%s: not an HFST exception [%s]" % (k.split("_")[0], ty), "%r" % r.exc, c.text())
                    return
            else:
                rep.inc("accepted_" + ty)
            if k.startswith("trunc"):
                # whatever was read before the cut is intact
                got = split_dumps(r)
                if orig is None:
                    orig = [out[x].fst() for x in d["pre"]]
                if len(got) > len(orig):
                    rep.bad("truncated file has extra transducers [%s]" % ty, "%d > %d" % (len(got), len(orig)), c.text())
                    return
                for A, P in zip(orig, got):
                    rep.inc("read_before_cut")
                    U = ref.universe(A, P)
                    x = ref.diff_pairs(ref.expand(A, U), ref.expand(P, U), weights=ty in ("tropical", "log", "olw"))
                    if x or vis(A) != vis(P):
                        rep.bad("truncated file accepted [%s]" % ty, "cut at %s: %r\n%r\n%r" % (sz, x, A, P), c.text())
                        return

CHECK = C()
