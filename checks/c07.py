"""C07: AT&T and prolog text formats round-trip."""
import ref, gen
from ref import EPS, UNK, IDN, SPECIAL
from drv import Case
from chk import Check

TYPES = ["tropical", "tropical", "sfst", "foma", "olw"]
W = ("tropical", "olw", "log")
ODD = [["a", "b", " "], ["\t", "a", " b"], ['"', "\\", "a"], ["\\\"", "\"\\", "\\\\"], ["a" * 99, "b" * 130, "c"], ["\u00e4" * 60, "\u20ac", "x"], ["0", "?", "%"],
       ["[", "]", ",", ")."], ["(", ")", "."], ["+Sg", "<b>", ":"], ["::", "%%", "-"], ["--", "#", "'"], ["\U0001F600", "\u0915\u093f", "1"], ["@P.A.x@", "@D.A@", "a"],
       ["a b c", "d  e", "  "], ["L" * 250, "M" * 300], ["12", "3.5", "0.0"], ["null", "network(x).", "arc("]]

BAD_ATT = ["0\t1\ta\n", "x\t1\ta\tb\n", "0\ty\ta\tb\n", "0\t-1\ta\tb\n", "abc\n", "0 1 2\n", "1.5\n", "99999999999\t1\ta\ta\n", "0\t0x1\ta\ta\n"]
BAD_PRO = ['arc(N, 0, 1, "a).\n', 'arc(M, 0, 1, "a").\n', 'arc(N, 0, 1, a).\n', 'arc(N, 0, "a").\n', 'arc(N, 0, 1, "a":"b").x\n', 'final(N).\n', 'final(M, 1).\n', 'symbol(N, a).\n', 'foo(N, 1).\n',
           'arc(N, x, 1, "a").\n', 'arc(N, 0, -1, "a").\n', 'arc(N, 0, 1, "a""b").\n', 'arc(N, 0, 1, "a":).\n', 'arc(N, 0, 1, "a", foo).\n', 'final(N, 1, x).\n', 'arc(N, 0, 1, "a"']

class C(Check):
    id = "C07"
    quick = (200, 60)
    thorough = (2000, 80)
    rule = ("Sequences of 1-4 random transducers whose symbols contain spaces, tabs, quotes, backslashes, commas, parentheses, digits, flag diacritics, and up to 300 bytes, written as AT&T or prolog text through FILEs and through streams, with and without weights, with usual and "
            "custom epsilon symbols, and read back; number and weighted relation (and for prolog name and alphabet) are compared exactly. Also malformed lines, which must raise the documented exception. Non-trivial: some transducer accepts something.")

    def fixed(self):
        out = []
        for s in ("%0", "%?"):
            c = Case()
            f = ref.Fst(2)
            f.add(0, 1, s, s)
            f.fin[1] = 0.0
            c.fst("t0", "tropical", f)
            c.cmd("prolog_write", "f.pl", "1", "t0")
            c.cmd("prolog_read", "f.pl", "tropical", "u")
            c.data.update(probe=(c.cmd("dump", "t0"), c.cmd("dump", "u0")), sym=s)
            out.append(c)
        return out

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        if rng.random() < 0.12:
            pro = rng.random() < 0.5
            pre = rng.randint(0, 2)
            if pro:
                good = ['arc(N, 0, 1, "a":"b", 0.5).\n', 'final(N, 1, 1.5).\n', 'symbol(N, "q").\n']
                t = "network(N).\n" + "".join(rng.choice(good) for _ in range(pre)) + rng.choice(BAD_PRO)
                if rng.random() < 0.3:
                    t = rng.choice(["", "netwrk(N).\n", "network(N)\n", "network(\n"]) + t[len("network(N).\n"):]
                D["lines"] = pre
            else:
                t = "".join(rng.choice(["0\t1\ta\tb\t0.5\n", "1\t0.25\n", "0\t1\tc\t@0@\n"]) for _ in range(pre)) + rng.choice(BAD_ATT)
            t += rng.choice(["", "0\t1\ta\ta\n"])
            c.cmd("putfile", "b.txt", t)
            D["bad"] = c.cmd("prolog_read" if pro else rng.choice(["att_read", "att_read_g"]), "b.txt", "tropical", "u", "@0@")
            D["pro"] = pro
            return c
        ty = rng.choice(TYPES)
        pro = D["pro"] = rng.random() < 0.4
        stream = D["stream"] = rng.random() < 0.35
        ww = D["w"] = rng.random() < 0.8
        D["ty"] = ty
        n = rng.choice([1, 1, 2, 3, 4])
        regs = []
        D["items"] = []
        eps = "@0@"
        if not pro and rng.random() < 0.2:
            eps = rng.choice(["<eps>", "0", "@_EPSILON_SYMBOL_@"])
        for j in range(n):
            syms = list(rng.choice(ODD + gen.POOLS))
            if eps in ("0",):
                syms = [s for s in syms if s != "0"] or ["a"]
            f = gen.rand_fst(rng, syms=syms, weighted=ty in W, wild=rng.choice([0, 0.3]), n=rng.choice([1, 2, 3, 5, 9]), eps=rng.choice([0, 0.3]), extra=0.3)
            if ty == "foma":
                f = ref.trim(f)
                if not f.fin: f = ref.pair("a", "b"); f.alpha |= {"a", "b"}
            if not f.fin:
                f.fin[0] = 0.0
            r = "t%d" % j
            c.fst(r, ty, f)
            nm = None
            if pro and rng.random() < 0.6:
                nm = rng.choice(["foo", "N", "x" * 150, "a b", "n\u00e4me", "x)", "1"])
                c.cmd("set_name", r, nm)
            D["items"].append((c.cmd("dump", r), nm))
            regs.append(r)
        fl = "1" if ww else "0"
        if stream:
            for r in regs:
                c.cmd("tograph", "g" + r, r)
        gs = ["g" + r for r in regs]
        if pro:
            D["wr"] = c.cmd("prolog_write_g" if stream else "prolog_write", "f", fl, *(gs if stream else regs))
            D["rd"] = c.cmd("prolog_read_g" if stream else "prolog_read", "f", "tropical", "u")
        else:
            D["wr"] = c.cmd("att_write_g" if stream else "att_write", "f", fl, *(gs if stream else regs))
            D["rd"] = c.cmd("att_read_g" if stream else "att_read", "f", "tropical", "u", eps)
        D["back"] = [c.cmd("gdump" if stream else "dump", "u%d" % j) for j in range(n)]
        return c

    def judge(self, c, out, rep):
        d = c.data
        if "probe" in d:
            a, b = out[d["probe"][0]].fst(), out[d["probe"][1]].fst()
            if ref.diff_pairs(a, b):
                rep.bad("probe: prolog symbol %s" % d["sym"], "written %r, read %r" % (a, b), c.text())
            return
        if "bad" in d:
            r = out[d["bad"]]
            rep.inc("malformed_" + ("prolog" if d["pro"] else "att"))
            rep.ok(("\n".join(c.out)))
            if d["pro"]:
                # the only transducer of the file is malformed: nothing may be read
                if r.exc or r.get("x") is None or "NotValidProlog" not in r.get("x")[0] or int(r.get("i")[0]) != 0:
                    rep.bad("malformed prolog accepted", "%r %r" % (r.exc, r.lines), c.text())
            elif not r.exc or "NotValidAtt" not in r.exc:
                rep.bad("malformed AT&T accepted", "%r %r" % (r.exc, r.lines), c.text())
            return
        what = ("prolog" if d["pro"] else "att") + ("/stream" if d["stream"] else "")
        rep.inc(what)
        for k in ("wr", "rd"):
            if out[d[k]].exc:
                rep.bad("%s: exception in %s" % (what, "writing" if k == "wr" else "reading"), out[d[k]].exc, c.text())
                return
        n = int(out[d["rd"]].get("i")[0])
        if n != len(d["items"]):
            rep.bad("%s: wrong number of transducers" % what, "%d written, %d read; %r" % (len(d["items"]), n, out[d["rd"]].lines), c.text())
            return
        nz = False
        for j, (it, nm) in enumerate(d["items"]):
            a = out[it].fst()
            if out[d["back"][j]].exc:
                rep.bad("%s: read but unusable" % what, out[d["back"][j]].exc, c.text())
                return
            ty, name, b = out[d["back"][j]].dump()
            nz = nz or ref.has_pos_path(a)
            # wildcards are compared as symbols: AT&T text carries no alphabet
            x = ref.diff_pairs(a, b, weights=d["w"] and d["ty"] in W, tol=1e-4)
            if not x and not d["w"] and any(w for ar in b.arcs for _, _, w, _ in ar):
                x = ("weights appeared",)
            if not x and d["pro"]:
                s = set(a.alpha) - SPECIAL
                t = set(b.alpha) - SPECIAL
                if s != t:
                    x = ("alphabet", sorted(s), sorted(t))
                if name != (nm or "NO_NAME"):
                    x = ("name", nm, name)
            if x:
                rep.bad("%s: round trip differs" % what, "%r\nwritten %r\nread %r" % (x, a, b), c.text())
                return
        rep.ok("\n".join(c.out) if nz else None)

CHECK = C()
