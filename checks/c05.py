"""C05: binary streams round-trip."""
import ref, gen
from ref import EPS, UNK, IDN
from drv import Case
from chk import Check
from c03 import vis

TYPES = ["tropical", "tropical", "log", "sfst", "foma", "ol", "olw"]
NAMES = ["", "x", "n\u00e4me", "a b\tc", "\u20ac" * 30, "L" * 300, "HFST", "type", "w" * 4000, "line\nbreak", "{\"json\":1}"]
KEYS = ["name", "lang", "formulaic-definition", "k\u00f6y", "a b", "x" * 100, "name2"]

class C(Check):
    id = "C05"
    quick = (200, 40)
    thorough = (2000, 60)
    rule = ("Sequences of 1-6 random transducers (empty languages, epsilons, wildcards, weights, flag diacritics, alphabets with unused and odd symbols) with random names and properties, written to one stream in one format "
            "and read back two ways; number, order, end of stream, type, name, properties, alphabet and exact weighted relation are compared. Also native (headerless) format, writing to a closed stream, type mismatch and missing files. "
            "Non-trivial: at least one transducer accepts something.")

    def fixed(self):
        c = Case()
        f = ref.Fst(2)
        f.add(0, 1, "\n", "\n")
        f.fin[1] = 0.0
        c.fst("t0", "foma", f)
        it = [c.cmd("dump", "t0"), c.cmd("meta", "t0")]
        w = c.cmd("write", "f.hfst", "1", "t0")
        c.data.update(ty="foma", probe=c.cmd("read", "f.hfst", "u"), items=[it], write=w)
        return [c]

    def gen(self, rng, k, rep):
        c = Case()
        ty = rng.choice(TYPES)
        D = c.data
        D["ty"] = ty
        D["items"] = []
        n = rng.choice([1, 1, 2, 3, 4, 6])
        native = rng.random() < 0.12 and ty not in ("ol", "olw")
        D["native"] = native
        if native and ty in ("foma", "sfst", "log"):
            n = 1
        regs = []
        for j in range(n):
            syms = rng.choice(gen.POOLS + [["a", "b:", "0", "@"], ["@0@", "%", "\\"], ["\u0915\u093f", "\U0001F600", "<b>"], ["\t", "\n", "\"", "'"], [chr(0x100 + i) for i in range(60)], ["a" * 50, "b" * 200]])
            if native and ty == "foma":
                syms = ["a", "b"]
            if ty == "foma" and "\n" in syms:
                syms = ["\t", "\"", "'"]   # known finding, see the probe
            flags = ["@P.A.x@", "@R.A.x@", "@U.B.y@", "@D.B@", "@C.A@"] if rng.random() < 0.15 and not native else ()
            w = ty in ("tropical", "log", "olw") and rng.random() < 0.8
            f = gen.rand_fst(rng, syms=syms, weighted=w, wild=rng.choice([0, 0, 0.3]), flags=flags, n=rng.choice([1, 2, 3, 4, 6, 12]), eps=rng.choice([0, 0.3]), extra=0.4)
            if rng.random() < 0.1:
                f = gen.rand_lexicon(rng, syms, nwords=rng.randint(1, 60), maxlen=8, weighted=w)[0]
            if rng.random() < 0.05:
                f = ref.Fst(1)
            r = "t%d" % j
            c.fst(r, "tropical" if ty == "olw" and rng.random() < 0.5 else ty, f)
            if ty == "olw": c.cmd("convert", r, "olw")
            if rng.random() < 0.6:
                c.cmd("set_name", r, rng.choice(NAMES))
            for _ in range(rng.choice([0, 0, 1, 3])):
                c.cmd("set_property", r, rng.choice(KEYS), rng.choice(NAMES))
            D["items"].append([c.cmd("dump", r), c.cmd("meta", r)])
            regs.append(r)
        D["write"] = c.cmd("write", "f.hfst", "0" if native else "1", *regs)
        if rng.random() < 0.3:   # writing must not change them
            for j, r in enumerate(regs):
                D["items"][j].append(c.cmd("dump", r))
        D["read"] = c.cmd("read", "f.hfst", "u")
        D["back"] = [(c.cmd("dump", "u%d" % j), c.cmd("meta", "u%d" % j)) for j in range(n)]
        D["each"] = c.cmd("read_each", "f.hfst", "v") if not native else None
        # second generation
        D["again"] = None
        if rng.random() < 0.3 and not native:
            c.cmd("write", "g.hfst", "1", *["u%d" % j for j in range(n)])
            c.cmd("read", "g.hfst", "w")
            D["again"] = [c.cmd("dump", "w%d" % j) for j in range(n)]
        D["exc"] = []
        if rng.random() < 0.1:
            D["exc"].append((c.cmd("write_closed", "h.hfst", regs[0]), "StreamIsClosed"))
            D["exc"].append((c.cmd("read_missing"), "Stream"))
            other = rng.choice([t for t in ("tropical", "sfst", "foma", "olw") if t != ty])
            D["exc"].append((c.cmd("write_mixed", "i.hfst", other, regs[0]), "TransducerTypeMismatch"))
        return c

    def same(self, a, p, w, ty):
        U = ref.universe(a, p)
        x = ref.diff_pairs(ref.expand(a, U), ref.expand(p, U), weights=w, cap=4000)
        if not x and vis(a) != vis(p):
            x = ("alphabet", sorted(vis(a)), sorted(vis(p)))
        return x

    def judge(self, c, out, rep):
        d = c.data
        if "probe" in d:
            if out[d["probe"]].exc:
                rep.bad("probe: newline symbol in a foma file", out[d["probe"]].exc, c.text())
            return
        ty = d["ty"]
        w = ty in ("tropical", "log", "olw")
        tag = ty + (" native" if d["native"] else "")
        rep.inc("streams_" + tag)
        for k in ("write", "read"):
            if out[d[k]].exc:
                rep.bad("%s: exception [%s]" % (k, tag), out[d[k]].exc, c.text())
                return
        n = int(out[d["read"]].get("i")[0])
        if n != len(d["items"]) or out[d["read"]].get("y")[0] != ty:
            rep.bad("read: %s [%s]" % ("wrong number of transducers" if n != len(d["items"]) else "wrong type", tag), "%d instead of %d, type %r" % (n, len(d["items"]), out[d["read"]].get("y")), c.text())
            return
        if d["each"] is not None:
            r = out[d["each"]]
            rep.ok()
            if r.exc or int(r.get("i")[0]) != len(d["items"]) or "EndOfStream" not in r.get("x")[0]:
                rep.bad("end of stream [%s]" % tag, "%r %r" % (r.exc, r.lines), c.text())
                return
        nz = False
        for j, it in enumerate(d["items"]):
            a = out[it[0]].fst()
            ty2, _, p = out[d["back"][j][0]].dump()
            nz = nz or ref.has_pos_path(a)
            x = self.same(a, p, w, ty)
            if ty2 != ty:
                x = ("type", ty, ty2)
            if not x:
                m, m2 = out[it[1]], out[d["back"][j][1]]
                if not d["native"]:
                    q = {k[0]: k[1] for k in m.all("q")}
                    q2 = {k[0]: k[1] for k in m2.all("q")}
                    if m.get("m")[1] != m2.get("m")[1]:
                        x = ("name", m.get("m")[1], m2.get("m")[1])
                    elif any(q2.get(k) != v for k, v in q.items() if k not in ("type", "version")):
                        x = ("properties", q, q2)
            if not x and len(it) > 2:
                x = self.same(a, out[it[2]].fst(), w, ty)
                if x: x = ("written transducer changed",) + x[1:]
            if not x and d["again"]:
                x = self.same(a, out[d["again"][j]].fst(), w, ty)
            if x:
                rep.bad("round trip: %s [%s]" % (x[0] if isinstance(x[0], str) else "relation", tag), "transducer %d: %r\nwritten %r\nread %r" % (j, x, a, p), c.text())
                return
        rep.ok((ty, d["native"], "\n".join(c.out)) if nz else None)
        for i, e in d["exc"]:
            rep.ok()
            if not out[i].exc or e not in out[i].exc:
                rep.bad("expected exception %s" % e, "%s: %r" % (out[i].cmd, out[i].exc), c.text())
                return

CHECK = C()
