"""C10: flag diacritics."""
import ref, gen, re
from ref import EPS, UNK, IDN, INF
from drv import Case
from chk import Check
import c08

OPS = ["@P.%s.%s@", "@N.%s.%s@", "@R.%s.%s@", "@R.%s@", "@D.%s.%s@", "@D.%s@", "@C.%s@", "@U.%s.%s@", "@U.%s.%s@"]
W = ("tropical", "olw", "log")
DEF = re.compile(r"^@(?:[PNU]\.[^.@]+\.[^.@]+|[RD]\.[^.@]+(?:\.[^.@]+)?|C\.[^.@]+(?:\.[^.@]+)?)@$")

def flag(rng, feats, vals):
    o = rng.choice(OPS)
    return o % ((rng.choice(feats), rng.choice(vals)) if o.count("%s") == 2 else (rng.choice(feats),))

class C(Check):
    id = "C10"
    quick = (80, 30)
    thorough = (2000, 60)
    rule = ("Random transducers dense in P/N/R/D/C/U flag diacritics of several features and values (and negative settings, requirements without value, wildcards, weights), in every back end: eliminate_flags, eliminate_flag, extract_paths_fd with and without filtering, "
            "has_flag_diacritics, FdOperation::is_diacritic. The monitor runs every path's flags through its own flag automaton. Non-trivial: at least one path is dropped by a flag and one is kept.")

    def fst(self, rng, ty, cyc, fl):
        syms = rng.choice(gen.POOLS)
        f = gen.rand_fst(rng, syms=syms, weighted=ty in W, cyclic=cyc, flags=fl, n=rng.choice([2, 3, 4, 5, 6]), eps=0.15, wild=rng.choice([0, 0, 0.2]))
        # flags on paths that would otherwise have none
        for s in range(f.n):
            if rng.random() < 0.4 and f.arcs[s]:
                k = rng.randrange(len(f.arcs[s]))
                i, o, w, t = f.arcs[s][k]
                m = f.state()
                x = rng.choice(fl)
                f.arcs[s][k] = (x, x, 0.0, m)
                f.arcs[m].append((i, o, w, t))
                f.alpha.add(x)
        return f

    def programs(self, rng, ty, feats, vals):
        """A set of straight-line sequences of flag operations on few features, with a letter or two in between."""
        f = ref.Fst()
        f.fin = {}
        for _ in range(rng.randint(1, 6)):
            s = 0
            if rng.random() < 0.3 and f.n > 2:
                s = rng.randrange(f.n)
            fe = [rng.choice(feats)] if rng.random() < 0.7 else feats
            for _ in range(rng.randint(2, 7)):
                x = flag(rng, fe, vals) if rng.random() < 0.85 else rng.choice("abc")
                m = f.state()
                f.arcs[s].append((x, x, rng.choice([0.0, 0.5, 1.0]) if ty in W else 0.0, m))
                f.alpha.add(x)
                s = m
            f.fin[s] = rng.choice([0.0, 0.0, 1.0]) if ty in W else 0.0
        return f

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        if rng.random() < 0.05:
            D["kind"] = "is"
            D["q"] = []
            for _ in range(8):
                x = rng.random()
                if x < 0.5:
                    s = flag(rng, ["F", "Case", "\u00e4", "f1"], ["A", "b", "on", "1"])
                else:
                    s = "".join(rng.choice(["@", "P", "U", "R", "C", "D", "N", "X", ".", ".", "F", "A", "a"]) for _ in range(rng.randint(1, 9)))
                    if rng.random() < 0.5:
                        s = "@" + s + "@"
                    if s.count("@") > 2 or ".." in s or ".@" in s or "@." in s:
                        continue
                D["q"].append((s, c.cmd("isflag", s)))
            return c
        kind = D["kind"] = rng.choice(["elim", "elim", "elim1", "elim1", "paths", "paths", "has"])
        ty = D["ty"] = rng.choice(["tropical", "tropical", "sfst", "foma"] if kind.startswith("elim") else ["tropical", "sfst", "foma", "ol", "olw", "log"])
        feats = rng.choice([["F"], ["F", "G"], ["F", "FF"], ["CASE", "NUM"]])
        vals = rng.choice([["A"], ["A", "B"], ["A", "B", "AB"]])
        fl = list({flag(rng, feats, vals) for _ in range(rng.randint(1, 6))})
        cyc = kind != "paths" and rng.random() < 0.4
        if rng.random() < 0.3:
            f = self.programs(rng, ty, feats, vals)
        else:
            f = self.fst(rng, "sfst" if cyc and kind.startswith("elim") else ty, cyc, fl)  # determinizing a weighted cycle need not end
        if ty == "foma" or True:
            f = ref.trim(f)
            if not f.fin:
                return None
        if kind.startswith("elim") and (ref.flag_expand(f) is None):
            return None
        if ty == "foma" and kind.startswith("elim"):
            # libfoma (not in the repository) forgets negative settings and a requirement that nothing can satisfy
            fs = [ref.flag_parse(x) for x in f.symbols() if ref.flag_parse(x)]
            if any(o == "N" for o, _, _ in fs) or any(o == "R" and not any(p in "PUC" and e == g for p, e, _ in fs) for o, g, _ in fs):
                return None
        c.fst("t", ty, f)
        D["dump"] = c.cmd("dump", "t")
        D["has"] = c.cmd("has_flags", "t")
        if kind == "elim":
            D["r"] = c.cmd("eliminate_flags", "t")
            D["res"] = c.cmd("dump", "t")
            D["has2"] = c.cmd("has_flags", "t")
        elif kind == "elim1":
            D["feat"] = rng.choice(feats)
            D["r"] = c.cmd("eliminate_flag", "t", D["feat"])
            D["res"] = c.cmd("dump", "t")
        elif kind == "paths":
            D["filt"] = int(rng.random() < 0.5)
            D["lim"] = rng.choice([-1, -1, -1, 1, 3])
            D["r"] = c.cmd("paths_fd", "t", D["lim"], -1, D["filt"])
            D["res"] = c.cmd("dump", "t")
        return c

    def judge(self, c, out, rep):
        d = c.data
        if d["kind"] == "is":
            for s, i in d["q"]:
                rep.ok(("is", s))
                if out[i].bool() != bool(DEF.match(s)):
                    rep.bad("is_diacritic", "%r: %r" % (s, out[i].bool()), c.text())
            return
        ty, kind = d["ty"], d["kind"]
        f = out[d["dump"]].fst()
        w = ty in W
        def bad(k, m):
            rep.bad("%s [%s]" % (k, ty), "%s\ntransducer %r" % (m, f), c.text())
        flags = {x for x in f.symbols() if ref.flag_parse(x)}
        inalpha = {x for x in f.alpha if ref.flag_parse(x)} | flags
        b = out[d["has"]].bool()
        rep.ok()
        if (flags and not b) or (b and not inalpha):
            return bad("has_flag_diacritics", repr(b))
        if kind == "has":
            return
        r = out[d["r"]]
        plain = ref.flag_expand(f)
        E = plain if kind != "elim1" else ref.flag_expand(f, d["feat"])
        if kind.startswith("elim"):
            if kind == "elim1" and r.exc:
                rep.ok()
                # the feature is not there
                if not any(ref.flag_parse(x)[1] == d["feat"] for x in inalpha):
                    return
                return bad("eliminate_flag: exception", r.exc)
            if r.exc:
                return bad("eliminate: exception", r.exc)
            g = out[d["res"]].fst()
            un = ref.Fst(f.n)
            un.alpha, un.fin, un.arcs = f.alpha, f.fin, [[(EPS if i in flags else i, EPS if o in flags else o, x, t) for i, o, x, t in a] for a in f.arcs]
            cut = ref.diff_pairs(un, plain, weights=False, cap=600)
            rep.ok((ty, kind, repr(f)) if cut and ref.has_pos_path(plain) else None)
            rep.inc(kind + ("_cut" if cut else ""))
            left = {x for x in g.symbols() if ref.flag_parse(x) and (kind == "elim" or ref.flag_parse(x)[1] == d["feat"])}
            if left:
                return bad("eliminate: flags left", "%r" % left)
            if kind == "elim" and out[d["has2"]].bool():
                return bad("eliminate: has_flag_diacritics still true", "")
            # wildcards must stand for the same symbols: compare over a common concrete alphabet
            x = ref.diff_strs(self.conc(E, E, g), self.conc(g, E, g), 4, 6, weights=w) if kind == "elim" else None
            if kind == "elim1":
                # other flags stay: compare the relations that obey them
                A, B = ref.flag_expand(E), ref.flag_expand(g)
                if A is None or B is None:
                    return
                x = ref.diff_strs(self.conc(A, A, B), self.conc(B, A, B), 4, 6, weights=w)
            if x:
                return bad("%s: wrong relation" % kind, "%r\nresult %r" % (x, g))
            return
        # paths
        if r.exc:
            return bad("paths_fd: exception", r.exc)
        R, nr = c08.runs(f)
        if R is None:
            return
        ok = {}
        for p, ws in R.items():
            if ref.flags_valid([i for i, o in p]):
                q = tuple(x for x in p if not (d["filt"] and ref.flag_parse(x[0])))
                ok.setdefault(q, []).extend(ws)
        got = [(x, tuple((i or EPS, o or EPS) for i, o in p)) for x, p in r.paths()]
        got = [(x, tuple(y for y in p if y != (EPS, EPS))) for x, p in got]
        rep.ok((ty, kind, d["filt"], repr(f)) if len(ok) < len(R) and ok else None)
        rep.inc("paths" + ("_cut" if len(ok) < len(R) else ""))
        G = {p for x, p in got}
        for x, p in got:
            if p not in ok:
                return bad("paths_fd: path is not allowed by its flags or does not exist", "%r" % (p,))
            if w and not c08.near(x, ok[p]):
                return bad("paths_fd: weight", "%r %r instead of %r" % (p, x, ok[p]))
        if d["lim"] < 0:
            if G != set(ok):
                return bad("paths_fd: path missing", "%r" % sorted(set(ok) - G)[:3])
        else:
            if len(got) > d["lim"]:
                return bad("paths_fd: limit exceeded", "%d > %d" % (len(got), d["lim"]))
            if ok and not got:
                return bad("paths_fd: nothing found", "")
        if ref.diff_pairs(f, out[d["res"]].fst(), weights=w):
            return bad("operand changed", "")

    def conc(self, f, a, b):
        return ref.expand(f, ref.universe(a, b))

CHECK = C()
