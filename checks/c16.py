"""C16: compose-intersect against composing the lexicon with the intersection of the rules."""
import ref, gen
from ref import EPS, UNK, IDN, Fst
from drv import Case
from chk import Check

WB = "@#@"
FLAGS = ["@U.F.a@", "@D.F@", "@P.F.b@"]

class C(Check):
    id = "C16"
    quick = (400, 40)
    thorough = (3000, 60)
    rule = ("Random lexicons (epsilons, cycles, weights, wildcards, flag diacritics) and 0-4 random rules (nondeterministic or minimised, insertions, deletions, identity, word boundaries, differing alphabets), both directions, in each back end; "
            "the result is read back and compared, with weights, on all string pairs up to length 4 with the lexicon composed with the intersection of the rules in the reference algebra; the rules are read back before and after. "
            "Non-trivial: the reference result accepts something.")

    def rule_fst(self, rng, syms, weighted, wb, idn):
        n = rng.choice([1, 2, 2, 3])
        f = Fst(n)
        pairs = [(x, x) for x in syms]
        if idn:
            pairs.append((IDN, IDN))
        for _ in range(rng.choice([1, 2, 3])):
            a, b = rng.choice(syms + [EPS]), rng.choice(syms + [EPS])
            if (a, b) != (EPS, EPS):
                pairs.append((a, b))
        if wb:
            pairs.append(rng.choice([(WB, EPS), (WB, EPS), (WB, EPS), (WB, WB)]))
        dense = rng.choice([0.6, 0.9, 1.0])
        nondet = rng.random() < 0.3
        for s in range(n):
            for p in pairs:
                for _ in range(2 if nondet and rng.random() < 0.4 else 1):
                    if rng.random() < dense:
                        w = rng.choice([0.0, 0.0, 0.5, 1.0]) if weighted else 0.0
                        f.arcs[s].append((p[0], p[1], w, rng.randrange(n)))
            f.arcs[s] = list(dict.fromkeys(f.arcs[s]))
            if rng.random() < 0.75:
                f.fin[s] = rng.choice([0.0, 0.0, 0.5]) if weighted else 0.0
        if not f.fin:
            f.fin[rng.randrange(n)] = 0.0
        if wb:
            f.alpha.add(WB)
        return f

    def gen(self, rng, k, rep):
        c = Case()
        d = c.data
        d["ty"] = ty = rng.choice(["tropical"] * 5 + ["sfst"] * 2 + ["foma"] * 2)
        weighted = ty == "tropical" and rng.random() < 0.7
        syms = rng.choice(gen.POOLS)
        wild = rng.choice([0.0, 0.0, 0.2])
        fl = rng.sample(FLAGS, 2) if rng.random() < 0.25 else ()
        x = rng.random()
        if x < 0.4:
            L = gen.rand_lexicon(rng, syms, weighted=weighted)[0]
        else:
            L = gen.rand_fst(rng, syms=syms, weighted=weighted, wild=wild, eps=rng.choice([0.0, 0.2, 0.4]), flags=fl)
        L = ref.trim(L)
        d["inv"] = inv = rng.random() < 0.35
        d["wb"] = wb = rng.random() < 0.2
        c.fst("l", ty, L)
        n = rng.choice([0, 1, 1, 2, 2, 2, 3, 4])
        d["rules"] = []
        sy = list(syms)
        for i in range(n):
            sr = list(sy)
            if rng.random() < 0.25:
                sr = [s for s in sr if rng.random() < 0.7] or sr
            if rng.random() < 0.15:
                sr.append("q")
            if not wb and rng.random() < 0.1:
                R = gen.rand_fst(rng, syms=sr, weighted=weighted, eps=0.2)
                R.arcs = [[a for a in ar if a[:2] != (EPS, EPS)] for ar in R.arcs]
            else:
                R = self.rule_fst(rng, sr, weighted, wb, rng.random() < 0.7)
            R = ref.trim(R)
            if wb and WB not in R.symbols():
                # all rules know the boundary, or none does
                R.arcs[0].append((WB, EPS, 0.0, 0))
            c.fst("r%d" % i, ty, R)
            if not weighted and rng.random() < 0.5:
                c.cmd("minimize", "r%d" % i)
        d["pre"] = [c.cmd("dump", "r%d" % i) for i in range(n)]
        d["lex"] = c.cmd("dump", "l")
        d["call"] = c.cmd("compose_intersect", "l", 1 if inv else 0, *["r%d" % i for i in range(n)])
        d["res"] = c.cmd("dump", "l")
        d["post"] = [c.cmd("dump", "r%d" % i) for i in range(n)]
        return c

    def judge(self, c, out, rep):
        d = c.data
        inv, wb, ty = d["inv"], d["wb"], d["ty"]
        n = len(d["pre"])
        tag = "[%s %d rules%s%s]" % (ty, n, " inverted" if inv else "", " boundary" if wb else "")
        L = out[d["lex"]].fst()
        R = [out[i].fst() for i in d["pre"]]
        desc = "L=%r\n" % L + "\n".join("R=%r" % r for r in R)
        e = out[d["call"]].exc
        if e:
            return rep.bad("exception %s %s" % (e.split("\t")[0], tag), e + "\n" + desc, c.text())
        t2, _, P = out[d["res"]].dump()
        if t2 != ty:
            return rep.bad("type changed " + tag, t2, c.text())
        for r, i in zip(R, d["post"]):
            q = out[i].fst()
            if sorted(map(sorted, q.arcs)) != sorted(map(sorted, r.arcs)) or q.fin != r.fin or q.alpha != r.alpha:
                return rep.bad("rule changed " + tag, "%r -> %r" % (r, q), c.text())
        rep.inc(tag)
        if not n:
            # the intersection of no rules is documented in the code as empty
            rep.ok()
            if ref.trim(P).fin:
                rep.bad("no rules: not empty " + tag, desc, c.text())
            return
        U = ref.universe(L, P, *R, fresh=2)
        fl = {x for x in U if x.startswith("@") and x != WB}
        nofl = lambda f: U - {x for x in fl if x not in f.alpha} - ({WB} - f.alpha)
        ex = lambda f: ref.trim(ref.expand(f, nofl(f)))
        lex, rules = ex(L), [ex(r) for r in R]
        if inv:
            lex = ref.invert(lex)
            rules = [ref.invert(r) for r in rules]
            for r in rules:
                r.arcs = [[((WB, EPS) if (i, o) == (EPS, WB) else (EPS, WB) if (i, o) == (WB, EPS) else (i, o)) + (w, t) for i, o, w, t in a] for a in r.arcs]
        if any(WB in r.alpha for r in R):
            b = ref.pair(EPS, WB)
            lex = ref.concat(ref.concat(b, lex), b)
        for r0, r in zip(R, rules):
            for x in fl - r0.alpha:
                for s in range(r.n):
                    r.arcs[s].append((x, x, 0.0, s))
        I = rules[0]
        for r in rules[1:]:
            I = ref.trim(ref.intersect(I, r))
        if I.narcs() > 4000 or P.narcs() > 4000:
            return rep.inc("skipped_big")
        m = ref.trim(ref.compose(lex, I))
        if inv:
            m = ref.invert(m)
        p = ref.trim(ref.expand(P, nofl(P)))
        x = ref.diff_strs(m, p, 4, 4, weights=ty == "tropical", cap=20000)
        rep.ok(desc if m.fin else None)
        if x:
            rep.bad("wrong result " + tag, "witness %r: model %r, hfst %r\n%s\nresult=%r" % (x + (desc, P)), c.text())

CHECK = C()
