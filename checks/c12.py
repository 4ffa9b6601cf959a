"""C12: substitution, free insertion and weight edits change only what they name."""
import ref, gen
from ref import EPS, UNK, IDN, INF
from drv import Case
from chk import Check

SPECIAL = {EPS, UNK, IDN}
WF = {"double": lambda x: 2 * x, "plus1": lambda x: x + 1, "zero": lambda x: 0.0, "affine": lambda x: x * 0.5 + 0.25}

def relabel(f, fn):
    """fn(i, o) -> list of pairs."""
    g = ref.Fst(f.n)
    g.alpha, g.fin = set(f.alpha), dict(f.fin)
    for s in range(f.n):
        for i, o, w, t in f.arcs[s]:
            for a, b in fn(i, o):
                g.arcs[s].append((a, b, w, t))
    return g

def plug(f, pair, t):
    g = ref.Fst(f.n)
    g.alpha, g.fin = set(f.alpha), dict(f.fin)
    for s in range(f.n):
        for i, o, w, d in f.arcs[s]:
            if (i, o) != pair:
                g.arcs[s].append((i, o, w, d))
                continue
            off = ref._append(g, t)
            for q, x in t.fin.items():
                g.fin.pop(q + off, None)
                g.arcs[q + off].append((EPS, EPS, x, d))
            g.arcs[s].append((EPS, EPS, w, off))
    return g

class C(Check):
    id = "C12"
    quick = (240, 60)
    thorough = (800, 80)
    rule = ("Random transducers (parallel and duplicate arcs, epsilons, cycles, wildcards, weights) in every back end and as basic transducers; every form of substitute (symbol by side, pair, pair set, several symbols or pairs at once with chains and swaps, "
            "callback, pair by transducer), insert_freely (pair, transducer), remove_transitions, set_final_weights, transform_weights. The monitor applies the edit to its own copy and compares the weighted relations exactly, and the alphabets. "
            "Non-trivial: the edit names something that occurs.")
    assumptions = ["wildcards in the operand of edits that name wildcards are compared as labels"]

    def fst(self, rng, w, syms, wild):
        f = gen.rand_fst(rng, syms=syms, weighted=w, wild=wild, eps=rng.choice([0.0, 0.25]), automaton=rng.random() < 0.3, n=rng.choice([1, 2, 3, 4, 5]))
        for a in f.arcs:
            if a and rng.random() < 0.3:
                for _ in range(rng.randint(1, 3)):
                    i, o, x, t = rng.choice(a)
                    a.append((i, o, x, rng.choice([t, t, a[0][3]])))
                if rng.random() < 0.5:
                    a.sort()
        return f

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        ty = D["ty"] = rng.choice(["tropical", "tropical", "sfst", "foma", "log", "graph", "graph"])
        w = D["w"] = ty in ("tropical", "log", "graph")
        syms = rng.choice(gen.POOLS)
        wild = rng.choice([0, 0, 0.25])
        g = ty == "graph"
        G = "g" if g else ""
        ops = ["symbol", "symbol", "pair", "pair_set", "map", "fst", "fst", "free", "freefst"]
        ops += ["remove"] if g else ["pairmap", "func", "finalw", "transform"]
        op = D["op"] = rng.choice(ops)
        if op in ("fst", "free", "freefst") and g:
            wild = 0        # basic transducers are not harmonized by these
        f = self.fst(rng, w, syms, wild)
        if ty == "foma":
            f = ref.trim(f)
            if not f.fin:
                return None
        new = ["N", "new symbol", "\u00f1"]
        pool = syms + [EPS] + new[:1]
        sy = lambda: rng.choice(pool)
        arcs = [(i, o) for a in f.arcs for i, o, _, _ in a]
        oldp = lambda: rng.choice(arcs) if arcs and rng.random() < 0.85 else (sy(), sy())
        anysy = lambda: sy() if rng.random() < 0.8 or not wild else rng.choice([UNK, IDN])
        def newp():
            if rng.random() < 0.1:
                return (IDN, IDN)
            return rng.choice([(sy(), sy()), (rng.choice(syms), rng.choice(new))])
        (c.graph if g else lambda r, x: c.fst(r, ty, x))("a", f)
        dump = lambda r: c.cmd("gdump" if g else "dump", r)
        D["pre"] = dump("a")
        if op == "symbol":
            p = rng.choice(oldp())
            side = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
            q = anysy() if rng.random() < 0.6 else rng.choice(new)
            if p in (IDN,) and side != (1, 1) or q == IDN and side != (1, 1):
                return None
            if q == IDN and p != IDN and any((i == p) != (o == p) for i, o in arcs):
                return None
            D["a"] = (p, q) + side
            D["r"] = c.cmd(G + "subst_symbol", "a", p, q, *side)
        elif op == "pair":
            p, q = oldp(), newp()
            D["a"] = (p, q)
            D["r"] = c.cmd(G + "subst_pair", "a", *p, *q)
        elif op == "pair_set":
            p = oldp()
            qs = list({newp() for _ in range(rng.choice([1, 2, 2, 3]))})
            D["a"] = (p, qs)
            D["r"] = c.cmd(G + "subst_pair_set", "a", *p, *[x for q in qs for x in q])
        elif op == "map":
            # chains and swaps: targets may be sources as well
            src = rng.sample([x for x in pool if x != EPS], min(len(pool) - 1, rng.randint(1, 4)))
            m = {x: rng.choice(pool + new) for x in src}
            if rng.random() < 0.2:
                m[EPS] = rng.choice(new)
            D["a"] = m
            D["r"] = c.cmd(G + "subst_map", "a", *[x for kv in m.items() for x in kv])
        elif op == "pairmap":
            m = {oldp(): newp() for _ in range(rng.randint(1, 4))}
            if len(m) > 1 and rng.random() < 0.5:
                ks = list(m)
                m[ks[0]], m[ks[1]] = ks[1], ks[0]
            D["a"] = m
            D["r"] = c.cmd("subst_pairmap", "a", *[x for p, q in m.items() for x in p + q])
        elif op == "func":
            D["r"] = c.cmd("subst_func", "a")
        elif op in ("fst", "freefst"):
            t = self.fst(rng, w and not (op == "freefst"), syms + new[:1], wild if rng.random() < 0.5 else 0)
            if ty == "foma":
                t = ref.trim(t)
                if not t.fin:
                    return None
            (c.graph if g else lambda r, x: c.fst(r, ty, x))("t", t)
            if not g and rng.random() < 0.3:
                c.cmd(rng.choice(["reverse", "invert"]), "t")
            D["t"] = dump("t")
            if op == "fst":
                p = oldp()
                if wild and not set(p) <= f.alpha | {EPS} or set(p) & {UNK, IDN} or p == (EPS, EPS) and ty in ("sfst", "foma", "graph"):
                    return None
                D["a"] = p
                D["r"] = c.cmd(G + "subst_fst", "a", *p, "t")
            else:
                D["r"] = c.cmd(G + "insert_freely_fst", "a", "t")
        elif op == "free":
            p = newp()
            if IDN in p:
                p = ("N", "N")
            D["a"] = p
            D["x"] = rng.choice([0.0, 1.5]) if g else 0.0
            D["r"] = c.cmd("ginsert_freely", "a", *p, D["x"]) if g else c.cmd("insert_freely", "a", *p)
        elif op == "remove":
            D["a"] = p = oldp()
            D["r"] = c.cmd("gremove_transitions", "a", *p)
        elif op == "finalw":
            D["a"] = (rng.choice([0.0, 0.75, 2.0, -0.5]), rng.choice([0, 1]))
            D["r"] = c.cmd("set_final_weights", "a", *D["a"])
        elif op == "transform":
            D["a"] = rng.choice(sorted(WF))
            D["r"] = c.cmd("transform_weights", "a", D["a"])
        D["post"] = dump("a")
        return c

    def judge(self, c, out, rep):
        d = c.data
        op, ty, a = d["op"], d["ty"], d.get("a")
        f, r = out[d["pre"]].fst(), out[d["post"]].fst()
        arcs = {(i, o) for x in f.arcs for i, o, _, _ in x}
        named, t, U = set(), None, None
        if out[d["r"]].exc:
            return rep.bad("%s: exception [%s]" % (op, ty), "%s\n%r\n%r" % (out[d["r"]].exc, a, f), c.text())
        hit = True
        if op == "symbol":
            p, q, si, so = a
            hit = any(p in x for x in arcs)
            E = relabel(f, lambda i, o: [(q if si and i == p else i, q if so and o == p else o)])
            named = {p, q}
        elif op == "pair":
            hit = a[0] in arcs
            E = relabel(f, lambda i, o: [a[1] if (i, o) == a[0] else (i, o)])
            named = set(a[0]) | set(a[1])
        elif op == "pair_set":
            hit = a[0] in arcs
            E = relabel(f, lambda i, o: a[1] if (i, o) == a[0] else [(i, o)])
            named = set(a[0]) | {x for q in a[1] for x in q}
        elif op == "map":
            E = relabel(f, lambda i, o: [(a.get(i, i), a.get(o, o))])
            named = set(a) | set(a.values())
        elif op == "pairmap":
            E = relabel(f, lambda i, o: [a.get((i, o), (i, o))])
            named = {x for p, q in a.items() for x in p + q}
        elif op == "func":
            E = relabel(f, lambda i, o: [(i, "X"), ("Y", o)] if i == o and len(i.encode()) == 1 else [(i, o)])
            named = {x for x in f.alpha if len(x.encode()) == 1} | {"X", "Y"}
        elif op == "remove":
            hit = a in arcs
            E = relabel(f, lambda i, o: [] if (i, o) == a else [(i, o)])
            named = set(a)
        elif op == "finalw":
            E = f.copy()
            if d["w"]:
                E.fin = {s: (x + a[0] if a[1] else a[0]) for s, x in E.fin.items()}
        elif op == "transform":
            E = ref.map_weights(f, WF[a]) if d["w"] else f
        else:
            extra = ref.Fst(1)
            if op == "fst":
                extra.alpha |= set(a)
            elif op == "free":
                extra.alpha |= set(a)
            if op in ("fst", "freefst"):
                t = out[d["t"]].fst()
            U = ref.universe(f, extra, r, *([t] if t else []))
            F = ref.expand(f, U)
            if op == "fst":
                T = ref.expand(t, U)
                hit = a in arcs
                E = plug(F, a, T)
                named = set(a) | t.alpha
            elif op == "free":
                E = F
                for s in range(E.n):
                    E.arcs[s].append((a[0], a[1], d["x"], s))
                named = set(a)
            else:
                T = ref.expand(t, U)
                n = F.n
                for s in range(n):
                    F.arcs[s].append(("\0", "\0", 0.0, s))
                E = plug(F, ("\0", "\0"), T)
                named = set(t.alpha)
            r2 = ref.expand(r, U)
        rep.ok((op, ty, repr(f), repr(a)) if hit and f.fin else None)
        rep.inc(op)
        x = ref.diff_pairs(E, r2 if U else r, weights=d["w"], cap=1500)
        if x:
            return rep.bad("%s: wrong relation [%s]" % (op, ty), "%r\nargument %r\noperand %r\nresult %r%s" % (x, a, f, r, "\nother %r" % t if t else ""), c.text())
        if not r.symbols() <= r.alpha | SPECIAL:
            return rep.bad("%s: symbol not in alphabet [%s]" % (op, ty), "%r\nargument %r\noperand %r" % (r.symbols() - r.alpha, a, f), c.text())
        x = (f.alpha ^ r.alpha) - named - SPECIAL
        if x:
            return rep.bad("%s: alphabet changed for symbols not named [%s]" % (op, ty), "%r\nargument %r\noperand %r\nresult %r" % (x, a, f, r), c.text())

CHECK = C()
