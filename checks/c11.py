"""C11: compare() is true exactly for equivalent transducers."""
import os, subprocess, tempfile, shutil
import ref, gen, drv
from ref import EPS, UNK, IDN, INF
from drv import Case
from chk import Check

TYPES = ["tropical", "tropical", "tropical", "sfst", "foma"]

def has_wild(f):
    return bool(f.symbols() & {UNK, IDN})

def redo(f, rng, weighted):
    """An equivalent transducer that is built differently."""
    for _ in range(rng.randint(1, 4)):
        g = f.copy()
        x = rng.choice(["renumber", "split", "eps", "dup", "push", "dead", "symbol", "alpha", "order"])
        st = [s for s in range(g.n) if g.arcs[s]]
        if x == "renumber" and g.n > 2:
            p = list(range(1, g.n)); rng.shuffle(p); p = [0] + p
            h = ref.Fst(g.n); h.alpha = set(g.alpha)
            for s in range(g.n):
                h.arcs[p[s]] = [(i, o, w, p[t]) for i, o, w, t in g.arcs[s]]
            h.fin = {p[s]: w for s, w in g.fin.items()}
            g = h
        elif x == "split":
            s = rng.randrange(g.n)
            c = g.state()
            g.arcs[c] = list(g.arcs[s])
            if s in g.fin:
                g.fin[c] = g.fin[s]
            for a in g.arcs:
                for k, (i, o, w, t) in enumerate(a):
                    if t == s and rng.random() < 0.5:
                        a[k] = (i, o, w, c)
        elif x == "eps" and st:
            s = rng.choice(st)
            k = rng.randrange(len(g.arcs[s]))
            i, o, w, t = g.arcs[s][k]
            m = g.state()
            if rng.random() < 0.5:
                g.arcs[s][k] = (EPS, EPS, 0.0, m); g.arcs[m].append((i, o, w, t))
            else:
                g.arcs[s][k] = (i, o, w, m); g.arcs[m].append((EPS, EPS, 0.0, t))
        elif x == "dup" and st:
            s = rng.choice(st)
            i, o, w, t = rng.choice(g.arcs[s])
            g.arcs[s].append((i, o, w + (rng.choice([0.0, 0.5, 2.0]) if weighted else 0.0), t))
        elif x == "push" and weighted and g.n > 1:
            s = rng.randrange(1, g.n)
            d = rng.choice([0.25, 0.5, 1.0])
            h = ref.Fst(g.n); h.alpha = set(g.alpha); h.fin = dict(g.fin)
            for u in range(g.n):
                h.arcs[u] = [(i, o, w + (d if t == s else 0) - (d if u == s else 0), t) for i, o, w, t in g.arcs[u]]
            if s in h.fin:
                h.fin[s] -= d
            # only where nothing becomes negative (determinization of negative cycles is another matter)
            if all(w >= 0 for a in h.arcs for *_, w, _t in a) and all(w >= 0 for w in h.fin.values()):
                g = h
        elif x == "dead":
            m = g.state()
            if rng.random() < 0.5:
                g.arcs[rng.randrange(g.n)].append(("a", "a", 0.0, m)); g.alpha.add("a")
                if has_wild(f) and "a" not in f.alpha:
                    continue
            else:
                g.arcs[m].append((EPS, EPS, 0.0, 0)); g.fin[m] = 0.0
        elif x == "symbol" and has_wild(g):
            z = "z" + str(rng.randrange(3))
            if z in g.alpha:
                continue
            g.alpha.add(z)
            for s in range(g.n):
                for i, o, w, t in list(g.arcs[s]):
                    if i == o == IDN:
                        g.arcs[s].append((z, z, w, t))
                    else:
                        if i == UNK:
                            g.arcs[s].append((z, o, w, t))
                        if o == UNK:
                            g.arcs[s].append((i, z, w, t))
        elif x == "alpha" and not has_wild(g):
            g.alpha.add(rng.choice(["q", "long symbol", "\u00f6"]))
        elif x == "order":
            for a in g.arcs:
                rng.shuffle(a)
        f = g
    return f

def spoil(f, rng, weighted):
    g = f.copy()
    st = [s for s in range(g.n) if g.arcs[s]]
    x = rng.choice(["weight", "weight", "finw", "sym", "drop", "fin", "unfin", "side", "alpha", "wild"])
    if x in ("weight", "sym", "drop", "side", "wild") and st:
        s = rng.choice(st)
        k = rng.randrange(len(g.arcs[s]))
        i, o, w, t = g.arcs[s][k]
        if x == "weight" and weighted:
            g.arcs[s][k] = (i, o, w + rng.choice([0.25, 0.5, 1.0]), t)
        elif x == "sym":
            y = rng.choice(sorted(g.alpha - {EPS, UNK, IDN}) or ["a"])
            g.arcs[s][k] = (y, y, w, t)
            g.alpha.add(y)
        elif x == "side":
            g.arcs[s][k] = (o, i, w, t)
        elif x == "wild" and i == o == IDN:
            g.arcs[s][k] = (UNK, UNK, w, t)
        elif x == "drop":
            del g.arcs[s][k]
    elif x == "finw" and weighted and g.fin:
        s = rng.choice(sorted(g.fin))
        g.fin[s] += rng.choice([0.25, 1.0])
    elif x == "fin":
        g.fin.setdefault(rng.randrange(g.n), 0.0)
    elif x == "unfin" and len(g.fin) > 1:
        del g.fin[rng.choice(sorted(g.fin))]
    elif x == "alpha" and has_wild(g):
        g.alpha.add("n")
    return g

class C(Check):
    id = "C11"
    targets = ("hfstdrv", "hfst-compare")
    quick = (80, 50)
    thorough = (800, 80)
    rule = ("Pairs of transducers: a random one and the same rebuilt (states renumbered, split, duplicated, epsilons and dead states added, weights pushed, wildcards spelled out, arcs reordered, optimised by the library), then in half of the cases changed at one place "
            "(weight, symbol, side, final state, alphabet, arc). The monitor decides equivalence itself by joint weighted subset construction over the expanded alphabet and compares it with compare() in both directions, of each operand with itself, "
            "and (on a sample) with the exit status of hfst-compare. Non-trivial: the pair accepts something.")
    assumptions = ["log back end excluded (see DESIGN.md)"]

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        ty = D["ty"] = rng.choice(TYPES)
        w = ty == "tropical" and rng.random() < 0.7
        wild = rng.choice([0, 0, 0.25])
        f = gen.rand_fst(rng, weighted=w, wild=wild, eps=rng.choice([0.0, 0.2, 0.4]), automaton=rng.random() < 0.3, n=rng.choice([1, 2, 3, 4, 5, 6]))
        if ty == "foma":
            f = ref.trim(f)
            if not f.fin:
                return None
        # weights of a cyclic machine depend on its labels only, so that both sides can be determinized
        cw = w and ref.is_cyclic(f)
        g = redo(f, rng, w and not cw)
        h = g
        if rng.random() < 0.7:
            for _ in range(8):
                h = spoil(g, rng, w and not cw)
                if repr(h) != repr(g):
                    break
        if h is not g and cw and ref.diff_pairs(ref.unweight(g), ref.unweight(h)) is None and ref.diff_pairs(g, h):
            return None
        if h is not g:
            # label weights must stay functions of the label
            lw = {}
            if cw and any(lw.setdefault((i, o), x) != x for a in h.arcs for i, o, x, t in a if (i, o) != (EPS, EPS)):
                return None
        h = redo(h, rng, w and not cw)
        if ty == "foma":
            h = ref.trim(h)
            if not h.fin:
                return None
        c.fst("a", ty, f)
        c.fst("b", ty, h)
        D["lib"] = []
        for r in "ab":
            if rng.random() < 0.3:
                op = rng.choice(["minimize", "determinize", "remove_epsilons", "push_weights", "reverse2", "invert2"])
                if op == "push_weights" and ty != "tropical" or op == "reverse2" and cw:
                    continue
                D["lib"].append(op)
                if op.endswith("2"):
                    c.cmd(op[:-1], r); c.cmd(op[:-1], r)
                elif op == "push_weights":
                    c.cmd(op, r, rng.choice([0, 1]))
                else:
                    c.cmd(op, r)
        D["f"], D["h"] = f, h
        D["pre"] = [c.cmd("dump", "a"), c.cmd("dump", "b")]
        D["q"] = [(1, 2, c.cmd("compare", "a", "b")), (2, 1, c.cmd("compare", "b", "a")), (1, 1, c.cmd("compare", "a", "a")), (2, 2, c.cmd("compare", "b", "b"))]
        if not wild or f.alpha == h.alpha:
            D["q"].append((1, 2, c.cmd("compare", "a", "b", 0)))
        D["post"] = [c.cmd("dump", "a"), c.cmd("dump", "b")]
        if rng.random() < 0.08:
            D["tool"] = True
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        a, b = out[d["pre"][0]].fst(), out[d["pre"][1]].fst()
        w = ty == "tropical"
        U = ref.universe(a, b)
        A, B = ref.expand(a, U), ref.expand(b, U)
        x = ref.diff_pairs(A, B, weights=w, cap=20000)
        eq = x is None
        rep.inc("equal" if eq else "different")
        for p, q, i in d["q"]:
            r = out[i]
            rep.ok((ty, eq, p, q, repr(a), repr(b)) if ref.trim(a).fin and ref.trim(b).fin else None)
            want = eq or p == q
            if r.exc or r.bool() != want:
                return rep.bad("compare: says %s [%s]" % ("exception" if r.exc else "equal" if r.bool() else "different", ty),
                               "%s\ndifference %r\na %r\nb %r\nlib %r" % (r.exc or "", x, a, b, d["lib"]), c.text())
        for p, q in zip(d["pre"], d["post"]):
            if ref.diff_pairs(out[p].fst(), out[q].fst(), weights=w) or out[p].fst().alpha != out[q].fst().alpha:
                return rep.bad("compare: operand changed [%s]" % ty, "%r -> %r" % (out[p].fst(), out[q].fst()), c.text())
        if d.get("tool"):
            self.tool(c, rep, ty, a, b, eq)

    def tool(self, c, rep, ty, a, b, eq):
        tmp = tempfile.mkdtemp(prefix="c11.")
        try:
            k = Case("t")
            k.fst("a", ty, a); k.fst("b", ty, b)
            k.cmd("write", "../../../.." + tmp + "/a", 1, "a"); k.cmd("write", "../../../.." + tmp + "/b", 1, "b")
            o = drv.run_cases([k])["t"]
            if o.status != "ok" or not (os.path.exists(tmp + "/a") and os.path.exists(tmp + "/b")):
                return
            p = subprocess.run([os.path.join(drv.ASAN, "bin", "hfst-compare"), tmp + "/a", tmp + "/b"], env=drv.env(), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
            rep.ok(("tool", ty, repr(a), repr(b)))
            rep.inc("tool")
            sign = "==" if eq else "!="
            if p.returncode != (0 if eq else 1) or (" %s " % sign) not in p.stdout:
                rep.bad("hfst-compare: exit status or message [%s]" % ty, "status %d, output %r %r, expected %s\na %r\nb %r" % (p.returncode, p.stdout, p.stderr[-800:], sign, a, b), c.text())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

CHECK = C()
