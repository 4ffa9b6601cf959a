"""C08: path extraction."""
import ref, gen
from ref import EPS, UNK, IDN, INF
from drv import Case
from chk import Check

TYPES = ["tropical", "tropical", "sfst", "foma", "log", "olw", "ol"]
W = ("tropical", "log", "olw")

def runs(f, cap=3000):
    """All accepting runs of an acyclic machine as {(pairs without eps:eps): {weights}}, and their number; None if more than cap."""
    f = ref.trim(f)
    out = {}
    n = 0
    if not f.fin:
        return out, 0
    st = [(0, (), 0.0)]
    while st:
        s, p, w = st.pop()
        n += 1
        if n > 20 * cap:
            return None, 0
        if s in f.fin:
            out.setdefault(p, []).append(w + f.fin[s])
            if len(out) > cap:
                return None, 0
        for i, o, x, t in f.arcs[s]:
            st.append((t, p if i == EPS and o == EPS else p + ((i, o),), w + x))
    return out, sum(map(len, out.values()))

def norm(p):
    return tuple(x for x in p if x != (EPS, EPS))

def near(w, ws, tol=2e-3):
    return any(abs(w - x) <= tol for x in ws)

class C(Check):
    id = "C08"
    quick = (200, 60)
    thorough = (2000, 80)
    rule = ("Random acyclic and cyclic transducers (epsilons, wildcards, ambiguous paths, duplicate arcs, weights, dead states) in every back end; extract_paths with and without limits, extract_random_paths, n_best, shortest and longest paths, is_cyclic. The monitor enumerates all accepting runs of the "
            "dumped operand itself. Non-trivial: at least two distinct paths or a limit that cuts.")

    def fixed(self):
        # a cycle from which no final state can be reached, a number limit and no limit on cycles
        c = Case()
        f = ref.string([("a", "a")])
        s = f.state()
        f.add(0, s, "b", "b")
        f.add(s, s, "b", "b")
        c.fst("t", "tropical", f)
        c.cmd("paths", "t", 3, -1)
        c.data["probe_dies"] = "probe: extract_paths with a number limit recurses forever in a dead cycle"
        return [c]

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        ty = D["ty"] = rng.choice(TYPES)
        cyc = rng.random() < 0.3
        noeps = D["noeps"] = rng.random() < 0.4
        syms = rng.choice(gen.POOLS)
        if rng.random() < 0.25:
            f, _ = gen.rand_lexicon(rng, syms, nwords=rng.randint(1, 12), weighted=ty in W, automaton=noeps)
        else:
            f = gen.rand_fst(rng, syms=syms, weighted=ty in W, cyclic=cyc, eps=0 if noeps else 0.25, wild=0 if noeps else rng.choice([0, 0, 0.3]), n=rng.choice([1, 2, 3, 4, 5, 6]))
        if not cyc and rng.random() < 0.3:   # parallel copies of arcs, with other weights
            for s in range(f.n):
                for a in list(f.arcs[s])[:2]:
                    f.arcs[s].append((a[0], a[1], a[2] + (rng.choice([0, 1]) if ty in W else 0), a[3]))
        if ty == "foma" or cyc:
            f = ref.trim(f)
            if not f.fin:
                f = ref.string([("a", "b")])
        c.fst("t", ty, f)
        D["dump"] = c.cmd("dump", "t")
        D["cyc"] = c.cmd("is_cyclic", "t")
        D["q"] = []
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.3:
                a = (-1, -1)
                D["q"].append(("all", a, c.cmd("paths", "t", *a)))
            elif x < 0.5:
                a = (rng.choice([1, 2, 3, 5, 50]), rng.choice([-1, -1, 0, 1]))
                D["q"].append(("lim", a, c.cmd("paths", "t", *a)))
            elif x < 0.62:
                a = (-1, rng.choice([0, 1, 2]))
                D["q"].append(("cyc", a, c.cmd("paths", "t", *a)))
            elif x < 0.74 and ty not in ("ol", "olw", "log"):
                n = rng.choice([1, 2, 5, 30])
                D["q"].append(("rnd", n, c.cmd("random", "t", n, rng.randrange(1000))))
            elif x < 0.88 and ty in ("tropical", "sfst", "foma"):
                n = rng.choice([1, 1, 2, 3, 4, 10])
                c.cmd("copy", "u", "t")
                c.cmd("n_best", "u", n)
                D["q"].append(("best", n, c.cmd("dump", "u"), c.n - 2))
            elif x < 0.92 and ty in ("tropical", "sfst", "foma"):
                D["q"].append(("short", 1, c.cmd("shortest", "t")))
            elif noeps and ty in ("tropical", "sfst", "foma"):
                D["q"].append(("long", 0, c.cmd("longest_paths", "t", "0"), c.cmd("longest", "t", "0")))
        D["after"] = c.cmd("dump", "t")
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        f = ref.trim(out[d["dump"]].fst())
        g = out[d["dump"]].fst()
        w = ty in W
        acyclic = ref.acyclic(f)
        R, nruns = runs(f) if acyclic else (None, 0)
        if acyclic and R is None:
            rep.inc("too_big")
            return
        def bad(k, m):
            rep.bad("%s [%s]" % (k, ty), "%s\ntransducer %r" % (m, g), c.text())
        # is_cyclic may also see cycles off the accepting paths
        b = out[d["cyc"]].bool()
        rep.ok()
        if (not acyclic and not b) or (b and ref.acyclic(g)):
            return bad("is_cyclic", "says %r" % b)
        def exists(p, wt):
            p = norm(p)
            if acyclic:
                return p in R and (not w or near(wt, R[p]))
            # membership by composing: single path weight set is infinite; check it is accepted and not below the least weight
            m = ref.intersect(ref.string(p), f)
            r = ref.paths_pairs(m, len(p))
            return r is None or (p in r and (not w or wt >= r[p] - 2e-3))
        for q in d["q"]:
            kind, a, i = q[0], q[1], q[2]
            r = out[i]
            rep.inc(kind + ("" if acyclic else "_cyclic"))
            if kind == "all" and not acyclic:
                rep.ok((ty, "\n".join(c.out)))
                if not r.exc or "Cyclic" not in r.exc:
                    return bad("cyclic transducer not refused", "%r" % (r.exc or r.lines[:3]))
                continue
            if kind == "all" and b and r.exc and "Cyclic" in r.exc:
                continue    # a cycle off the accepting paths
            if kind in ("long",) and (not acyclic or b):
                rep.ok()
                if not r.exc or "Cyclic" not in r.exc:
                    return bad("longest paths of a cyclic transducer", "%r" % (r.exc or r.lines[:3]))
                continue
            if r.exc:
                if kind == "rnd" and not f.fin:
                    continue
                return bad("%s: exception" % kind, r.exc)
            if kind == "best":
                P = out[i].fst()
                if out[q[3]].exc:
                    return bad("n_best: exception", out[q[3]].exc)
                B, nb = runs(P)
                if B is None:
                    return bad("n_best: result is not a set of paths", repr(P))
                rep.ok((ty, a, "\n".join(c.out)))
                ps = [(x, p) for p, ws in B.items() for x in ws]
                for x, p in ps:
                    if not exists(p, x):
                        return bad("n_best: path does not exist", "%r %r" % (p, x))
                if nb > a:
                    return bad("n_best: too many paths", "%d > %d: %r" % (nb, a, ps))
                if acyclic:
                    amb = any(len(x) > 1 for x in R.values())
                    if not amb and nb != min(a, len(R)):
                        return bad("n_best: wrong number of paths", "%d instead of %d: %r" % (nb, min(a, len(R)), ps))
                    if w and ps and not amb:
                        m = max(x for x, p in ps)
                        for p, ws in R.items():
                            if p not in B and min(ws) < m - 2e-3:
                                return bad("n_best: better path left out", "%r %r; kept %r" % (p, ws, ps))
                    if f.fin and not B:
                        return bad("n_best: nothing kept", "")
                elif f.fin and not B:
                    return bad("n_best: nothing kept", "")
                continue
            got = r.paths()
            for x, p in got:
                if not exists(p, x):
                    return bad("%s: path does not exist" % kind, "%r %r" % (x, p))
            G = {norm(p) for x, p in got}
            if kind == "all" or (kind == "lim" and acyclic) or (kind == "cyc" and acyclic):
                want = [(p, x) for p, ws in R.items() for x in (ws if w else [0.0])]
                rep.ok((ty, kind, a, "\n".join(c.out)) if len(R) > 1 else None)
                if kind == "lim":
                    if len(got) > a[0]:
                        return bad("limit exceeded", "%d > %d" % (len(got), a[0]))
                    if len(R) <= a[0] or len(got) < a[0]:
                        # not cut: everything must be there, unless equal paths with several runs used up the limit
                        if nruns <= a[0] and G != set(R):
                            return bad("limit not reached but paths missing", "%r instead of %r" % (G, set(R)))
                        if len(got) == 0 and R:
                            return bad("nothing extracted", "")
                else:
                    if G != set(R):
                        return bad("%s: paths missing" % kind, "%r" % sorted(set(R) - G)[:3])
                    for p, x in want:
                        if w and not any(norm(q2) == p and abs(y - x) < 2e-3 for y, q2 in got):
                            return bad("%s: weight missing" % kind, "%r %r; got %r" % (p, x, got[:6]))
                if len(set(got)) != len(got):
                    return bad("%s: duplicate" % kind, repr(got))
            elif kind in ("lim", "cyc"):
                rep.ok((ty, kind, a, "\n".join(c.out)))
                if kind == "lim" and len(got) > a[0]:
                    return bad("limit exceeded", "%d > %d" % (len(got), a[0]))
                if kind == "lim" and a[1] < 0 and f.fin and not got:
                    return bad("nothing extracted", "")
                if kind == "cyc":
                    # every accepting path that visits no state twice must be there
                    S, _ = self.simple(f)
                    if S is not None and not S <= G:
                        return bad("cyc: acyclic path missing", "%r" % sorted(S - G)[:3])
            elif kind == "rnd":
                rep.ok((ty, kind, a, "\n".join(c.out)) if len(f.arcs) > 1 else None)
                if len(got) > a:
                    return bad("random: too many paths", "%d > %d" % (len(got), a))
                if not got and acyclic and set(R) - {()} and f.narcs() == g.narcs():   # dead ends use up attempts
                    return bad("random: nothing found", "")
            elif kind == "short":
                rep.ok((ty, kind, "\n".join(c.out)))
                if len(got) > 1 or (not got and f.fin):
                    return bad("shortest: number of paths", repr(got))
                if got and acyclic:
                    # a path of the least length, and of those a lightest one
                    m = min(map(len, R))
                    if len(got[0][1]) != m or (w and got[0][0] > min(min(x) for p, x in R.items() if len(p) == m) + 2e-3):
                        return bad("shortest: not a shortest", repr(got))
            elif kind == "long":
                rep.ok((ty, kind, "\n".join(c.out)) if R else None)
                m = max(map(len, R)) if R else None
                want = {p for p in R if len(p) == m}
                if G != want:
                    return bad("longest paths", "%r instead of %r" % (G, want))
                ln = int(out[q[3]].get("i")[0])
                if ln != (m if R else -1):
                    return bad("longest_path_size", "%r instead of %r" % (ln, m))
        if ref.diff_pairs(g, out[d["after"]].fst(), weights=w):
            return bad("operand changed", "%r" % out[d["after"]].fst())

    def simple(self, f, cap=3000):
        out = set()
        st = [(0, (), frozenset([0]))]
        n = 0
        while st:
            s, p, v = st.pop()
            n += 1
            if n > cap:
                return None, 0
            if s in f.fin:
                out.add(p)
            for i, o, x, t in f.arcs[s]:
                if t not in v:
                    st.append((t, p if i == EPS and o == EPS else p + ((i, o),), v | {t}))
        return out, n

CHECK = C()
