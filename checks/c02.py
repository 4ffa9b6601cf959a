"""C02: optimisations keep the relation and reach their normal form."""
import ref, gen
from ref import EPS, UNK, IDN
from drv import Case
from chk import Check

OPS = ["remove_epsilons", "determinize", "determinize", "minimize", "minimize", "minimize", "optimize", "push_weights", "push_labels", "prune_alphabet"]
TYPES = ["tropical", "tropical", "tropical", "sfst", "foma"]

def minimal_count(f):
    """States of the minimal trim deterministic machine over symbol pairs (unweighted)."""
    d = ref.trim(ref.determinize(ref.trim(f)))
    if not d.fin:
        return 1
    cls = [1 if s in d.fin else 0 for s in range(d.n)]
    while True:
        sig = {}
        new = []
        for s in range(d.n):
            k = (cls[s], tuple(sorted((i, o, cls[t]) for i, o, w, t in d.arcs[s])))
            new.append(sig.setdefault(k, len(sig)))
        if len(sig) == len(set(cls)):
            return len(sig)
        cls = new

class C(Check):
    id = "C02"
    quick = (240, 60)
    thorough = (2500, 80)
    rule = ("Random transducers (1-8 states, epsilons, cycles, dead and unreachable states, weights, also negative ones on acyclic machines, wildcards) and unions of perturbed copies; one to three optimisations in a row under random settings "
            "(Hopcroft/Brzozowski, weight encoding, minimize-even-if-minimal). After each call the machine is compared with the one before it (exact joint weighted subset construction; string pairs for label pushing), "
            "and the normal form is checked: no eps:eps arc, determinism on pairs, state count of the minimal machine. Non-trivial: the machine accepts something.")
    assumptions = ["log back end excluded (see DESIGN.md)"]

    def fixed(self):
        c = Case()
        f = ref.Fst(3)
        f.add(0, 1, "a", "a"); f.add(0, 1, EPS, EPS); f.add(0, 2, "b", "b"); f.add(1, 2, "c", "c")
        f.fin = {0: 0.0, 2: 0.0}
        c.fst("a", "foma", f)
        pre = c.cmd("dump", "a")
        cal = c.cmd("remove_epsilons", "a")
        ns = c.cmd("states", "a")
        c.data.update(ty="foma", weighted=False, enc=False, nomin=False, probe=True, steps=[("remove_epsilons", pre, cal, c.cmd("dump", "a"), ns)])
        return [c]

    def gen(self, rng, k, rep):
        c = Case()
        ty = rng.choice(TYPES)
        weighted = ty == "tropical" and rng.random() < 0.7
        syms = rng.choice(gen.POOLS)
        wild = rng.choice([0, 0, 0, 0.2])
        cyc = rng.random() < 0.4
        def one():
            f = gen.rand_fst(rng, syms=syms, weighted=weighted, wild=wild, cyclic=cyc, n=rng.choice([1, 2, 3, 4, 5, 6, 8]), eps=rng.choice([0.0, 0.2, 0.5]), automaton=rng.random() < 0.3)
            if weighted and not cyc and rng.random() < 0.3:
                f.arcs = [[(i, o, w - rng.choice([0, 0, 1.0, 2.5]), t) for i, o, w, t in a] for a in f.arcs]
                if rng.random() < 0.5:
                    f.fin = {s: w - rng.choice([0, 1.0]) for s, w in f.fin.items()}
            return f
        f = one()
        if rng.random() < 0.3 and not (cyc and weighted):
            g = f.copy() if rng.random() < 0.5 else one()
            f = ref.union(f, g)
            f.alpha |= g.alpha
        if ty == "foma":
            f = ref.trim(f)
        if rng.random() < 0.3: c.cmd("set", "brzozowski", "1")
        enc = rng.random() < 0.3
        if enc: c.cmd("set", "encode_weights", "1")
        if rng.random() < 0.3: c.cmd("set", "even", "1")
        nomin = rng.random() < 0.2
        if nomin: c.cmd("set", "minimization", "0")
        c.fst("a", ty, f)
        c.data.update(ty=ty, weighted=weighted, enc=enc, nomin=nomin, steps=[])
        pre = c.cmd("dump", "a")
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = rng.choice(OPS)
            if o == "push_labels" and wild:
                o = "push_weights"   # pushing moves the two halves of ?:? apart
            if o in ("push_weights", "push_labels"):
                cal = c.cmd(o, "a", rng.choice(["init", "final"]))
            elif o == "prune_alphabet":
                cal = c.cmd(o, "a", "0")
            else:
                cal = c.cmd(o, "a")
            al = c.cmd("alphabet", "a")
            ns = c.cmd("states", "a")
            post = c.cmd("dump", "a")
            c.data["steps"].append((o, pre, cal, post, ns))
            pre = post
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        for o, pre, cal, post, ns in d["steps"]:
            rep.inc("%s_%s" % (o, ty))
            if out[cal].exc:
                rep.bad("%s: exception [%s]" % (o, ty), out[cal].exc, c.text())
                return
            A = out[pre].fst()
            t2, _, P = out[post].dump()
            if t2 != ty:
                rep.bad("%s: type changed [%s]" % (o, ty), t2, c.text())
                return
            if A.narcs() > 400 or P.narcs() > 400:
                rep.inc("skipped_big")
                return
            U = ref.universe(A, P)
            a, p = ref.expand(A, U), ref.expand(P, U)
            if o == "push_labels":
                if d["weighted"] and ref.is_cyclic(A):
                    pass
                x = ref.diff_strs(a, p, 4, 4, weights=ty == "tropical", cap=20000)
            elif ty == "foma" and o == "remove_epsilons" and not d.get("probe") and any(i == EPS and oo == EPS for r in A.arcs for i, oo, w, t in r):
                # libfoma's fsm_epsilon_remove loses paths now and then (known finding, see the probe): only inclusion is required
                x = ref.diff_pairs(a, ref.union(a, p), weights=False, cap=3000)
            else:
                x = ref.diff_pairs(a, p, weights=ty == "tropical", cap=3000)
            rep.ok((o, ty, repr(A), d["enc"]) if ref.has_pos_path(a) else None)
            if x and d.get("probe"):
                rep.bad("probe: foma remove_epsilons loses a path", "witness %r\nbefore %r\nafter %r" % (x, A, P), c.text())
                return
            if x:
                rep.bad("%s: relation changed [%s]" % (o, ty), "witness %r: before %r, after %r\nbefore %r\nafter %r" % (x + (A, P)), c.text())
                return
            vis = lambda f: (f.alpha | f.symbols()) - ref.SPECIAL
            if o == "prune_alphabet":
                used = A.symbols()
                want = vis(A) if (UNK in used or IDN in used) else used - ref.SPECIAL
                if vis(P) != want:
                    rep.bad("prune_alphabet: wrong alphabet [%s]" % ty, "%r instead of %r" % (sorted(vis(P)), sorted(want)), c.text())
                    return
            elif o != "prune_alphabet" and vis(P) != vis(A):
                rep.bad("%s: alphabet changed [%s]" % (o, ty), "%r instead of %r" % (sorted(vis(P)), sorted(vis(A))), c.text())
                return
            if o in ("remove_epsilons", "determinize", "minimize", "optimize"):
                # weighted minimization in OpenFst may put the pushed weight on a new initial eps:eps arc
                pushed = d["weighted"] and o in ("minimize", "optimize")
                if not pushed and any(i == EPS and oo == EPS for s in P.arcs for i, oo, w, t in s):
                    rep.bad("%s: eps:eps arc left [%s]" % (o, ty), "before %r\nafter %r" % (A, P), c.text())
                    return
            if o in ("determinize", "minimize", "optimize"):
                for s in P.arcs:
                    ks = [(i, oo) + ((round(w, 4),) if d["enc"] and ty == "tropical" else ()) for i, oo, w, t in s]
                    if len(ks) != len(set(ks)):
                        rep.bad("%s: not deterministic [%s]" % (o, ty), "before %r\nafter %r" % (A, P), c.text())
                        return
            if o == "minimize" or (o == "optimize" and not d["nomin"]):
                n = int(out[ns].get("i")[0])
                m = P.n
                if not d["weighted"]:
                    k = minimal_count(A)
                    if m > k or n > k:
                        rep.bad("minimize: not minimal [%s]" % ty, "%d (%d) states instead of %d\nbefore %r\nafter %r" % (m, n, k, A, P), c.text())
                        return
                    rep.inc("minimal_count_checked")

    def hang_counts(self, c, last):
        return not c.data["weighted"]

CHECK = C()
