"""Random transducers: small, but dense in the features that matter."""
from ref import *

POOLS = [["a", "b"], ["a", "b", "c"], ["a", "b", "cc"], ["a", "\u00e4", "\u20ac"], ["x", "yy", " "], ["a", "b", "+Noun", "d"]]

def weight(rng, neg=False):
    return rng.choice([0.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.75])

def rand_fst(rng, syms=None, n=None, weighted=True, automaton=False, cyclic=None, eps=0.25, wild=0.0, density=None, flags=(), dead=0.1, extra=0.2):
    """cyclic: None random. Weighted cyclic machines get their weights from a function of the label, so that
    they are determinizable."""
    if syms is None:
        syms = rng.choice(POOLS)
    if n is None:
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    if cyclic is None:
        cyclic = rng.random() < 0.4
    f = Fst(n)
    lw = {}
    def sym():
        if flags and rng.random() < 0.4:
            return rng.choice(flags)
        return rng.choice(syms)
    m = density if density is not None else rng.choice([n, n + 1, 2 * n, 2 * n + 2])
    for k in range(m):
        s = rng.randrange(n) if k >= n - 1 else k
        if cyclic:
            t = rng.randrange(n)
        else:
            if s == n - 1:
                s = rng.randrange(n)
                if s == n - 1:
                    continue
            t = rng.randrange(s + 1, n)
        x = rng.random()
        i = o = None
        if wild and rng.random() < wild:
            y = rng.random()
            if automaton or y < 0.4:
                i = o = IDN
            elif y < 0.65:
                i, o = UNK, UNK
            elif y < 0.75:
                i, o = UNK, rng.choice(syms)
            elif y < 0.85:
                i, o = rng.choice(syms), UNK
            elif y < 0.93:
                i, o = UNK, EPS
            else:
                i, o = EPS, UNK
        elif x < eps:
            i = o = EPS
            if not automaton and rng.random() < 0.7:
                if rng.random() < 0.5:
                    i = sym()
                else:
                    o = sym()
        else:
            i = sym()
            o = i if automaton or rng.random() < 0.5 or i in flags else sym()
            if o in flags and i not in flags:
                o = i
        if i in flags or o in flags:
            i = o = (i if i in flags else o)
        w = 0.0
        if weighted:
            if cyclic:
                w = 0.0 if (i == EPS and o == EPS) else lw.setdefault((i, o), weight(rng))
            else:
                w = weight(rng)
        f.add(s, t, i, o, w)
    for s in range(n):
        if rng.random() < 0.3:
            f.fin[s] = weight(rng) if weighted else 0.0
    if not f.fin and rng.random() < 0.95:
        f.fin[n - 1] = weight(rng) if weighted else 0.0
    # make the last state likely to matter
    if n > 1 and rng.random() < 0.7 and not any(t == n - 1 for a in f.arcs for *_, t in a):
        x = rng.choice(syms)
        f.add(rng.randrange(n - 1), n - 1, x, x if automaton else rng.choice(syms), lw.setdefault((x, x), 0.0) if cyclic else 0.0)
        f.fin.setdefault(n - 1, 0.0)
    if rng.random() < extra:
        f.alpha.add(rng.choice(["q", "a", "z"]))
    # renumber states other than the start at random now and then
    if rng.random() < 0.3 and n > 2:
        p = list(range(1, n))
        rng.shuffle(p)
        p = [0] + p
        g = Fst(n)
        g.alpha = set(f.alpha)
        for s in range(n):
            g.arcs[p[s]] = [(i, o, w, p[t]) for i, o, w, t in f.arcs[s]]
        g.fin = {p[s]: w for s, w in f.fin.items()}
        f = g
    return f

def rand_lexicon(rng, syms, nwords=None, maxlen=4, automaton=False, weighted=True, align=True):
    """Union of random words (ambiguity, shared prefixes)."""
    f = Fst(1)
    words = []
    for _ in range(nwords or rng.randint(1, 6)):
        L = rng.randint(0, maxlen)
        ps = []
        for _ in range(L):
            i = rng.choice(syms)
            r = rng.random()
            if automaton or r < 0.5:
                ps.append((i, i))
            elif r < 0.75:
                ps.append((i, rng.choice(syms)))
            elif r < 0.87:
                ps.append((i, EPS))
            else:
                ps.append((EPS, i))
        w = weight(rng) if weighted else 0.0
        words.append((tuple(ps), w))
        s = 0
        for k, (i, o) in enumerate(ps):
            t = f.state()
            f.add(s, t, i, o, 0.0)
            s = t
        f.fin[s] = min(f.fin.get(s, INF), w)
    return f, words
