"""Executable reference model: finite weighted (min,+) transducers, textbook constructions.

Independent of hfst's code. State 0 is the start. A transducer is a set of paths; eps:eps is silent.
"""
import heapq, itertools
EPS = "@_EPSILON_SYMBOL_@"
UNK = "@_UNKNOWN_SYMBOL_@"
IDN = "@_IDENTITY_SYMBOL_@"
SPECIAL = {EPS, UNK, IDN}
INF = float("inf")
FRESH = "\u2460fresh"

class Fst:
    __slots__ = ("arcs", "fin", "alpha")
    def __init__(self, n=1):
        self.arcs = [[] for _ in range(n)]
        self.fin = {}
        self.alpha = set()
    @property
    def n(self):
        return len(self.arcs)
    def add(self, s, t, i, o, w=0.0):
        m = max(s, t)
        while len(self.arcs) <= m:
            self.arcs.append([])
        self.arcs[s].append((i, o, w, t))
        self.alpha.add(i); self.alpha.add(o)
    def state(self):
        self.arcs.append([])
        return len(self.arcs) - 1
    def copy(self):
        f = Fst(0)
        f.arcs = [list(a) for a in self.arcs]
        f.fin = dict(self.fin)
        f.alpha = set(self.alpha)
        return f
    def narcs(self):
        return sum(map(len, self.arcs))
    def symbols(self):
        return {x for a in self.arcs for t in a for x in t[:2]}
    def lines(self):
        """Lines describing it, in the format of the driver's dumps."""
        from drv import enc
        L = []
        al = sorted(self.alpha | self.symbols())
        if al:
            L.append("A\t" + "\t".join(enc(x) for x in al))
        L.append("S\t%d" % max(1, self.n))
        for s in sorted(self.fin):
            L.append("F\t%d\t%r" % (s, float(self.fin[s])))
        for s, a in enumerate(self.arcs):
            for i, o, w, t in a:
                L.append("T\t%d\t%d\t%s\t%s\t%r" % (s, t, enc(i), enc(o), float(w)))
        return L
    def __repr__(self):
        return "; ".join(self.lines())

def parse(lines):
    """(type, name, Fst) from the lines of a dump."""
    from drv import dec
    f = Fst(1)
    ty = name = None
    for l in lines:
        p = l.split("\t")
        k = p[0]
        if k == "T":
            s, t = int(p[1]), int(p[2])
            m = max(s, t)
            while len(f.arcs) <= m:
                f.arcs.append([])
            f.arcs[s].append((dec(p[3]), dec(p[4]), float(p[5]), t))
        elif k == "F":
            f.fin[int(p[1])] = float(p[2])
            while len(f.arcs) <= int(p[1]):
                f.arcs.append([])
        elif k == "A":
            f.alpha = {dec(x) for x in p[1:]}
        elif k == "D":
            ty, name = p[1], dec(p[2])
        elif k == "S":
            while len(f.arcs) < int(p[1]):
                f.arcs.append([])
        elif k == ".":
            break
    return ty, name, f

# ---------------------------------------------------------------- wildcards
def expand(f, U):
    """Write out unknown and identity over the finite universe U of symbols."""
    known = f.alpha | f.symbols()
    oth = [x for x in sorted(U) if x not in known and x not in SPECIAL]
    g = Fst(f.n)
    g.alpha = (set(f.alpha) - SPECIAL) | set(U)
    g.fin = dict(f.fin)
    for s, a in enumerate(f.arcs):
        out = g.arcs[s]
        for i, o, w, t in a:
            if i == IDN or o == IDN:
                if i == o:
                    out.extend((x, x, w, t) for x in oth)
                elif i == IDN:      # mixed (not produced by sane code): treat as unknown
                    out.extend((x, o, w, t) for x in oth)
                else:
                    out.extend((i, x, w, t) for x in oth)
            elif i == UNK and o == UNK:
                out.extend((x, y, w, t) for x in oth for y in oth if x != y)
            elif i == UNK:
                out.extend((x, o, w, t) for x in oth)
            elif o == UNK:
                out.extend((i, x, w, t) for x in oth)
            else:
                out.append((i, o, w, t))
    return g

def universe(*fs, fresh=2):
    U = set()
    for f in fs:
        U |= f.alpha | f.symbols()
    U -= SPECIAL
    return U | {FRESH + str(k) for k in range(fresh)}

def fresh_on_both_sides(k):
    """Some fresh symbol occurs in the input and in the output of this string pair."""
    return any(x.startswith(FRESH) and x in k[1] for x in k[0])

# ---------------------------------------------------------------- constructions
def _append(g, f, off=None):
    """Copy f's states into g; returns offset."""
    off = g.n
    for a in f.arcs:
        g.arcs.append([(i, o, w, t + off) for i, o, w, t in a])
    g.alpha |= f.alpha
    return off

def empty():
    return Fst(1)

def epsilon(w=0.0):
    f = Fst(1)
    f.fin[0] = w
    return f

def pair(i, o, w=0.0):
    f = Fst(2)
    f.add(0, 1, i, o, w)
    f.fin[1] = 0.0
    return f

def string(pairs, w=0.0):
    f = Fst(1)
    for k, (i, o) in enumerate(pairs):
        f.add(k, k + 1, i, o)
    f.fin[len(pairs)] = w
    return f

def union(*fs):
    g = Fst(1)
    for f in fs:
        off = _append(g, f)
        g.arcs[0].append((EPS, EPS, 0.0, off))
        for s, w in f.fin.items():
            g.fin[s + off] = w
    return g

def concat(a, b):
    g = Fst(0)
    _append(g, a)
    off = _append(g, b)
    for s, w in a.fin.items():
        g.arcs[s].append((EPS, EPS, w, off))
    for s, w in b.fin.items():
        g.fin[s + off] = w
    return g

def star(f):
    g = Fst(1)
    g.fin[0] = 0.0
    off = _append(g, f)
    g.arcs[0].append((EPS, EPS, 0.0, off))
    for s, w in f.fin.items():
        g.arcs[s + off].append((EPS, EPS, w, 0))
    return g

def opt(f):
    return union(f, epsilon())

def power(f, n):
    g = epsilon()
    g.alpha |= f.alpha
    for _ in range(n):
        g = concat(g, f)
    return g

def plus(f):
    return concat(f, star(f))

def power_minus(f, n):
    g = epsilon()
    g.alpha |= f.alpha
    for _ in range(n):
        g = concat(g, opt(f))
    return g

def invert(f):
    g = f.copy()
    g.arcs = [[(o, i, w, t) for i, o, w, t in a] for a in f.arcs]
    return g

def reverse(f):
    g = Fst(f.n + 1)
    g.alpha = set(f.alpha)
    for s, a in enumerate(f.arcs):
        for i, o, w, t in a:
            g.arcs[t + 1].append((i, o, w, s + 1))
    for s, w in f.fin.items():
        g.arcs[0].append((EPS, EPS, w, s + 1))
    g.fin[1] = 0.0
    return g

def project(f, side):
    g = f.copy()
    g.arcs = [[((i, i, w, t) if side == 0 else (o, o, w, t)) for i, o, w, t in a] for a in f.arcs]
    return g

def unweight(f):
    g = f.copy()
    g.arcs = [[(i, o, 0.0, t) for i, o, w, t in a] for a in f.arcs]
    g.fin = {s: 0.0 for s in f.fin}
    return g

def map_weights(f, fn):
    g = f.copy()
    g.arcs = [[(i, o, fn(w), t) for i, o, w, t in a] for a in f.arcs]
    g.fin = {s: fn(w) for s, w in f.fin.items()}
    return g

def product(a, b, match, silent_a, silent_b):
    """Reachable product. match(arc_a, arc_b) -> (i,o) or None; silent_x(arc) -> (i,o) or None."""
    g = Fst(1)
    g.alpha = a.alpha | b.alpha
    ids = {(0, 0): 0}
    todo = [(0, 0)]
    while todo:
        p, q = pq = todo.pop()
        s = ids[pq]
        if p in a.fin and q in b.fin:
            g.fin[s] = a.fin[p] + b.fin[q]
        def go(np, nq, i, o, w):
            k = (np, nq)
            t = ids.get(k)
            if t is None:
                t = ids[k] = g.state()
                todo.append(k)
            g.arcs[s].append((i, o, w, t))
        for A in a.arcs[p]:
            r = silent_a(A)
            if r:
                go(A[3], q, r[0], r[1], A[2])
            for B in b.arcs[q]:
                m = match(A, B)
                if m:
                    go(A[3], B[3], m[0], m[1], A[2] + B[2])
        for B in b.arcs[q]:
            r = silent_b(B)
            if r:
                go(p, B[3], r[0], r[1], B[2])
    return g

_EE = (EPS, EPS)
def _sil(A):
    return _EE if A[0] == EPS and A[1] == EPS else None

def intersect(a, b):
    return product(a, b, lambda A, B: (A[0], A[1]) if A[0] == B[0] and A[1] == B[1] and not (A[0] == EPS and A[1] == EPS) else None, _sil, _sil)

def compose(a, b):
    return product(a, b, lambda A, B: (A[0], B[1]) if A[1] == B[0] and A[1] != EPS else None,
                   lambda A: (A[0], EPS) if A[1] == EPS else None,
                   lambda B: (EPS, B[1]) if B[0] == EPS else None)

def closure(f, S):
    S = set(S)
    todo = list(S)
    while todo:
        s = todo.pop()
        for i, o, w, t in f.arcs[s]:
            if i == EPS and o == EPS and t not in S:
                S.add(t)
                todo.append(t)
    return frozenset(S)

def determinize(f):
    """Unweighted subset construction on pairs; no eps:eps. Partial."""
    g = Fst(1)
    g.alpha = set(f.alpha)
    s0 = closure(f, [0])
    ids = {s0: 0}
    todo = [s0]
    while todo:
        S = todo.pop()
        n = ids[S]
        if any(s in f.fin for s in S):
            g.fin[n] = 0.0
        mv = {}
        for s in S:
            for i, o, w, t in f.arcs[s]:
                if not (i == EPS and o == EPS):
                    mv.setdefault((i, o), set()).add(t)
        for p in sorted(mv):
            T = closure(f, mv[p])
            if T not in ids:
                ids[T] = g.state()
                todo.append(T)
            g.arcs[n].append((p[0], p[1], 0.0, ids[T]))
    return g

def complement_pairs(f, pairs):
    """All sequences over `pairs` not accepted by f (unweighted)."""
    d = determinize(f)
    g = d.copy()
    sink = g.state()
    for s in range(g.n):
        have = {(i, o) for i, o, w, t in g.arcs[s]}
        for p in pairs:
            if p not in have:
                g.arcs[s].append((p[0], p[1], 0.0, sink))
    g.fin = {s: 0.0 for s in range(g.n) if s not in d.fin}
    return g

def used_pairs(f):
    return {(i, o) for a in f.arcs for i, o, w, t in a if not (i == EPS and o == EPS)}

def subtract(a, b):
    """Paths of a (with a's weights) that are not paths of b."""
    return intersect(a, complement_pairs(b, used_pairs(a) | used_pairs(b)))

def negate(f, U):
    return complement_pairs(f, {(x, x) for x in U} | {p for p in used_pairs(f)})

def cross(a, b):
    """a x b at the level of string pairs."""
    x = a.copy()
    x.arcs = [[(i, EPS, w, t) for i, o, w, t in r] for r in a.arcs]
    y = b.copy()
    y.arcs = [[(EPS, o, w, t) for i, o, w, t in r] for r in b.arcs]
    return concat(x, y)

def shuffle(a, b):
    return product(a, b, lambda A, B: None, lambda A: (A[0], A[1]), lambda B: (B[0], B[1]))

def id_fst(f, side):
    """Identity relation over the given side of f (string level), unweighted and epsilon handled as silent."""
    return unweight(project(f, side))

def restrict_inputs_not_in(b, dom, U):
    """Paths of b whose input string is not in the language of automaton dom."""
    comp = complement_pairs(dom, {(x, x) for x in U if x not in SPECIAL})
    return compose(comp, b)

def priority_union(a, b, U):
    return union(a, restrict_inputs_not_in(b, id_fst(a, 0), U))

def lenient(a, b, U):
    return priority_union(compose(a, b), a, U)

def trim(f):
    fw = {0}
    todo = [0]
    while todo:
        for i, o, w, t in f.arcs[todo.pop()]:
            if t not in fw:
                fw.add(t); todo.append(t)
    rev = {}
    for s, a in enumerate(f.arcs):
        for i, o, w, t in a:
            rev.setdefault(t, []).append(s)
    bw = set(f.fin)
    todo = list(bw)
    while todo:
        for p in rev.get(todo.pop(), ()):
            if p not in bw:
                bw.add(p); todo.append(p)
    keep = fw & bw
    if 0 not in keep:
        g = Fst(1)
        g.alpha = set(f.alpha)
        return g
    ids = {0: 0}
    for s in sorted(keep):
        ids.setdefault(s, len(ids))
    g = Fst(len(ids))
    g.alpha = set(f.alpha)
    for s in keep:
        g.arcs[ids[s]] = [(i, o, w, ids[t]) for i, o, w, t in f.arcs[s] if t in keep]
        if s in f.fin:
            g.fin[ids[s]] = f.fin[s]
    return g

def is_cyclic(f):
    """Does the trimmed machine have a cycle?"""
    f = trim(f)
    return not acyclic(f)

def acyclic(f):
    st = [0] * f.n
    for r in range(f.n):
        if st[r]:
            continue
        stack = [(r, iter(f.arcs[r]))]
        st[r] = 1
        while stack:
            s, it = stack[-1]
            for i, o, w, t in it:
                if st[t] == 1:
                    return False
                if st[t] == 0:
                    st[t] = 1
                    stack.append((t, iter(f.arcs[t])))
                    break
            else:
                st[s] = 2
                stack.pop()
    return True

# ---------------------------------------------------------------- comparison
def _wclosure(f, d):
    """eps:eps closure of {state: weight} (Dijkstra-like; weights may be negative on acyclic parts)."""
    todo = list(d)
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > 20000:
            break
        ws = d[s]
        for i, o, w, t in f.arcs[s]:
            if i == EPS and o == EPS:
                nw = ws + w
                if nw < d.get(t, INF) - 1e-9:
                    d[t] = nw
                    todo.append(t)
    return d

def _moves(f, d):
    mv = {}
    for s, ws in d.items():
        for i, o, w, t in f.arcs[s]:
            if i == EPS and o == EPS:
                continue
            m = mv.get((i, o))
            if m is None:
                m = mv[(i, o)] = {}
            nw = ws + w
            if nw < m.get(t, INF):
                m[t] = nw
    return mv

def _finw(f, d):
    b = INF
    for s, w in d.items():
        if s in f.fin and w + f.fin[s] < b:
            b = w + f.fin[s]
    return b

def coreach(f):
    rev = {}
    for s, a in enumerate(f.arcs):
        for i, o, w, t in a:
            rev.setdefault(t, []).append(s)
    bw = set(f.fin)
    todo = list(bw)
    while todo:
        for p in rev.get(todo.pop(), ()):
            if p not in bw:
                bw.add(p); todo.append(p)
    return bw

def diff_pairs(a, b, weights=True, cap=3000, tol=2e-3):
    """Compare as weighted sets of pair sequences. Returns None (no difference found) or (path, wa, wb).
    Exact unless more than cap joint states are met (then bounded by shortest paths first)."""
    a, b = trim(a), trim(b)
    if not weights:
        a, b = unweight(a), unweight(b)
    da = _wclosure(a, {0: 0.0}) if (a.fin) else {}
    db = _wclosure(b, {0: 0.0}) if (b.fin) else {}
    from collections import deque
    q = deque([((), da, db, 0.0)])
    seen = set()
    n = 0
    while q:
        path, da, db, off = q.popleft()
        fa, fb = _finw(a, da), _finw(b, db)
        if (fa == INF) != (fb == INF) or (fa != INF and abs(fa - fb) > tol):
            return path, fa + off if fa != INF else None, fb + off if fb != INF else None
        n += 1
        if n > cap:
            return None
        ma, mb = _moves(a, da), _moves(b, db)
        for p in sorted(set(ma) | set(mb)):
            na = _wclosure(a, ma[p]) if p in ma else {}
            nb = _wclosure(b, mb[p]) if p in mb else {}
            m = min(itertools.chain(na.values(), nb.values()))
            na = {s: w - m for s, w in na.items()}
            nb = {s: w - m for s, w in nb.items()}
            key = (frozenset((s, round(w, 3)) for s, w in na.items()), frozenset((s, round(w, 3)) for s, w in nb.items()))
            if key in seen:
                continue
            seen.add(key)
            q.append((path + (p,), na, nb, off + m))
    return None

def paths_pairs(f, maxlen, cap=4000):
    """{pair sequence: weight} of length <= maxlen; None if there are more than cap prefixes."""
    f = trim(f)
    out = {}
    q = [((), _wclosure(f, {0: 0.0}))] if f.fin else []
    n = 0
    while q:
        nq = []
        for path, d in q:
            n += 1
            if n > cap:
                return None
            w = _finw(f, d)
            if w != INF:
                out[path] = w
            if len(path) < maxlen:
                for p, m in _moves(f, d).items():
                    nq.append((path + (p,), _wclosure(f, m)))
        q = nq
    return out

def str_rel(f, maxin, maxout, cap=60000):
    """{(input string, output string): weight} with lengths bounded; epsilons dropped. None if too big."""
    f = trim(f)
    if not f.fin:
        return {}
    best = {(0, (), ()): 0.0}
    todo = [(0.0, 0, (), ())]
    out = {}
    n = 0
    while todo:
        w0, s, x, y = heapq.heappop(todo)
        k = (s, x, y)
        if w0 > best.get(k, INF) + 1e-9:
            continue
        n += 1
        if n > cap:
            return None
        if s in f.fin:
            v = w0 + f.fin[s]
            if v < out.get((x, y), INF):
                out[(x, y)] = v
        for i, o, w, t in f.arcs[s]:
            nx = x if i == EPS else x + (i,)
            ny = y if o == EPS else y + (o,)
            if len(nx) > maxin or len(ny) > maxout:
                continue
            nw = w0 + w
            k = (t, nx, ny)
            if nw < best.get(k, INF) - 1e-9:
                best[k] = nw
                heapq.heappush(todo, (nw, t, nx, ny))
    return out

def diff_strs(a, b, maxin=3, maxout=3, weights=True, tol=2e-3, cap=60000, skip=None):
    """Compare as weighted relations over strings, bounded. None or ((in,out), wa, wb).
    Returns None when too big to enumerate at the smallest bound."""
    while True:
        ra = str_rel(a, maxin, maxout, cap)
        rb = str_rel(b, maxin, maxout, cap) if ra is not None else None
        if ra is not None and rb is not None:
            break
        if maxin <= 1 and maxout <= 1:
            return None
        maxin, maxout = max(1, maxin - 1), max(1, maxout - 1)
    for k in sorted(set(ra) | set(rb), key=lambda k: (len(k[0]) + len(k[1]), k)):
        if skip and skip(k):
            continue
        x, y = ra.get(k), rb.get(k)
        if (x is None) != (y is None) or (weights and x is not None and abs(x - y) > tol):
            return k, x, y
    return None

def has_pos_path(f):
    return bool(trim(f).fin)

def lang_strings(f, side=0, maxlen=4, cap=4000):
    """Strings on one side up to maxlen."""
    r = str_rel(project(f, side), maxlen, maxlen, cap)
    return None if r is None else {k[0] for k in r}

def outputs(f, inp, maxout=8, cap=40000):
    """{output: weight} for one concrete input string (tuple of symbols) -- f must be wildcard-free."""
    return {y: w for (x, y), w in (str_rel(compose(string([(c, c) for c in inp]), f), len(inp), maxout, cap) or {}).items()}

# ---- flag diacritics (Beesley & Karttunen 2003, ch. 7)
import re as _re
FLAG = _re.compile(r"^@([PNRDCU])\.([^.@]+)(?:\.([^@]+))?@$")
def flag_parse(s):
    m = FLAG.match(s) if s[:1] == "@" else None
    return m.groups() if m else None

def flag_apply(v, op):
    """v: frozenset of (feature, positive?, value); op: (operator, feature, value or None) -> new v or None."""
    o, f, x = op
    cur = None
    for t in v:
        if t[0] == f:
            cur = t
    rest = v - {cur} if cur else v
    if o == "P":
        return rest | {(f, True, x)}
    if o == "N":
        return rest | {(f, False, x)}
    if o == "C":
        return rest
    if o == "R":
        ok = cur is not None if x is None else cur == (f, True, x)
        return v if ok else None
    if o == "D":
        ok = cur is None if x is None else cur != (f, True, x)
        return v if ok else None
    if o == "U":
        if cur is None or cur == (f, True, x) or (not cur[1] and cur[2] != x):
            return rest | {(f, True, x)}
        return None

def flags_valid(syms):
    v = frozenset()
    for s in syms:
        op = flag_parse(s)
        if op:
            v = flag_apply(v, op)
            if v is None:
                return False
    return True

def lookup(f, inp, obey=True, cap=4000, unk_out=None):
    """All runs of f over the token list inp. -> (runs, infinite, loops): runs is a list of (weight, ((i, o), ...)) with
    concrete symbols, flags kept; infinite: an epsilon loop on an accepting path; loops: one anywhere. None if more than cap."""
    alpha = f.symbols() | f.alpha
    start = (0, 0, frozenset())
    g = {}
    st = [start]
    while st:
        c = st.pop()
        if c in g:
            continue
        if len(g) > cap:
            return None
        s, p, v = c
        es = g[c] = []
        for i, o, w, t in f.arcs[s]:
            fo = flag_parse(i)
            if i == EPS:
                es.append(((t, p, v), (i, o), w))
            elif fo:
                if not obey:
                    es.append(((t, p, v), (i, o), w))
                else:
                    nv = flag_apply(v, fo)
                    if nv is not None:
                        es.append(((t, p, nv), (i, o), w))
            elif p < len(inp):
                x = inp[p]
                if i == x or (i in (UNK, IDN) and x not in alpha):
                    oo = x if o == IDN or (o == UNK and unk_out is None) else unk_out if o == UNK else o
                    es.append(((t, p + 1, v), (x, oo), w))
        for e in es:
            st.append(e[0])
    fin = {c for c in g if c[1] == len(inp) and c[0] in f.fin}
    rev = {}
    for c, es in g.items():
        for e in es:
            rev.setdefault(e[0], []).append(c)
    co = set()
    st = list(fin)
    while st:
        c = st.pop()
        if c in co:
            continue
        co.add(c)
        st += rev.get(c, [])
    def cyc(nodes):
        indeg = {c: 0 for c in nodes}
        for c in nodes:
            for e in g[c]:
                if e[0] in indeg:
                    indeg[e[0]] += 1
        q = [c for c in indeg if not indeg[c]]
        n = 0
        while q:
            c = q.pop()
            n += 1
            for e in g[c]:
                if e[0] in indeg:
                    indeg[e[0]] -= 1
                    if not indeg[e[0]]:
                        q.append(e[0])
        return n < len(indeg)
    loops = cyc(set(g))
    inf = loops and cyc(co)
    if inf:
        return [], True, True
    runs = []
    if start in co:
        st = [(start, (), 0.0)]
        n = 0
        while st:
            c, ps, w = st.pop()
            n += 1
            if n > 20 * cap:
                return None
            if c in fin:
                runs.append((w + f.fin[c[0]], ps))
            for t, pr, x in g[c]:
                if t in co:
                    st.append((t, ps + (pr,), w + x))
    return runs, False, loops

def tokenize(s, alpha):
    """Greedy longest match of the alphabet, else one character."""
    out = []
    k = 0
    ss = sorted((x for x in alpha if not x.startswith("@_") and x), key=lambda x: -len(x.encode("utf-8", "surrogateescape")))
    while k < len(s):
        for x in ss:
            if s.startswith(x, k):
                out.append(x)
                k += len(x)
                break
        else:
            out.append(s[k])
            k += 1
    return out

def flag_expand(f, feature=None):
    """The relation of the flag-obeying paths; flags (of the feature only, if given) become epsilons."""
    g = Fst(1)
    g.alpha = {x for x in f.alpha | f.symbols() if not (flag_parse(x) and (feature is None or flag_parse(x)[1] == feature))}
    idx = {(0, frozenset()): 0}
    st = [(0, frozenset())]
    while st:
        c = st.pop()
        s, v = c
        a = idx[c]
        if s in f.fin:
            g.fin[a] = f.fin[s]
        for i, o, w, t in f.arcs[s]:
            fo = flag_parse(i)
            nv, ii, oo = v, i, o
            if fo and (feature is None or fo[1] == feature):
                nv = flag_apply(v, fo)
                if nv is None:
                    continue
                ii = oo = EPS
            d = (t, nv)
            if d not in idx:
                if len(idx) > 3000:
                    return None
                idx[d] = g.state()
                st.append(d)
            g.add(a, idx[d], ii, oo, w)
    return g
