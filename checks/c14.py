"""C14: replace and restriction rules, judged string by string against the rules' declarative definitions."""
import ref, gen, itertools
from ref import EPS, UNK, IDN, Fst, FRESH
from drv import Case
from chk import Check
import c13

B = ".#."
N = 4
import os
WILD = bool(int(os.environ.get("C14W","1")))
LOWER = bool(int(os.environ.get("C14L","1")))

class Lang:
    """A regular language given by a c13 tree, as the set of its strings up to N+2 over U (and the boundary)."""
    def __init__(self, tree, ev, n):
        f = ev.ev(tree)
        self.s = ref.lang_strings(f, 0, n, 20000)
        if self.s is None:
            raise c13.TooBig()

def small(rng, syms, d=2, eps=False, wild=False, inf=True):
    """A tree for a small language without the empty string (unless eps)."""
    def sym():
        if wild and rng.random() < 0.15:
            return ("any",) if rng.random() < 0.6 else ("tneg", ("sym", rng.choice(syms)))
        return ("sym", rng.choice(syms))
    def g(d):
        x = rng.random()
        if d <= 0 or x < 0.35:
            return sym()
        if x < 0.6:
            return ("cat", g(d - 1), g(d - 1))
        if x < 0.8:
            return ("union", g(d - 1), g(d - 1))
        if x < 0.88 and inf:
            return ("plus", g(d - 1))
        if x < 0.94 or not inf:
            return ("cat", g(d - 1), ("opt", g(d - 1)))
        return ("cat", g(d - 1), ("star", g(d - 1)))
    t = g(d)
    if eps and rng.random() < 0.3:
        return rng.choice([("opt", t), ("eps",), ("eps",)])
    return t

class Oracle:
    """rules: [(mappings, contexts, ctype)], mapping = (upper set, lower dict string->weight or ('mark', pre, post)), contexts [(L,R)]"""
    def __init__(self, rules):
        self.rules = rules
        self.lower = any(r[1] and r[2] != "||" for r in rules)
    def left_ok(self, L, s):
        s = (B,) + s
        return any(s[k:] in L for k in range(len(s) + 1))
    def right_ok(self, R, s):
        s = s + (B,)
        return any(s[:k] in R for k in range(len(s) + 1))
    def ctx(self, rule, lu, ru, ll, rl):
        m, cs, ct = rule
        if not cs:
            return True
        for L, R in cs:
            if self.left_ok(L, ll if ct in ("//", "\\/") else lu) and self.right_ok(R, rl if ct in ("\\\\", "\\/") else ru):
                return True
        return False
    def lows(self, mp, u):
        if mp[1][0] == "mark":
            return {mp[1][1] + u + mp[1][2]: 0.0}
        return mp[1][1]
    def outputs(self, x, obligatory, cap=20000):
        """{output: weight} of -> or (->)."""
        n = len(x)
        res = {}
        cnt = 0
        self.cand = []
        # every factorization: list of segments (i, j, rule or None, output)
        def walk(i, segs, w):
            nonlocal cnt
            cnt += 1
            if cnt > cap:
                raise c13.TooBig()
            if i == n:
                self.check(x, segs, w, obligatory, res)
                return
            walk(i + 1, segs + [(i, i + 1, None, (x[i],))], w)
            for rule in self.rules:
                for mp in rule[0]:
                    for j in range(i + 1, n + 1):
                        u = x[i:j]
                        if u in mp[0]:
                            for y, v in self.lows(mp, u).items():
                                walk(j, segs + [(i, j, rule, y)], w + v)
        walk(0, [], 0.0)
        return res
    def alternative(self):
        """The other reading of obligatory replacement in lower contexts: no valid way to replace strictly more."""
        sets = {b for b, _ in self.cand}
        top = {b for b in sets if not any(b < o for o in sets)}
        return {y for b, y in self.cand if b in top}
    def check(self, x, segs, w, obligatory, res):
        y = ()
        pos = []
        for s in segs:
            pos.append(len(y))
            y += s[3]
        for s, p in zip(segs, pos):
            if s[2] is not None:
                if not self.ctx(s[2], x[:s[0]], x[s[1]:], y[:p], y[p + len(s[3]):]):
                    return
        if obligatory and self.lower:
            self.cand.append((frozenset((s[0], s[1]) for s in segs if s[2] is not None), y))
        if obligatory:
            k = 0
            while k < len(segs):
                if segs[k][2] is not None:
                    k += 1
                    continue
                e = k
                while e < len(segs) and segs[e][2] is None:
                    e += 1
                for a in range(k, e):
                    for b in range(a + 1, e + 1):
                        u = x[segs[a][0]:segs[b - 1][1]]
                        pb = pos[b] if b < len(segs) else len(y)
                        for rule in self.rules:
                            if any(u in mp[0] for mp in rule[0]) and self.ctx(rule, x[:segs[a][0]], x[segs[b - 1][1]:], y[:pos[a]], y[pb:]):
                                return
                k = e
        if w < res.get(y, ref.INF):
            res[y] = w
    def directed(self, x, longest, left):
        """Leftmost/rightmost longest/shortest match; upper contexts."""
        n = len(x)
        out = {(): 0.0}
        i = 0 if left else n
        while (i < n) if left else (i > 0):
            c = []
            for rule in self.rules:
                for mp in rule[0]:
                    for j in (range(i + 1, n + 1) if left else range(i)):
                        a, b = (i, j) if left else (j, i)
                        if x[a:b] in mp[0] and self.ctx(rule, x[:a], x[b:], (), ()):
                            c.append((b - a, mp, x[a:b]))
            if c:
                k = (max if longest else min)(z[0] for z in c)
                ys = {}
                for z, mp, u in c:
                    if z == k:
                        for y, v in self.lows(mp, u).items():
                            ys[y] = min(v, ys.get(y, ref.INF))
            else:
                k = 1
                ys = {(x[i:i + 1] if left else x[i - 1:i]): 0.0}
            new = {}
            for o, v in out.items():
                for y, w in ys.items():
                    z = o + y if left else y + o
                    new[z] = min(v + w, new.get(z, ref.INF))
            out = new
            i += k if left else -k
        return out

ARROWS = {"->": 4, "(->)": 2, "<-": 1, "(<-)": 1, "@->": 3, "@>": 2, "->@": 2, ">@": 2}

class C(Check):
    id = "C14"
    quick = (48, 14)
    thorough = (2000, 30)
    hang_is_violation = False      # rule compilation may legitimately blow up
    rule = ("Random replace rules (8 arrows, 1-3 parallel parts with 1-2 mappings, markup, epenthesis, weights, 0-2 contexts of the 4 kinds, word boundaries), restrictions and two-level rules, compiled by the real code. "
            "The monitor computes from the definition, for every input string up to length 4 over the rule's symbols and one unknown symbol, the exact set of outputs. Non-trivial: some input is changed and some is not.")

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        ty = D["ty"] = rng.choice(["tropical", "tropical", "tropical", "sfst", "foma"])
        syms = rng.choice([["a", "b"], ["a", "b"], ["a", "b", "c"], ["a", "bb"], ["\u00e4", "b"], ["a", "b", "+"]])
        D["syms"] = syms
        D["kind"] = kind = rng.choice(["rep"] * 8 + ["epen"] * 2 + ["restr"] * 2)
        D["w"] = w = ty == "tropical" and rng.random() < 0.3
        P = c13.Printer(rng, False)
        c.cmd("xre", "X", ty)
        getattr(self, "g_" + kind)(rng, c, D, syms, P)
        return c

    def g_ctx(self, rng, syms, P):
        def side(left):
            x = rng.random()
            if x < 0.25:
                return None
            if x < 0.4:
                return ("sym", B)
            t = small(rng, syms, rng.choice([0, 0, 1, 1, 2]))
            if x < 0.5:
                return ("cat", ("sym", B), t) if left else ("cat", t, ("sym", B))
            if x < 0.56:
                return ("union", ("sym", B), t)
            return t
        return side(True), side(False)

    def ptree(self, P, t):
        """Text with .#. left bare."""
        lit = P.lit
        P.lit = lambda s: B if s == B else lit(s)
        r = P.at(t, 6)
        P.lit = lit
        return r

    def g_rep(self, rng, c, D, syms, P):
        arrow = D["arrow"] = rng.choices(list(ARROWS), list(ARROWS.values()))[0]
        directed = "@" in arrow
        parts, rules = [], []
        ctype = rng.choice(["||"] * 4 + ["//", "\\\\", "\\/"]) if LOWER and not directed else "||"
        import os
        mp = int(os.environ.get("C14P", "3"))
        for _ in range(rng.choice([1, 1, 1, 2, 3][:mp])):
            ms, mt = [], []
            for _ in range(rng.choice([1, 1, 1, 2][:mp+1])):
                u = small(rng, syms, rng.choice([0, 1, 1, 2]), wild=WILD, inf="<" not in arrow)
                x = rng.random()
                if x < 0.12 and "<" not in arrow:
                    pre, post = rng.choice([("[",), (), ("x", "y"), (syms[0],)]), rng.choice([("]",), (), (syms[-1],)])
                    if not pre and not post:
                        pre = ("[",)
                    q = lambda t: " ".join(P.lit(z) for z in t)
                    ms.append((u, ("mark", pre, post)))
                    mt.append("%s %s %s ... %s" % (self.ptree(P, u), arrow, q(pre), q(post)))
                else:
                    outs = {}
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        y = tuple(rng.choice(syms + ["x", "y"]) for _ in range(rng.choice([0, 1, 1, 1, 2])))
                        if "<" in arrow and not y:
                            y = ("x",)
                        outs[y] = rng.choice([0.0, 1.0, 2.0, 0.5]) if D["w"] else 0.0
                    l = " | ".join(("[%s]::%g" % (" ".join(P.lit(z) for z in y) or "0", v)) if v else (" ".join(P.lit(z) for z in y) or "0") for y, v in outs.items())
                    if len(outs) > 1:
                        l = "[" + l + "]"
                    ms.append((u, ("low", outs)))
                    mt.append("%s %s %s" % (self.ptree(P, u), arrow, l))
            cs = []
            t = " , ".join(mt)
            if rng.random() < 0.55:
                cs = [self.g_ctx(rng, syms, P) for _ in range(rng.choice([1, 1, 2]))]
                t += " %s " % ctype + " , ".join("%s _ %s" % (self.ptree(P, l) if l else "", self.ptree(P, r) if r else "") for l, r in cs)
            parts.append(t)
            rules.append((ms, cs, ctype))
        D["rules"] = rules
        D["txt"] = " ,, ".join(parts)
        D["r"] = c.cmd("xre_compile", "r", "X", D["txt"])
        D["res"] = c.cmd("dump", "r")

    def g_epen(self, rng, c, D, syms, P):
        D["arrow"] = arrow = rng.choice(["->", "->", "(->)"])
        outs = {}
        for _ in range(rng.choice([1, 1, 2])):
            outs[tuple(rng.choice(syms + ["x"]) for _ in range(rng.choice([1, 1, 2])))] = 0.0
        cs = [self.g_ctx(rng, syms, P) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        l = " | ".join(" ".join(P.lit(z) for z in y) for y in outs)
        D["txt"] = "[..] %s %s" % (arrow, "[%s]" % l if len(outs) > 1 else l)
        if cs:
            D["txt"] += " || " + " , ".join("%s _ %s" % (self.ptree(P, l) if l else "", self.ptree(P, r) if r else "") for l, r in cs)
        D["outs"], D["cs"] = outs, cs
        D["r"] = c.cmd("xre_compile", "r", "X", D["txt"])
        D["res"] = c.cmd("dump", "r")

    def g_restr(self, rng, c, D, syms, P):
        u = small(rng, syms, rng.choice([0, 1, 1, 2]), wild=WILD)
        cs = [self.g_ctx(rng, syms, P) for _ in range(rng.choice([1, 1, 2]))]
        cs = [x for x in cs if x[0] or x[1]] or [(("sym", syms[0]), None)]
        D["txt"] = "%s => %s" % (self.ptree(P, u), " , ".join("%s _ %s" % (self.ptree(P, l) if l else "", self.ptree(P, r) if r else "") for l, r in cs))
        D["u"], D["cs"] = u, cs
        D["r"] = c.cmd("xre_compile", "r", "X", D["txt"])
        D["res"] = c.cmd("dump", "r")

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        syms = d["syms"]
        feat = [d["kind"], d.get("arrow", "")]
        if d["kind"] == "rep":
            feat += ["par" if len(d["rules"]) > 1 else "", "multi" if any(len(r[0]) > 1 for r in d["rules"]) else "", d["rules"][0][2] if any(r[1] for r in d["rules"]) else "", "mark" if any(m[1][0] == "mark" for r in d["rules"] for m in r[0]) else ""]
        elif d["kind"] == "epen":
            feat += ["ctx" if d["cs"] else ""]
        def bad(k, m):
            rep.bad("%s: %s [%s]" % (k, " ".join(x for x in feat if x), ty), d["txt"] + "\n" + m, c.text())
        o = out[d["r"]]
        if o.exc or not o.bool():
            return bad("refused", "%r %r" % (o.exc, o.dump()))
        g = out[d["res"]].fst()
        sig = set(syms) | {FRESH + "0"}
        U = sig | {"x", "y", "[", "]"}
        try:
            self.cmp(d, ty, g, sorted(sig), U, rep, bad)
        except c13.TooBig:
            rep.inc("too_big")

    def cmp(self, d, ty, g, sig, U, rep, bad):
        n = N if len(sig) <= 3 else 3
        ev = c13.Eval(U, {}, {})
        evb = c13.Eval(U, {}, {})       # contexts: the boundary is no ordinary symbol
        L = lambda t: Lang(t, ev, n + 1).s
        def C(t):
            return {()} if t is None else Lang(t, evb, n + 3).s
        inv = "<-" in d.get("arrow", "")
        G = ref.expand(g, U | (g.alpha - ref.SPECIAL))
        if inv:
            G = ref.invert(G)
        G = ref.trim(G)
        changed = kept = 0
        w = d["w"]
        if d["kind"] == "rep":
            arrow = d["arrow"]
            if inv:
                rules = []
                for ms, cs, ct in d["rules"]:
                    mm = []
                    for u, (k, outs) in ms:
                        lu = L(u)
                        if len(lu) > 40 or any(len(y) > n for y in lu):
                            raise c13.TooBig()
                        mm.append((set(outs), ("low", {y: 0.0 for y in lu})))
                    rules.append((mm, [(C(l), C(r)) for l, r in cs], ct))
                w = False
            else:
                rules = [([(L(u), m) for u, m in ms], [(C(l), C(r)) for l, r in cs], ct) for ms, cs, ct in d["rules"]]
            O = Oracle(rules)
        elif d["kind"] == "epen":
            cs = [(C(l), C(r)) for l, r in d["cs"]]
            O = Oracle([])
        else:
            Us = L(d["u"])
            cs = [(C(l), C(r)) for l, r in d["cs"]]
            O = Oracle([])
        def strings():
            for k in range(n + 1):
                yield from itertools.product(sig, repeat=k)
        for x in strings():
            if d["kind"] == "rep":
                a = d["arrow"]
                if a in ("->", "<-", "(->)", "(<-)"):
                    exp = O.outputs(x, "(" not in a)
                else:
                    exp = O.directed(x, a in ("@->", "->@"), a[0] == "@")
            elif d["kind"] == "epen":
                exp = {(): 0.0}
                for i in range(len(x) + 1):
                    ok = not cs or any(O.left_ok(l, x[:i]) and O.right_ok(r, x[i:]) for l, r in cs)
                    ins = (list(d["outs"]) if ok else [()]) + ([()] if ok and d["arrow"] == "(->)" else [])
                    exp = {y + z + x[i:i + 1]: 0.0 for y in exp for z in ins}
            else:
                ok = True
                for i in range(len(x)):
                    for j in range(i + 1, len(x) + 1):
                        if x[i:j] in Us and not any(O.left_ok(l, x[:i]) and O.right_ok(r, x[j:]) for l, r in cs):
                            ok = False
                exp = {x: 0.0} if ok else {}
            M = max([len(y) for y in exp] + [len(x)]) + 1
            if M > 14 or len(exp) > 3000:
                continue
            got = ref.outputs(G, x, M)
            rep.evals += 1
            if set(exp) != {x}:
                changed = 1
            else:
                kept = 1
            loose = set()
            if d["kind"] == "rep" and O.lower and a in ("->", "<-"):
                alt = O.alternative()
                loose = alt ^ set(exp)
                rep.inc("lower_ambiguous", bool(loose))
            if set(got) - loose != set(exp) - loose:
                return bad("outputs", "input %r\nmissing %r\nextra %r\nexpected %r" % (x, sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3], sorted(exp)[:6]))
            if w:
                for y in set(exp) - loose:
                    if abs(exp[y] - got[y]) > 2e-3:
                        return bad("weight", "input %r output %r: %r instead of %r" % (x, y, got[y], exp[y]))
        rep.ok(d["txt"] if changed and kept else None)
        rep.inc(d["kind"] + d.get("arrow", ""))

CHECK = C()
