"""C17: two-level grammars."""
import ref, gen, itertools
from ref import EPS
from drv import Case
from chk import Check

WB = "@#@"
SYM = ["a", "b", "c", "x", "y"]
RARE = ["\u00e4", "%+", "aa", "B1", "7", "%0", "% "]
un = lambda s: s.replace("%", "") if s != "%%" else "%"

class Empty(Exception):
    pass

class G:
    """A grammar and its meaning."""
    def __init__(self):
        self.alpha, self.sets, self.defs, self.rules, self.dia = [], {}, {}, [], []
    # --- pairs
    def feasible(self):
        F = set(self.alpha)
        def rec(r):
            if r[0] == "p":
                x, y = r[1], r[2]
                if all(z not in self.sets and z != "?" and z != ".#." for z in (x, y)) and x not in self.dia:
                    F.add((x, y))
            for z in r[1:]:
                if isinstance(z, tuple):
                    rec(z)
        for d in self.defs.values():
            rec(d)
        for r in self.rules:
            for s in r["sub"]:
                for c in s["center"]:
                    rec(c)
                for l, q in s["pos"] + s["neg"]:
                    rec(l); rec(q)
        self.F = F
    def members(self, x):
        return self.sets.get(x) or [x]
    def pairs(self, x, y):
        """None: any pair."""
        if x == ".#.":
            return {WB}
        if x in self.dia:
            return {(x, "0")}
        if x == "?" and y == "?":
            return None
        X, Y = self.members(x), self.members(y)
        return {p for p in self.F if (x == "?" or p[0] in X) and (y == "?" or p[1] in Y)}
    # --- matching: end positions
    def match(self, r, w, i, memo):
        k = (id(r), i)
        v = memo.get(k)
        if v is None:
            v = memo[k] = frozenset(self._match(r, w, i, memo))
        return v
    def _match(self, r, w, i, memo):
        m = lambda q, j: self.match(q, w, j, memo)
        t = r[0]
        n = len(w)
        if t == "e":
            return {i}
        if t == "p":
            if r[1] == r[2] == "0":
                return {i}
            if i == n:
                return ()
            P = self.pairs(r[1], r[2])
            return {i + 1} if P is None or w[i] in P else ()
        if t == "def":
            return m(self.defs[r[1]], i)
        if t == "cat":
            return {k for j in m(r[1], i) for k in m(r[2], j)}
        if t == "|":
            return m(r[1], i) | m(r[2], i)
        if t == "&":
            return m(r[1], i) & m(r[2], i)
        if t == "-":
            return m(r[1], i) - m(r[2], i)
        if t == "opt":
            return m(r[1], i) | {i}
        if t in ("*", "+"):
            S, todo = set(), [i]
            seen = {i}
            while todo:
                for k in m(r[1], todo.pop()):
                    S.add(k)
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            return S | ({i} if t == "*" else set())
        if t == "^":
            lo, hi = r[2], r[3]
            cur, S = {i}, {i} if lo == 0 else set()
            for k in range(1, hi + 1):
                cur = {y for x in cur for y in m(r[1], x)}
                if k >= lo:
                    S |= cur
            return S
        if t == "~":
            return set(range(i, n + 1)) - m(r[1], i)
        if t == "\\":
            return {i + 1} - m(r[1], i) if i < n else ()
        if t == "$":
            lo = [k for j in range(i, n + 1) for k in m(r[1], j)]
            return set(range(min(lo), n + 1)) if lo else ()
        if t == "$.":
            # the operand matches single pairs only
            S, c = set(), 0
            for j in range(i, n + 1):
                if c == 1:
                    S.add(j)
                if j < n and j + 1 in m(r[1], j):
                    c += 1
            return S
        if t == "/":
            # pairs matched by the second operand may be left out
            S = set()
            for j in range(i, n + 1):
                opt = [k for k in range(i, j) if k + 1 in m(r[2], k)]
                done = False
                for z in range(1 << len(opt)):
                    drop = {opt[b] for b in range(len(opt)) if z >> b & 1}
                    v = [w[k] for k in range(i, j) if k not in drop]
                    if len(v) in self.match(r[1], v, 0, {}):
                        S.add(j)
                        break
            return S
        raise KeyError(t)
    def check_empty(self, r):
        if r[0] == "p" and not (r[1] == r[2] == "0") and r[1] != ".#.":
            P = self.pairs(r[1], r[2])
            if P is not None and not P:
                raise Empty
        for z in r[1:]:
            if isinstance(z, tuple):
                self.check_empty(z)
    def mentions(self, r):
        S = set()
        if r[0] == "p" and r[1] in self.dia:
            S.add(r[1])
        if r[0] == "def":
            S |= self.mentions(self.defs[r[1]])
        for z in r[1:]:
            if isinstance(z, tuple):
                S |= self.mentions(z)
        return S
    # --- rules
    def compile(self, res_left, res_right):
        self.feasible()
        for d in self.defs.values():
            self.check_empty(d)
        units = {}
        cons = []
        joined = {}
        lefts = []
        for r in self.rules:
            u = units.setdefault(r["name"], set())
            for s in r["sub"]:
                for l, q in s["pos"] + s["neg"]:
                    self.check_empty(l); self.check_empty(q)
                    if l is not s.get("hidden"):
                        u |= self.mentions(l) | self.mentions(q)
                cx = [(s["pos"], s["neg"])]
                op = r["op"]
                if r["re"]:
                    self.check_empty(s["center"][0])
                    u |= self.mentions(s["center"][0])
                    ops = {"<==>": ("==>", "<==")}.get(op, (op,))
                    cons += [[r["name"], o, s["center"][0], list(cx), []] for o in ops]
                    continue
                ps = []
                for c in s["center"]:
                    ps += sorted(self.pairs(c[1], c[2]))
                for p in ps:
                    if op in ("=>", "<=>"):
                        if res_right and p in joined:
                            joined[p][3].extend(cx)
                            units[joined[p][0]] |= {d for l, q in s["pos"] + s["neg"] for d in self.mentions(l) | self.mentions(q)}
                        else:
                            joined[p] = [r["name"], "=>", p, list(cx), []]
                            cons.append(joined[p])
                    if op in ("<=", "<=>"):
                        x = [r["name"], "<=", p, list(cx), [], r.get("special")]
                        if res_left:
                            for o in lefts:
                                if o[2][0] == p[0] and r.get("special") and o[5]:
                                    # one of them is special
                                    if o[5] == "general":
                                        o[4].append(x)
                                    else:
                                        x[4].append(o)
                        lefts.append(x)
                        cons.append(x)
                    if op == "/<=":
                        cons.append([r["name"], "/<=", p, list(cx), []])
        self.units, self.cons = units, cons
    def ctx(self, c, w, i, j, memo):
        for pos, neg in c:
            if any(self.in_ctx(x, w, i, j, memo) for x in pos) and not any(self.in_ctx(x, w, i, j, memo) for x in neg):
                return True
        return False
    def in_ctx(self, x, w, i, j, memo):
        return bool(self.match(x[1], w, j, memo)) and any(i in self.match(x[0], w, k, memo) for k in range(i + 1))
    def accepts(self, w):
        known = {s for p in self.F for s in p} | set(self.dia) - {"0"}
        for p in w:
            if p == WB or p in self.F or (p[0] in self.dia and p[1] == "0") or (p[0] == p[1] and p[0] not in known):
                continue
            return False
        for con in self.cons:
            if not self.sat(con, w):
                return False
        return True
    def sat(self, con, w):
        men = self.units[con[0]]
        w = [WB] + [p for p in w if p == WB or p[0] not in self.dia or p[0] in men] + [WB]
        memo = {}
        n = len(w)
        op, C = con[1], con[2]
        if op in ("==>", "<==", "/<=="):
            for i in range(n + 1):
                E = self.match(C, w, i, memo)
                for j in range(i, n + 1):
                    if op == "==>" and j in E and not self.ctx(con[3], w, i, j, memo):
                        return False
                    if op == "/<==" and j in E and self.ctx(con[3], w, i, j, memo):
                        return False
                    if op == "<==" and j not in E and self.upper(C, w, i, j) and self.ctx(con[3], w, i, j, memo):
                        return False
            return True
        for i in range(n + 1):
            here = i < n and w[i] == C
            if op == "=>" and here and not self.ctx(con[3], w, i, i + 1, memo):
                return False
            if op == "/<=" and here and self.ctx(con[3], w, i, i + 1, memo):
                return False
            if op == "<=":
                for j in (i, i + 1):
                    if j == i:
                        if C[0] != "0":
                            continue
                    elif not (i < n and w[i] != WB and w[i][0] == C[0] and not here):
                        continue
                    if self.ctx(con[3], w, i, j, memo) and not any(self.ctx(o[3], w, i, j, memo) for o in con[4]):
                        return False
        return True
    def upper(self, C, w, i, j):
        """Has w[i:j] the input side of a member of C?  (C is a finite list of strings.)"""
        s = w[i:j]
        for c in self.finite(C):
            st = {0}
            for p in c:
                nx = set()
                for k in st:
                    if p[0] == "0":
                        nx.add(k)
                    if k < len(s) and s[k] != WB and s[k][0] == p[0]:
                        nx.add(k + 1)
                st = nx
            if len(s) in st:
                return True
        return False
    def finite(self, r):
        t = r[0]
        if t == "e":
            return [()]
        if t == "p":
            return [(p,) for p in self.pairs(r[1], r[2])]
        if t == "cat":
            return [a + b for a in self.finite(r[1]) for b in self.finite(r[2])]
        if t == "|":
            return self.finite(r[1]) + self.finite(r[2])
        raise KeyError(t)

def text(r):
    t = r[0]
    if t == "e":
        return "[ ]"
    if t == "p":
        x, y = r[1], r[2]
        if x == ".#.":
            return ".#."
        if len(r) > 3:
            return r[3]
        if x == "?" and y == "?":
            return "?"
        if x == "?":
            return ":" + y
        if y == "?":
            return x + ":"
        return x + ":" + y
    if t == "def":
        return r[1]
    if t == "cat":
        return "[ %s %s ]" % (text(r[1]), text(r[2]))
    if t in "|&-/":
        return "[ %s %s %s ]" % (text(r[1]), t, text(r[2]))
    if t == "opt":
        return "( %s )" % text(r[1])
    if t in "*+":
        return "[ %s ]%s" % (text(r[1]), t)
    if t == "^":
        return "[ %s ]^%s" % (text(r[1]), r[2] if r[2] == r[3] else "%d,%d" % r[2:4])
    if t in ("~", "\\", "$", "$."):
        return "%s[ %s ]" % (t, text(r[1]))
    raise KeyError(t)

def subst(r, v):
    if r[0] == "p":
        return ("p", v.get(r[1], r[1]), v.get(r[2], r[2])) + tuple(r[3:])
    return tuple(subst(z, v) if isinstance(z, tuple) else z for z in r)

class C(Check):
    id = "C17"
    quick = (48, 10)
    thorough = (1000, 30)
    cpu = 60
    rule = ("Random two-level grammars with alphabets, diacritics, sets, definitions, every rule operator with pair, set and regular expression centres, several and negative contexts with all regular operators, variables in free, matched and mixed blocks, and left and right conflict resolution; "
            "the joint acceptance by the compiled rules of all short and of random and context-guided longer pair strings, with word boundaries, undeclared symbols and undeclared pairs, is compared with a direct evaluation of each rule's definition on the string. "
            "Non-trivial: some string over declared pairs is accepted and some is rejected.")
    assumptions = ["centres of <= rules map each input symbol once", "zeros and diacritics only where their meaning is documented"]

    def pairof(self, rng, g, voc, vars=()):
        x = rng.random()
        sy = lambda: rng.choice(voc)
        if vars and x < 0.35:
            v = rng.choice(vars)
            return rng.choice([("p", v, v, v), ("p", v, v, v), ("p", "?", v), ("p", v, "?"), ("p", v, rng.choice(vars))])
        if g.sets and x < 0.5:
            s = rng.choice(sorted(g.sets))
            return rng.choice([("p", s, s, s), ("p", s, "?"), ("p", "?", s), ("p", s, sy()), ("p", sy(), s), ("p", s, rng.choice(sorted(g.sets)))])
        if x < 0.7:
            s = sy()
            return ("p", s, s, s)
        if x < 0.78:
            return ("p", sy(), "?")
        if x < 0.86:
            return ("p", "?", sy())
        if x < 0.9 and g.alpha:
            return ("p",) + rng.choice(g.alpha)
        if x < 0.93:
            return ("p", "?", "?", rng.choice(["?", ":", "?:?"]))
        if x < 0.95:
            return ("p", "?", "0")
        if x < 0.97:
            return ("p", "0", "?")
        return ("p", sy(), sy())
    def re(self, rng, g, voc, d, vars=(), defs=(), dia=True):
        x = rng.random()
        if d <= 0 or x < 0.35:
            if defs and rng.random() < 0.3:
                return ("def", rng.choice(sorted(defs)))
            if g.dia and dia and rng.random() < 0.15:
                z = rng.choice(g.dia)
                return rng.choice([("p", z, z, z), ("p", z, "?"), ("p", z, "0")])
            return self.pairof(rng, g, voc, vars)
        a = lambda: self.re(rng, g, voc, d - 1, vars, defs, dia)
        if x < 0.6:
            return ("cat", a(), a())
        if x < 0.7:
            return ("|", a(), a())
        if x < 0.73:
            b = lambda: self.re(rng, g, voc, d - 1, vars, [z for z in defs if not g.mentions(defs[z])] and {z: defs[z] for z in defs if not g.mentions(defs[z])}, False)
            return (rng.choice("&-"), b(), b())
        if x < 0.78:
            return ("opt", a())
        if x < 0.85:
            return (rng.choice("*+"), a())
        if x < 0.88:
            n = rng.choice([1, 2])
            return ("^", a(), n, n) if rng.random() < 0.5 else ("^", a(), n - 1, n + rng.choice([0, 1]))
        if x < 0.91:
            return ("~", a())
        if x < 0.95:
            return ("\\", self.pairof(rng, g, voc, vars) if rng.random() < 0.7 else ("|", self.pairof(rng, g, voc, vars), self.pairof(rng, g, voc, vars)))
        if x < 0.98:
            return ("$", a())
        if x < 0.99:
            return ("$.", self.pairof(rng, g, voc, vars))
        return ("/", self.re(rng, g, voc, d - 1, vars, defs, False), self.pairof(rng, g, voc, vars))
    def side(self, rng, g, voc, left, vars=(), defs=()):
        x = rng.random()
        if x < 0.2:
            return ("e",)
        r = self.re(rng, g, voc, rng.choice([0, 1, 1, 2, 3]), vars, defs)
        if rng.random() < 0.15:
            r = ("cat", ("p", ".#.", ".#."), r) if left else ("cat", r, ("p", ".#.", ".#."))
        return r
    def stext(self, r):
        t = text(r)
        return "" if r[0] == "e" else t[2:-2] if r[0] in ("cat",) else t

    def gen(self, rng, k, rep):
        g = G()
        voc = rng.sample(SYM, rng.choice([3, 4, 5]))
        if rng.random() < 0.3:
            voc[-1] = rng.choice(RARE)
        for s in voc:
            if rng.random() < 0.85:
                g.alpha.append((s, s))
        for _ in range(rng.choice([0, 1, 2, 3])):
            g.alpha.append(rng.choice([(rng.choice(voc), rng.choice(voc)), (rng.choice(voc), "0"), ("0", rng.choice(voc))]))
        L = ["Alphabet"] + [x if x == y else x + ":" + y for x, y in g.alpha] + [";"]
        if rng.random() < 0.25:
            g.dia = rng.sample(["D", "^1" if False else "E"], rng.choice([1, 2]))
            L += ["\nDiacritics"] + g.dia + [";"]
        if rng.random() < 0.5:
            L.append("\nSets")
            for n in rng.sample(["Vow", "Cns", "S1"], rng.choice([1, 2, 3])):
                g.sets[n] = rng.sample(voc, rng.randrange(1, len(voc) + 1))
                el = list(g.sets[n])
                if len(g.sets) > 1 and rng.random() < 0.3:
                    o = rng.choice([z for z in g.sets if z != n])
                    g.sets[n] += g.sets[o]
                    el.append(o)
                L += ["\n" + n, "="] + el + [";"]
        if rng.random() < 0.35:
            L.append("\nDefinitions")
            for n in rng.sample(["Def", "Foo"], rng.choice([1, 2])):
                r = self.re(rng, g, voc, rng.choice([1, 2]), (), g.defs)
                L += ["\n" + n, "=", self.stext(r), ";"]
                g.defs[n] = r
        L.append("\nRules\n")
        res_left = rng.random() < 0.15
        res_right = rng.random() < 0.75
        rl = 0
        for i in range(rng.choice([1, 1, 2, 3])):
            name = "rule %d%s" % (i, rng.choice(["", "", " x", " \u00e4"]))
            if rl:
                break
            if res_left:
                rl = 1
                L += self.special_rules(rng, g, voc)
                continue
            L.append(self.rule_text(rng, g, voc, name))
        if rng.random() < 0.2:
            L.insert(rng.randrange(len(L)), "! comment ; \"x\" _\n")
        tx = " ".join(L) + "\n"
        c = Case()
        ty = rng.choice(["tropical"] * 4 + (["sfst"] if g.dia else ["sfst", "foma"]))  # foma forgets diacritics of empty subexpressions
        c.cmd("twolc", ty, int(res_left), int(res_right), "".join(tx))
        c.data.update(g=g, left=res_left, right=res_right, seed=rng.random(), voc=voc)
        return c

    def center(self, rng, g, voc, vars, op):
        x = rng.random()
        if vars and x < 0.6:
            v = rng.choice(vars)
            return [("p", v, rng.choice([rng.choice(voc), "0"] + list(vars)))]
        if g.alpha and x < 0.5:
            return [("p",) + rng.choice(g.alpha)]
        if g.sets and x < 0.65:
            s = rng.choice(sorted(g.sets))
            return [rng.choice([("p", s, rng.choice(voc)), ("p", s, s, s), ("p", s, "?"), ("p", rng.choice(voc), s), ("p", "?", rng.choice(voc)), ("p", rng.choice(voc), "?")])]
        s = lambda: rng.choice(voc)
        one = lambda: rng.choice([("p", s(), s()), ("p", s(), s()), ("p", s(), "0"), ("p", "0", s())])
        if x < 0.85:
            return [one()]
        o = [one() for _ in range(rng.choice([2, 3]))]
        if g.sets and rng.random() < 0.5:
            z = rng.choice(sorted(g.sets))
            o[rng.randrange(len(o))] = ("p", z, rng.choice([z, rng.choice(voc)]))
        return o

    def rule_text(self, rng, g, voc, name):
        re_rule = rng.random() < 0.2
        vars, subs, where = [], [{}], ""
        if not re_rule and rng.random() < 0.35:
            blocks = []
            names = ["Vx", "Vy", "Vz"]
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(["", "freely", "matched", "mixed"])
                nv = rng.choice([1, 2, 2])
                vs, lists, txt = [], [], []
                ln = rng.choice([1, 2, 3])
                for _ in range(nv):
                    if not names:
                        break
                    v = names.pop(0)
                    if g.sets and rng.random() < 0.3 and kind != "matched":
                        s = rng.choice(sorted(g.sets))
                        l = list(g.sets[s])
                        txt.append("%s in %s" % (v, s))
                    else:
                        n = ln if kind == "matched" else rng.choice([1, 2, 3])
                        l = [rng.choice(voc) for _ in range(n)]
                        txt.append("%s in ( %s )" % (v, " ".join(l)))
                    vs.append(v)
                    lists.append(l)
                if not vs:
                    break
                if kind == "matched":
                    combos = list(zip(*lists))
                else:
                    ix = itertools.product(*[range(len(l)) for l in lists])
                    combos = [tuple(l[i] for l, i in zip(lists, t)) for t in ix if kind != "mixed" or len(set(t)) == len(t)]
                blocks.append(" ".join(txt) + " " + kind)
                vars += vs
                subs = [dict(a, **dict(zip(vs, c))) for a in subs for c in combos]
            where = " where " + " and ".join(blocks) + " ;"
        op = rng.choice(["=>", "<=", "<=>", "/<="])
        if re_rule:
            op = {"=>": "==>", "<=": "<==", "<=>": "<==>", "/<=": "/<=="}[op]
            f = lambda: ("p", rng.choice(voc), rng.choice(voc + ["0"])) if rng.random() < 0.8 else ("p", "0", rng.choice(voc))
            center = f()
            for _ in range(rng.choice([0, 1, 1, 2])):
                center = (rng.choice(["cat", "|"]), center, f())
            ctxt = "<[ %s ]>" % text(center)
            center = [center]
        else:
            center = self.center(rng, g, voc, vars, op)
            ctxt = " | ".join(text(c) for c in center)
            if len(center) > 1 and rng.random() < 0.4 or rng.random() < 0.1 and all("?" not in c and ":" in text(c) for c in center):
                ctxt = rng.choice(["[ %s ]", "{ %s }"]) % ctxt
        pos = [(self.side(rng, g, voc, True, vars, g.defs), self.side(rng, g, voc, False, vars, g.defs)) for _ in range(rng.choice([1, 1, 2, 3]))]
        neg = [(self.side(rng, g, voc, True, vars, g.defs), self.side(rng, g, voc, False, vars, g.defs)) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        t = '"%s"\n%s %s ' % (name, ctxt, op)
        t += "\n ".join("%s _ %s ;" % (self.stext(l), self.stext(r)) for l, r in pos)
        if neg:
            t += "\nexcept " + " ".join("%s _ %s ;" % (self.stext(l), self.stext(r)) for l, r in neg)
        t += where + "\n"
        sub = []
        for v in subs:
            sub.append({"center": [subst(c, v) for c in center], "pos": [(subst(l, v), subst(r, v)) for l, r in pos], "neg": [(subst(l, v), subst(r, v)) for l, r in neg]})
        g.rules.append({"name": name, "op": op, "re": re_rule, "sub": sub})
        return t

    def special_rules(self, rng, g, voc):
        """Two <= rules for one input symbol, the context of one within that of the other."""
        a, b, c = rng.choice(voc), None, None
        b, c = rng.sample(voc, 2)
        l, r = self.side(rng, g, voc, True), self.side(rng, g, voc, False)
        z1 = ("p", rng.choice(voc), rng.choice(voc))
        pos1 = [(l, r)]
        pos2 = [(("cat", z1, l) if l[0] != "e" else z1, r)] if rng.random() < 0.6 else [(l, ("cat", r, z1) if r[0] != "e" else z1)]
        out = []
        for name, kind, p, o in (("general", "general", pos1, b), ("special", "special", pos2, c)):
            op = rng.choice(["<=", "<=>"])
            t = '"%s"\n%s:%s %s ' % (name, a, o, op) + " ".join("%s _ %s ;" % (self.stext(x), self.stext(y)) for x, y in p) + "\n"
            out.append((t, {"name": name, "op": op, "re": False, "special": kind, "sub": [{"center": [("p", a, o)], "pos": p, "neg": []}]}))
        if rng.random() < 0.5:
            out.reverse()
        g.rules += [o[1] for o in out]
        return [o[0] for o in out]

    # ------------------------------------------------------------- judge
    def sample(self, rng, g, r, F):
        t = r[0]
        s = lambda q: self.sample(rng, g, q, F)
        if t == "p":
            P = g.pairs(r[1], r[2]) if not (r[1] == r[2] == "0") else ()
            if P is None:
                return [rng.choice(F)]
            return [rng.choice(sorted(P, key=str))] if P and WB not in P else []
        if t == "def":
            return s(g.defs[r[1]])
        if t == "cat":
            return s(r[1]) + s(r[2])
        if t == "|":
            return s(rng.choice(r[1:]))
        if t in "&-":
            return s(r[1])
        if t == "opt":
            return s(r[1]) if rng.random() < 0.5 else []
        if t in "*+":
            return [x for _ in range(rng.choice([0, 1, 2] if t == "*" else [1, 1, 2])) for x in s(r[1])]
        if t == "^":
            return [x for _ in range(rng.randint(r[2], r[3])) for x in s(r[1])]
        if t in ("$", "$."):
            return [rng.choice(F)] * rng.choice([0, 1]) + s(r[1])
        if t == "/":
            return s(r[1]) + s(r[2])
        if t == "\\":
            return [rng.choice(F)]
        if t == "~":
            return [rng.choice(F) for _ in range(rng.choice([0, 1, 2]))]
        return []

    def judge(self, c, out, rep):
        import random
        o = out[0]
        g = c.data["g"]
        rep.inc("grammars")
        try:
            g.compile(c.data["left"], c.data["right"])
            fail = False
        except Empty:
            fail = True
        # several realizations of one input symbol in the centre of one <= rule
        for r in g.rules:
            if r["op"] in ("<=", "<=>"):
                for s in r["sub"]:
                    ps = [p for q in s["center"] for p in g.pairs(q[1], q[2])]
                    if len({p[0] for p in ps}) < len(set(ps)):
                        rep.inc("ambiguous")
                        return
        if c.data["left"]:
            ins = [r["sub"][0]["pos"] for r in g.rules]
        desc = c.out[0][:1500]
        b = o.get("b")
        if fail:
            rep.inc("empty_pair_set")
            rep.ok()
            if b and b[0] == "0":
                return rep.bad("an empty pair set is not reported", desc, c.text())
            return
        if o.exc:
            if not g.cons:
                return
            return rep.bad("exception", desc + ": " + o.exc, c.text())
        if not b or b[0] != "0":
            return rep.bad("not compiled", desc + ": %r" % b, c.text())
        if not g.cons:
            return
        # the rules
        fs = []
        for l in o.lines:
            if l.startswith("D\t"):
                fs.append([])
            if fs:
                fs[-1].append(l)
        fs = [ref.parse(f)[2] for f in fs]
        run = [Runner(f) for f in fs]
        rng = random.Random(c.data["seed"])
        F = sorted(g.F, key=str)
        foreign = [("zz", "zz")]
        odd = [(x, y) for x in c.data["voc"] for y in c.data["voc"] + ["0"] if (x, y) not in g.F and x != y][:2]
        D = [(d, "0") for d in g.dia]
        A = F + foreign + D
        W = [[]] + [[p] for p in A + odd] + [list(t) for t in itertools.product(A, repeat=2)][:150] + [[odd[0], rng.choice(A)] for _ in odd[:1]]
        for _ in range(90):
            con = rng.choice(g.cons)
            l, r = rng.choice([x for pos, neg in con[3] for x in pos + neg])
            C = con[2]
            if con[1] in ("==>", "<==", "/<=="):
                m = list(rng.choice(g.finite(C)))
                if rng.random() < 0.5 and m:
                    k = rng.randrange(len(m))
                    m[k:k + 1] = [p for p in [rng.choice(F)] if rng.random() < 0.8]
            else:
                x = rng.random()
                alt = [p for p in F if p[0] == C[0]]
                m = [C] if x < 0.5 else [rng.choice(alt)] if alt and x < 0.9 else []
            w = self.sample(rng, g, l, F) + m + self.sample(rng, g, r, F)
            if rng.random() < 0.3:
                w = [rng.choice(A)] + w
            if rng.random() < 0.3:
                w = w + [rng.choice(A)]
            if rng.random() < 0.3 and w:
                w[rng.randrange(len(w))] = rng.choice(A)
            if rng.random() < 0.3 and D:
                w.insert(rng.randrange(len(w) + 1), rng.choice(D))
            W.append(w[:8])
        acc = {True: 0, False: 0}
        for w in W:
            want = g.accepts(w)
            v = [WB] + w + [WB]
            v = [(WB, EPS) if p == WB else tuple(EPS if x == "0" else un(x) for x in p) for p in v]
            got = all(r.accepts(v) for r in run)
            acc[want] += 1
            rep.ok()
            if got != want:
                bad = [k for k in g.cons if not g.sat(k, w)]
                return rep.bad("pair string wrongly " + ("accepted" if got else "rejected") + ": " + "/".join(sorted({k[1] for k in (bad or g.cons)})),
                               "%s: %s %s by the rules; %s" % (desc, " ".join("%s:%s" % p if p != WB else "#" for p in w), "accepted" if got else "rejected",
                                                               "violates %r" % (bad[0][:3],) if bad else "rejected by rule %d" % [r.accepts(v) for r in run].index(False)), c.text())
        rep.inc("accepted", acc[True])
        rep.inc("rejected", acc[False])
        if acc[True] and acc[False]:
            rep.ok(desc)

class Runner:
    def __init__(self, f):
        self.f = f
        self.known = f.alpha | f.symbols()
        self.m = [{} for _ in f.arcs]
        for s, a in enumerate(f.arcs):
            for i, o, w, t in a:
                self.m[s].setdefault((i, o), set()).add(t)
    def close(self, S):
        S = set(S)
        todo = list(S)
        while todo:
            for t in self.m[todo.pop()].get((EPS, EPS), ()):
                if t not in S:
                    S.add(t)
                    todo.append(t)
        return S
    def accepts(self, w):
        S = self.close({0})
        for p in w:
            T = set()
            for s in S:
                T |= self.m[s].get(p, set())
                if p[0] == p[1] and p[0] not in self.known:
                    T |= self.m[s].get((ref.IDN, ref.IDN), set())
                if p[0] != p[1] and (p[0] not in self.known and p[1] not in self.known):
                    T |= self.m[s].get((ref.UNK, ref.UNK), set())
                if p[0] not in self.known:
                    T |= self.m[s].get((ref.UNK, p[1]), set())
                if p[1] not in self.known:
                    T |= self.m[s].get((p[0], ref.UNK), set())
            S = self.close(T)
        return any(s in self.f.fin for s in S)

CHECK = C()
