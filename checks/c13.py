"""C13: Xerox regular expressions. A random syntax tree is printed as text with as few brackets as the documented
precedence and associativity need, compiled by the real compiler, and evaluated by the reference model over a finite universe."""
import ref, gen
from ref import EPS, UNK, IDN, Fst, FRESH
from drv import Case
from chk import Check

F = [FRESH + "0", FRESH + "1"]

# levels: larger binds tighter
LV = dict(o=2, O=2, x=2, before=3, after=3, union=5, isect=5, minus=5, P=5, p=5, cat=6, ign=7, neg=8, has=8, has1=8, hasq=8,
          star=9, plus=9, rev=9, inv=9, up=9, low=9, n=9, nplus=9, nminus=9, ntok=9, tneg=10, br=11, opt=11, wbr=11, brpair=11, subst=11, substp=11, call=12, sym=12, any=12,
          eps=12, pair=12, curly=12, cpair=12, wsym=12, df=12)

class G:
    """Generates (kind, children...) trees; A = language over identity pairs, R = relation."""
    def __init__(self, rng, syms, weighted, defs, funs):
        self.rng, self.syms, self.w, self.defs, self.funs = rng, syms, weighted, defs, funs
        self.iter = 0           # inside iteration: no weights (they would make determinization endless)
        self.nw = 0             # no weights below (operators that are defined for sets)
    def weight(self):
        return self.rng.choice([0.25, 0.5, 1, 1.5, 2, 3])
    def sym(self):
        return self.rng.choice(self.syms)
    def atomA(self):
        r = self.rng
        x = r.random()
        if x < 0.5:
            t = ("sym", self.sym())
            if self.w and not self.nw and r.random() < 0.4:
                return ("wsym", t, self.weight())
            return t
        if x < 0.62:
            return ("any",)
        if x < 0.7:
            return ("eps",)
        if x < 0.82:
            return ("curly", [r.choice([s for s in self.syms if len(s) == 1] or ["a"]) for _ in range(r.choice([1, 2, 2, 3]))])
        D = [k for k, (ty, t) in self.defs.items() if ty == "A" and not (self.nw and has_weight(t))]
        if D:
            return ("df", r.choice(D))
        return ("sym", self.sym())
    def unw(self, fn, *a):
        self.nw += 1
        t = fn(*a)
        self.nw -= 1
        return t
    def A(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.12:
            return self.atomA()
        w = self.w and not self.nw
        k = r.choice(["union", "union", "cat", "cat", "cat", "star", "plus", "opt", "isect", "minus", "neg", "has", "has1", "hasq", "tneg", "rev", "inv", "n", "nplus", "nminus", "ntok", "ign", "up", "low", "before", "after", "P",
                      "subst", "br", "wbr", "oA", "call"])
        if k in ("union", "cat", "isect"):
            return (k, self.A(d - 1), self.A(d - 1))
        if k == "minus":
            return (k, self.A(d - 1), self.unw(self.A, d - 1))
        if k == "P":
            return (k, self.unw(self.A, d - 1), self.unw(self.A, d - 1))
        if k in ("before", "after"):
            return (k, self.unw(self.A, d - 2), self.unw(self.A, d - 2))
        if k in ("star", "plus", "nplus"):
            t = self.unw(self.A, d - 1)
            return (k, t) if k != "nplus" else (k, t, r.choice([0, 1, 2]))
        if k in ("rev", "inv"):
            return (k, self.A(d - 1))
        if k in ("br", "opt"):
            return (k, self.A(d - 1))
        if k == "wbr":
            return (k, self.A(d - 1), self.weight()) if w else ("br", self.A(d - 1))
        if k == "n":
            return (k, self.A(d - 2), r.choice([0, 1, 2, 3]))
        if k == "nminus":
            return (k, self.A(d - 2), r.choice([1, 2, 3]))
        if k == "ntok":
            a = r.choice([0, 1, 2])
            return (k, self.A(d - 2), a, a + r.choice([0, 1, 2]), r.random() < 0.5)
        if k in ("neg", "has", "has1", "hasq", "tneg"):
            return (k, self.unw(self.A, d - 1))
        if k == "ign":
            return (k, self.A(d - 2), self.unw(self.A, d - 2))
        if k in ("up", "low"):
            return (k, self.R(d - 1))
        if k == "subst":
            s = self.sym()
            l = [x for x in self.syms if x != s]
            return (k, self.unw(self.nowild, d - 2), s, r.sample(l, min(len(l), r.choice([0, 1, 1, 2]))))
        if k == "oA":
            return ("br", ("o", self.A(d - 1), self.A(d - 1)))
        if k == "call":
            fs = [(n, a) for n, (a, ty, b) in self.funs.items() if ty == "A" and not (self.nw and has_weight(b))]
            if not fs:
                return self.atomA()
            n, a = r.choice(fs)
            return (k, n, [self.A(d - 2) if not self.nw else self.unw(self.A, d - 2) for _ in range(a)])
    def nowild(self, d):
        """Language without wildcards or operators that bring them in."""
        r = self.rng
        if d <= 0 or r.random() < 0.2:
            return ("sym", self.sym()) if r.random() < 0.8 else ("eps",)
        k = r.choice(["union", "cat", "cat", "opt", "star", "rev"])
        if k in ("union", "cat"):
            return (k, self.nowild(d - 1), self.nowild(d - 1))
        return (k, self.nowild(d - 1))
    def nowildR(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.2:
            x = r.random()
            return ("pair", self.sym(), self.sym()) if x < 0.5 else ("sym", self.sym()) if x < 0.8 else ("pair", self.sym(), EPS)
        k = r.choice(["union", "cat", "cat", "opt", "inv"])
        if k in ("union", "cat"):
            return (k, self.nowildR(d - 1), self.nowildR(d - 1))
        return (k, self.nowildR(d - 1))
    def R(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.15:
            x = r.random()
            if x < 0.25:
                return self.atomA()
            if x < 0.8:
                s = lambda: r.choice([self.sym(), self.sym(), self.sym(), EPS, UNK])
                t = ("pair", s(), s())
                if self.w and not self.nw and r.random() < 0.4:
                    return ("wsym", t, self.weight())
                return t
            c = lambda: [r.choice([s for s in self.syms if len(s) == 1] or ["a"]) for _ in range(r.choice([1, 2, 2, 3]))]
            return ("cpair", c(), c())
        w = self.w and not self.nw
        k = r.choice(["A", "union", "cat", "cat", "star", "plus", "opt", "o", "o", "o", "x", "inv", "rev", "n", "ntok", "br", "wbr", "brpair", "substp", "P", "p", "O", "ign", "call"])
        if k == "A":
            return self.A(d - 1)
        if k in ("union", "cat"):
            return (k, self.R(d - 1), self.R(d - 1))
        if k == "o":
            return ("br", (k, self.R(d - 1), self.R(d - 1)))
        if k == "O":
            return ("br", (k, self.unw(self.R, d - 2), self.unw(self.R, d - 2)))
        if k in ("P", "p"):
            return (k, self.unw(self.R, d - 2), self.unw(self.R, d - 2))
        if k == "x":
            return ("br", (k, self.unw(self.A, d - 2), self.unw(self.A, d - 2)))
        if k == "brpair":
            return (k, self.unw(self.A, d - 2), self.unw(self.A, d - 2), r.randrange(4))
        if k in ("star", "plus"):
            return (k, self.unw(self.R, d - 1))
        if k in ("inv", "rev", "br", "opt"):
            return (k, self.R(d - 1))
        if k == "wbr":
            return (k, self.R(d - 1), self.weight()) if w else ("br", self.R(d - 1))
        if k == "n":
            return (k, self.R(d - 2), r.choice([1, 2]))
        if k == "ntok":
            a = r.choice([0, 1])
            return (k, self.R(d - 2), a, a + 1, r.random() < 0.5)
        if k == "substp":
            return (k, self.nowildR(d - 2), [self.sym() for _ in range(4)])
        if k == "ign":
            return (k, self.unw(self.A, d - 2), self.unw(self.A, d - 3))
        if k == "call":
            fs = [(n, a) for n, (a, ty, b) in self.funs.items() if not (self.nw and has_weight(b))]
            if not fs:
                return self.R(d - 1)
            n, a = r.choice(fs)
            return (k, n, [self.A(d - 2) if not self.nw else self.unw(self.A, d - 2) for _ in range(a)])

def has_weight(t):
    if isinstance(t, tuple):
        return t[0] in ("wsym", "wbr") or any(has_weight(x) for x in t[1:])
    if isinstance(t, list):
        return any(has_weight(x) for x in t)
    return False

def leaves(t, out):
    if isinstance(t, tuple):
        k = t[0]
        if k == "sym":
            out.add(t[1])
        elif k == "pair":
            out |= set(t[1:])
        elif k in ("curly", "cpair"):
            for l in t[1:]:
                out |= set(l)
        elif k == "subst":
            leaves(t[1], out); out.add(t[2]); out |= set(t[3])
        elif k == "substp":
            leaves(t[1], out); out |= set(t[2])
        else:
            for x in t[1:]:
                leaves(x, out)
    elif isinstance(t, list):
        for x in t:
            leaves(x, out)
    return out

PCT = set("-|<>%!,^:;@~\\&?$+*/_(){}[].0\" #")
class Printer:
    def __init__(self, rng, noisy):
        self.rng, self.noisy = rng, noisy
    def sp(self, must=False):
        r = self.rng
        if not self.noisy:
            return " " if must or r.random() < 0.5 else ""
        x = r.random()
        if x < 0.06:
            return " ! comment ] | \n"
        if x < 0.1:
            return " # x ( \n"
        if x < 0.16:
            return "\n\t"
        return " " if must or x < 0.7 else ""
    def lit(self, s):
        if s == EPS:
            return self.rng.choice(["0", "0", '""', "[]"])
        if s == UNK:
            return "?"
        x = self.rng.random()
        plain = not any(c in PCT for c in s)
        if x < 0.2 and '"' not in s and "\\" not in s:
            return '"%s"' % s
        if plain and x < 0.9:
            return s
        return "".join(("%" + c if c in PCT or (len(c.encode()) == 1 and self.rng.random() < 0.2) else c) for c in s)
    def lv(self, t):
        return LV[t[0]]
    def at(self, t, level):
        """Text of t where something of at least this level is needed."""
        if self.lv(t) >= level and self.rng.random() > 0.08:
            return self.p(t)
        return "[" + self.sp() + self.p(t) + self.sp() + "]"
    def p(self, t):
        k = t[0]
        s, S = self.sp, lambda: self.sp(True)
        at = self.at
        if k == "sym":
            return self.lit(t[1])
        if k == "any":
            return "?"
        if k == "eps":
            return self.lit(EPS)
        if k == "df":
            return t[1]
        if k == "pair":
            a = self.lit(t[1])
            b = self.lit(t[2])
            return a + ":" + b
        if k == "curly":
            return "{" + "".join(t[1]) + "}"
        if k == "cpair":
            return "{" + "".join(t[1]) + "}:{" + "".join(t[2]) + "}"
        if k == "wsym":
            return self.p(t[1]) + "::%g" % t[2]
        if k == "wbr":
            return "[" + s() + self.p(t[1]) + s() + "]::%g" % t[2]
        if k == "br":
            return "[" + s() + self.p(t[1]) + s() + "]"
        if k == "opt":
            return "(" + s() + self.p(t[1]) + s() + ")"
        if k == "brpair":
            return "[" + s() + self.p(t[1]) + s() + "]:[" + s() + self.p(t[2]) + s() + "]"
        if k in ("union", "isect", "minus", "P", "p"):
            return at(t[1], 5) + S() + dict(union="|", isect="&", minus="-", P=".P.", p=".p.")[k] + S() + at(t[2], 6)
        if k in ("o", "O", "x"):
            return at(t[1], 2) + S() + dict(o=".o.", O=".O.", x=".x.")[k] + S() + at(t[2], 3)
        if k in ("before", "after"):
            return at(t[1], 3) + S() + dict(before="<", after=">")[k] + S() + at(t[2], 5)
        if k == "cat":
            return at(t[1], 6) + S() + at(t[2], 7)
        if k == "ign":
            return at(t[1], 7) + S() + "/" + S() + at(t[2], 8)
        if k in ("neg", "has", "has1", "hasq"):
            return dict(neg="~", has="$", has1="$.", hasq="$?")[k] + S() + at(t[1], 8)
        if k in ("star", "plus", "rev", "inv", "up", "low"):
            return at(t[1], 9) + S() + dict(star="*", plus="+", rev=".r", inv=".i", up=".u", low=".l")[k]
        if k == "n":
            return at(t[1], 9) + s() + "^%d" % t[2]
        if k == "nplus":
            return at(t[1], 9) + s() + "^>%d" % t[2]
        if k == "nminus":
            return at(t[1], 9) + s() + "^<%d" % t[2]
        if k == "ntok":
            return at(t[1], 9) + s() + ("^{%d,%d}" if t[4] else "^%d,%d") % (t[2], t[3])
        if k == "tneg":
            return "\\" + S() + at(t[1], 10)
        if k == "subst":
            return "[`[" + S() + self.at(t[1], 5) + s() + "," + s() + self.lit(t[2]) + s() + "," + s() + " ".join(map(self.lit, t[3])) + s() + "]]"
        if k == "substp":
            a = [self.lit(x) for x in t[2]]
            return "[`[" + S() + self.at(t[1], 5) + s() + "," + s() + a[0] + ":" + a[1] + s() + "," + s() + a[2] + ":" + a[3] + s() + "]]"
        if k == "call":
            return t[1] + s() + (s() + "," + s()).join(self.at(x, 3) for x in t[2]) + s() + ")"
        raise KeyError(k)

class TooBig(Exception):
    pass

class Eval:
    def __init__(self, U, defs, funs):
        self.U = sorted(U)
        self.defs, self.funs = defs, funs
        self.memo = {}
    def sigma(self):
        f = Fst(2)
        for x in self.U:
            f.add(0, 1, x, x)
        f.fin[1] = 0.0
        return f
    def all(self):
        return ref.star(self.sigma())
    def small(self, f):
        f = ref.trim(f)
        if not any(w for a in f.arcs for i, o, w, t in a) and not any(f.fin.values()):
            f = self.det(f)
        if f.narcs() > 3000:
            raise TooBig()
        return f
    def det(self, f):
        # subset construction with a bound
        f = ref.trim(f)
        if f.n > 60:
            raise TooBig()
        g = ref.trim(ref.determinize(f))
        return g if g.narcs() < f.narcs() or g.n <= f.n else f
    def setop(self, f):
        if f.n > 40 or any(w for a in f.arcs for i, o, w, t in a):
            raise TooBig()
        return f
    def neg(self, f):
        return ref.trim(ref.negate(self.setop(f), self.U))
    def contains(self, f):
        return ref.concat(ref.concat(self.all(), f), self.all())
    def ev(self, t, env=None):
        f = self.small(self.e(t, env))
        return f
    def e(self, t, env):
        k = t[0]
        ev = lambda x: self.ev(x, env)
        if k == "sym":
            if env and t[1] in env:
                return env[t[1]]
            return ref.pair(t[1], t[1])
        if k == "any":
            return self.sigma()
        if k == "eps":
            return ref.epsilon()
        if k == "df":
            return self.defs[t[1]]
        if k == "pair":
            a = self.U if t[1] == UNK else [t[1]]
            b = self.U if t[2] == UNK else [t[2]]
            f = Fst(2)
            f.fin[1] = 0.0
            for x in a:
                for y in b:
                    f.add(0, 1, x, y)
            return f
        if k == "curly":
            return ref.string([(c, c) for c in t[1]])
        if k == "cpair":
            return ref.cross(ref.string([(c, c) for c in t[1]]), ref.string([(c, c) for c in t[2]]))
        if k in ("wsym", "wbr"):
            return ref.concat(ev(t[1]), ref.epsilon(t[2]))
        if k == "br":
            return ev(t[1])
        if k == "opt":
            return ref.opt(ev(t[1]))
        if k == "union":
            return ref.union(ev(t[1]), ev(t[2]))
        if k == "cat":
            return ref.concat(ev(t[1]), ev(t[2]))
        if k == "isect":
            return ref.intersect(ev(t[1]), ev(t[2]))
        if k == "minus":
            return ref.subtract(ev(t[1]), self.setop(ev(t[2])))
        if k == "P":
            a, b = ev(t[1]), ev(t[2])
            return ref.priority_union(a, b, self.U)
        if k == "p":
            return ref.invert(ref.priority_union(ref.invert(ev(t[1])), ref.invert(ev(t[2])), self.U))
        if k == "o":
            return ref.compose(ev(t[1]), ev(t[2]))
        if k == "O":
            return ref.lenient(ev(t[1]), ev(t[2]), self.U)
        if k in ("x", "brpair"):
            return ref.cross(ev(t[1]), ev(t[2]))
        if k in ("before", "after"):
            a, b = ev(t[1]), ev(t[2])
            if k == "after":
                a, b = b, a
            # not: some b somewhere before some a
            return self.neg(self.small(ref.concat(ref.concat(self.all(), b), ref.concat(ref.concat(self.all(), a), self.all()))))
        if k == "ign":
            a, b = ev(t[1]), ev(t[2])
            g = a.copy()
            n = g.n
            if n * (b.n + 1) > 200:
                raise TooBig()
            for s in range(n):
                off = ref._append(g, b)
                off = g.n - b.n
                for q, w in b.fin.items():
                    g.arcs[off + q].append((EPS, EPS, w, s))
                g.arcs[s].append((EPS, EPS, 0.0, off))
            g.fin = dict(a.fin)
            return g
        if k == "neg":
            return self.neg(ev(t[1]))
        if k == "has":
            return self.contains(ev(t[1]))
        if k in ("has1", "hasq"):
            c = ev(t[1])
            A, S = self.all(), self.sigma()
            P = ref.concat(S, A)
            t1 = ref.intersect(self.small(ref.concat(ref.concat(P, c), A)), self.small(ref.concat(c, A)))
            t2 = ref.intersect(self.small(ref.concat(c, P)), c)
            once = ref.subtract(self.small(self.contains(c)), self.setop(self.small(self.contains(self.small(ref.union(t1, t2))))))
            if k == "has1":
                return once
            return ref.union(once, self.neg(self.small(self.contains(c))))
        if k == "star":
            return ref.star(ev(t[1]))
        if k == "plus":
            return ref.plus(ev(t[1]))
        if k == "rev":
            return ref.reverse(ev(t[1]))
        if k == "inv":
            return ref.invert(ev(t[1]))
        if k == "up":
            return ref.project(ev(t[1]), 0)
        if k == "low":
            return ref.project(ev(t[1]), 1)
        if k == "n":
            return ref.power(ev(t[1]), t[2])
        if k == "nplus":
            a = ev(t[1])
            return ref.concat(ref.power(a, t[2] + 1), ref.star(a))
        if k == "nminus":
            return ref.power_minus(ev(t[1]), t[2] - 1)
        if k == "ntok":
            a = ev(t[1])
            return ref.concat(ref.power(a, t[2]), ref.power_minus(a, t[3] - t[2]))
        if k == "tneg":
            return ref.subtract(self.sigma(), self.setop(ev(t[1])))
        if k == "subst":
            a = ev(t[1])
            g = a.copy()
            g.arcs = []
            for r in a.arcs:
                n = []
                for i, o, w, q in r:
                    if i == t[2]:
                        n += [(y, y, w, q) for y in t[3]]
                    else:
                        n.append((i, o, w, q))
                g.arcs.append(n)
            return g
        if k == "substp":
            a = ev(t[1])
            x, y, u, v = t[2]
            g = a.copy()
            g.arcs = [[(u, v, w, q) if (i, o) == (x, y) else (i, o, w, q) for i, o, w, q in r] for r in a.arcs]
            return g
        if k == "call":
            n, ty, body = self.funs[t[1]]
            return self.ev(body, {"@%s%d@" % (t[1], i + 1): ev(x) for i, x in enumerate(t[2])})
        raise KeyError(k)

POOLS = gen.POOLS + [["a", "b", "+", "0"], ["a", "b", "[", "!"], ["a", "b", "?", "\\"], ["a", "%", "ab", "cat"], ["a", "|", "-b", "a b"], ["0", "00", "a", "a0"], ["u", "r", "o", "x"], ["a", "b", "a\u00f1", "\u6f22"]]
BAD = ["%s |", "| %s", "%s &", "[ %s", "%s ]", "( %s", "%s )", "%s .o.", ".x. %s", "%s - ", "[ %s | ] a", "%s ] [", "~", "%s <> a", "%s ./. a", "%s .-u. a", "%s , a", "a:[ %s", "%s -> ", "%s || a _ b", "%s => ", "`[ %s ]", "f( %s", "nosuch(a)", "{a","%s ^", "~[a:b]", "%s ; b ] ;", "::1 %s", "* %s", "+ %s", "f(a,", "%s _ a"]

class C(Check):
    id = "C13"
    quick = (96, 40)
    thorough = (2000, 30)
    rule = ("Random syntax trees over the Xerox operators (depth up to 5; quoted, escaped, multicharacter and curly symbols, wildcards, weights, definitions, functions, substitution) printed with the fewest brackets precedence allows, with random white space and comments, compiled by one compiler object "
            "after another in the tropical, SFST and foma back ends. The monitor evaluates the tree over a finite universe with two symbols the text does not know. Ill-formed texts are mixed in. Non-trivial: the relation is neither empty nor everything.")

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        ty = D["ty"] = rng.choice(["tropical", "tropical", "sfst", "foma"])
        syms = rng.choice(POOLS)
        w = ty == "tropical" and rng.random() < 0.5
        g = G(rng, syms, w, {}, {})
        P = Printer(rng, rng.random() < 0.4)
        D["syms"] = set(syms)
        D["seq"] = seq = []
        c.cmd("xre", "X", ty)
        for step in range(rng.choice([1, 2, 3, 4, 5])):
            x = rng.random()
            r = "r%d" % step
            depth = rng.choice([1, 2, 2, 3, 3, 4])
            kind = rng.choice("AAR")
            for _ in range(6):
                tree = getattr(g, kind)(depth)
                full = unfold(tree, g.defs, g.funs)
                rk = risky(full)
                if not rk:
                    break
            txt = P.p(tree)
            if x < 0.12:
                nm = rng.choice(["Def", "D2", "V"])
                # definitions are values: what they were made of may be redefined later
                i = c.cmd("xre_define", "X", nm, txt)
                seq.append(("define", nm, tree, i, txt))
                g.defs[nm] = (kind, full)
            elif x < 0.16 and g.defs:
                nm = rng.choice(sorted(g.defs))
                c.cmd("xre_undefine", "X", nm)
                seq.append(("undef", nm))
                del g.defs[nm]
            elif x < 0.26:
                nm = rng.choice(["f(", "Fun("])
                n = rng.choice([1, 2])
                # definitions in a body are looked up when the function is called: keep them out
                g2 = G(rng, syms + ["@%s%d@" % (nm, i + 1) for i in range(n)], w, {}, {})
                b = getattr(g2, kind)(rng.choice([1, 2]))
                bt = Body(rng, False, nm, n).p(b)
                if any(y in ("subst", "substp", "curly", "cpair") for y in kinds(b)) or ("@" + nm) not in bt:
                    continue
                if pairs_arg(b, "@" + nm):
                    continue
                i = c.cmd("xre_function", "X", nm, n, bt)
                seq.append(("fun", nm, n, kind, b, i, bt))
                g.funs[nm] = (n, kind, b)
            elif x < 0.4:
                b = rng.choice(BAD)
                t = b % P.p(getattr(g, kind)(1)) if "%s" in b else b
                if b.startswith("f(") and "f(" in g.funs:
                    pass
                i = c.cmd("xre_compile", "bad", "X", t)
                seq.append(("bad", t, i))
            elif x < 0.46:
                t = rng.choice(["", "   ", "! nothing", "# nothing\n ! here\n"])
                i = c.cmd("xre_compile", "bad", "X", t)
                seq.append(("none", t, i))
            elif x < 0.52:
                t2 = g.A(1)
                t = txt + P.sp() + ";"
                i = c.cmd("xre_first", r, "X", t + " " + P.p(t2) + " ;")
                j = c.cmd("dump", r)
                seq.append(("expr", tree, i, j, t, len(t), rk))
            else:
                i = c.cmd("xre_compile", r, "X", txt + (";" if rng.random() < 0.2 else ""))
                j = c.cmd("dump", r)
                seq.append(("expr", tree, i, j, txt, None, rk))
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        defs, funs = {}, {}
        U = set(d["syms"]) | set(F)
        trees = [s[1] for s in d["seq"] if s[0] == "expr"] + [s[2] for s in d["seq"] if s[0] == "define"] + [s[4] for s in d["seq"] if s[0] == "fun"]
        for t in trees:
            leaves(t, U)
        U = {x for x in U if x not in ref.SPECIAL and not x.startswith("@f(") and not x.startswith("@Fun(")}
        E = Eval(U, defs, funs)
        def bad(k, m):
            rep.bad("%s [%s]" % (k, ty), m, c.text())
        for s in d["seq"]:
            if s[0] == "undef":
                del defs[s[1]]
                continue
            if s[0] == "fun":
                funs[s[1]] = (s[2], s[3], s[4])
                continue
            if s[0] in ("bad", "none"):
                o = out[s[2]]
                rep.ok()
                rep.inc(s[0])
                if o.exc or o.bool():
                    return bad("ill-formed text gives a transducer" if s[0] == "bad" else "empty text gives a transducer", "%r: %r" % (s[1], o.exc))
                continue
            if s[0] == "define":
                o = out[s[3]]
                try:
                    f = E.ev(s[2])
                except TooBig:
                    return rep.inc("too_big")
                if o.exc or not o.bool():
                    return bad("well-formed definition refused", "%r: %r" % (s[4], o.exc))
                defs[s[1]] = f
                continue
            tree, i, j, txt, n, rk = s[1:]
            o = out[i]
            if o.exc or not o.bool():
                return bad("well-formed expression refused", "%r: %r %r" % (txt, o.exc, o.dump()))
            try:
                f = E.ev(tree)
            except TooBig:
                rep.inc("too_big")
                continue
            g = out[j].fst()
            if n is not None:
                rep.inc("first")
                if int(o.get("b")[1]) != len(txt.encode()):
                    return bad("compile_first: characters read", "%r: %r instead of %d" % (txt, o.get("b"), len(txt.encode())))
            ge = ref.expand(g, U | (g.alpha - ref.SPECIAL))
            extra = (g.alpha | g.symbols()) - ref.SPECIAL - U
            if extra:
                return bad("symbols the text does not have", "%r: %r" % (txt, extra))
            w = ty == "tropical" 
            if s[-1]:
                rep.inc("unknown_in_composition")
                continue
            x = ref.diff_strs(f, ge, 4, 4, weights=w, cap=20000)
            triv = not f.fin
            rep.ok((txt,) if not triv else None)
            for q in kinds(tree):
                rep.inc("op_" + q)
            if x:
                return bad("wrong relation: top %s" % top(tree), "%s\nexpected/got at %r\nreference %r\nresult %r" % (txt, x, f if f.narcs() < 40 else "big", g))

class Body(Printer):
    def __init__(self, rng, noisy, nm, n):
        super().__init__(rng, noisy)
        self.nm = nm
    def lit(self, s):
        if s.startswith("@" + self.nm):
            return '"%s"' % s
        return super().lit(s)

def pairs_arg(t, pre):
    if isinstance(t, tuple):
        if t[0] == "pair" and any(x.startswith(pre) for x in t[1:]):
            return True
        return any(pairs_arg(x, pre) for x in t[1:])
    if isinstance(t, list):
        return any(pairs_arg(x, pre) for x in t)
    return False

def unk_source(t):
    """?:x, or a cross product with ?"""
    if isinstance(t, tuple):
        if t[0] == "pair" and UNK in t[1:]:
            return True
        if t[0] in ("x", "brpair") and kinds(t) & {"any", "neg", "tneg", "has", "has1", "hasq", "before", "after"}:
            return True
        return any(map(unk_source, t[1:]))
    if isinstance(t, list):
        return any(map(unk_source, t))
    return False

def risky(t):
    """A composition of ?:x and x:? relates symbols both to themselves and to others, which no single label says; the
    library settles for the latter (as C01 notes), so what is built from it is not compared."""
    if isinstance(t, tuple):
        if t[0] in ("o", "O", "P", "p") and unk_source(t):
            return True
        return any(map(risky, t[1:]))
    if isinstance(t, list):
        return any(map(risky, t))
    return False

def unfold(t, defs, funs):
    if isinstance(t, tuple):
        if t[0] == "df":
            return unfold(defs[t[1]][1], defs, funs)
        if t[0] == "call":
            body = funs[t[1]][2]
            args = [unfold(x, defs, funs) for x in t[2]]
            return subst(body, {"@%s%d@" % (t[1], i + 1): x for i, x in enumerate(args)})
        return tuple(unfold(x, defs, funs) for x in t)
    if isinstance(t, list):
        return [unfold(x, defs, funs) for x in t]
    return t

def subst(t, env):
    if isinstance(t, tuple):
        if t[0] == "sym" and t[1] in env:
            return env[t[1]]
        return tuple(subst(x, env) for x in t)
    if isinstance(t, list):
        return [subst(x, env) for x in t]
    return t

def kinds(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        out.add(t[0])
        for x in t[1:]:
            kinds(x, out)
    elif isinstance(t, list):
        for x in t:
            kinds(x, out)
    return out

def top(t):
    while t[0] in ("br",):
        t = t[1]
    return t[0]

CHECK = C()
