"""C19: pattern matching."""
import ref
from ref import EPS
from drv import Case
from chk import Check

CORE = ["a", "b", "c", "d", "A", "B", "1", "2", ".", "\u00e4"]
POOL = CORE + [" ", ",", "z", "\u00c4", "\u20ac", "q", "\u044f", "\U0001f600"]
WS, PU = set(" "), set(".,!")
class Skip(Exception):
    pass
LIM = 600

class Text:
    """A text with its boundaries; matching results are memoised per node."""
    def __init__(self, s):
        self.s = "\x00" + s + "\x00"
        self.n = len(s)
        self.memo = {}
        self.depth = 0

class N:
    """A pattern: how it is written and what it relates. ev: [(end, pieces, weight)] from position p, innermost entry e."""
    def __init__(self, text, f, grp=False, lit=False):
        self.text, self.f, self.grp, self.lit = text, f, grp, lit
    def ev(self, t, p, e):
        k = (id(self), p, e)
        r = t.memo.get(k)
        if r is None:
            r = set(self.f(t, p, e))
            if len(r) > LIM:
                raise Skip
            t.memo[k] = r
        return r

def isalpha(c):
    return ("a" <= c <= "z") or ("A" <= c <= "Z") or c in "\u00e4\u00c4"
CLASSES = {"Alpha": isalpha, "LowercaseAlpha": lambda c: isalpha(c) and c.lower() == c, "UppercaseAlpha": lambda c: isalpha(c) and c.upper() == c,
           "Num": lambda c: c in "0123456789", "Punct": lambda c: c in PU, "Whitespace": lambda c: c in WS}

def one(text, pred):
    return N(text, lambda t, p, e: [(p + 1, (t.s[p],), 0.0)] if 1 <= p <= t.n and pred(t.s[p]) else [])
def litn(s):
    x = "{%s}" % s
    return N(x, lambda t, p, e: [(p + len(s), tuple(s), 0.0)] if t.s.startswith(s, p) and p + len(s) <= t.n + 1 else [], lit=True)
def bound():
    return N("#", lambda t, p, e: [(p + 1, (), 0.0)] if p in (0, t.n + 1) else [])
def cat(a, b):
    def f(t, p, e):
        for q, x, w in a.ev(t, p, e):
            for r, y, v in b.ev(t, q, e):
                yield r, x + y, w + v
    return N(a.text + " " + b.text, f, a.grp or b.grp, a.lit and b.lit)
def alt(xs):
    return N("[" + " | ".join(x.text for x in xs) + "]", lambda t, p, e: [r for x in xs for r in x.ev(t, p, e)], any(x.grp for x in xs))
def wt(a, w):
    return N("[%s]::%g" % (a.text, w), lambda t, p, e: [(q, x, v + w) for q, x, v in a.ev(t, p, e)], a.grp)
def rep(a, lo, hi, op):
    def f(t, p, e):
        cur = {(p, (), 0.0)}
        out = set(cur) if lo == 0 else set()
        k = 0
        while cur and (hi is None or k < hi):
            nxt = set()
            for q, x, w in cur:
                for r, y, v in a.ev(t, q, e):
                    if r == q:
                        raise Skip
                    nxt.add((r, x + y, w + v))
            k += 1
            cur = nxt
            if k >= lo:
                out |= cur
            if len(out) > LIM or len(cur) > LIM:
                raise Skip
        return out
    t = "[%s]" % a.text
    return N("(%s)" % a.text if op == "(" else t + op, f, a.grp)
def group(a, text=None, tag=None):
    """Delimiters around a: entry, a, exit."""
    def f(t, p, e):
        for q, x, w in a.ev(t, p, p):
            yield q, ("\x01",) + x + (("\x03" + tag,) if tag else ()) + ("\x02",), w
    return N(text or a.text, f)
def endtag(a, x, quoted):
    return N("[%s] EndTag(%s)" % (a.text, '"%s"' % x if quoted else x), lambda t, p, e: [(q, y + ("\x03" + x,), w) for q, y, w in a.ev(t, p, e)], True)
def ctx(kind, a, negated):
    """A context condition at this point; left ones look back from the innermost entry."""
    def holds(t, p, e):
        if kind == "R":
            return bool(a.ev(t, p, p))
        return any(r[0] == e for s in range(0, e + 1) for r in a.ev(t, s, s))
    return N("%s%sC(%s)" % ("N" if negated else "", kind, a.text), lambda t, p, e: [(p, (), 0.0)] if holds(t, p, e) != negated else [], True)
def conds(op, cs):
    if op == "AND":
        f = lambda t, p, e: [(p, (), 0.0)] if all(c.ev(t, p, e) for c in cs) else []
    else:
        f = lambda t, p, e: [(p, (), 0.0)] if any(c.ev(t, p, e) for c in cs) else []
    return N("%s(%s)" % (op, ", ".join(c.text for c in cs)), f, True)
def cross(a, o, txt):
    return N("[%s]:%s" % (a.text, txt), lambda t, p, e: [(q, tuple(o), w) for q, x, w in a.ev(t, p, e)])
def insert(o):
    return N("[0:{%s}]" % o, lambda t, p, e: [(p, tuple(o), 0.0)])

def stringify(pieces, mode):
    out, st = [], []
    n = 0
    for x in pieces:
        if x == "\x01":
            st.append(len(out))
        elif x == "\x02":
            if st:
                st.pop()
        elif x[0] == "\x03":
            pos = st[-1] if st else 0
            if mode == "delete":
                del out[pos:]
                out.append("<%s>" % x[1:])
            elif mode != "nomark":
                out.insert(pos, "<%s>" % x[1:])
                out.append("</%s>" % x[1:])
        elif mode not in ("extract", "extract_nomark") or st:
            out.append(x)
    return "".join(out)

class C(Check):
    id = "C19"
    targets = ("hfstdrv", "hfst-pmatch2fst", "hfst-pmatch", "hfst-tokenize")
    quick = (72, 12)
    thorough = (1500, 20)
    cpu = 30
    rule = ("Random pattern programs (literals, classes, ranges, any-symbol, union, concatenation, iteration, set difference, lists and exclusions, case functions, transductions, insertions, weights, nested tags and groups, positive, negated, and combined contexts on both sides "
            "including the text boundary, functions, inserted and recursive networks, automatic separators, printing modes) compiled with hfst-pmatch2fst; several texts each (with characters the program does not know) run through match() and locate() of one container, "
            "and through hfst-pmatch and hfst-tokenize. The monitor interprets the program itself: leftmost longest match, least weight, contexts looked up in the text. Non-trivial: a match was found.")

    # ---- programs
    def single(self, rng):
        x = rng.random()
        if x < 0.3:
            n = rng.choice(sorted(CLASSES))
            return one(n, CLASSES[n])
        if x < 0.4:
            return one("?", lambda c: True)
        if x < 0.55:
            s = rng.sample(CORE, rng.choice([2, 3]))
            return one("[%s]" % " | ".join('"%s"' % y for y in s), lambda c: c in s)
        if x < 0.63:
            a, b = sorted(rng.sample("abcd", 2))
            return one('"%s-%s"' % (a, b), lambda c: a <= c <= b)
        if x < 0.73:
            s = rng.sample(CORE, rng.choice([1, 2, 3]))
            return one("Lst([%s])" % " | ".join('"%s"' % y for y in s), lambda c: c in s)
        if x < 0.8:
            s = rng.sample(CORE, rng.choice([1, 2]))
            return one("Exc([%s])" % " | ".join('"%s"' % y for y in s), lambda c: c not in s)
        if x < 0.9:
            n = rng.choice(["Alpha", "Num", "?", "LowercaseAlpha", "?"])
            s = rng.sample(CORE + [" "], rng.choice([1, 2]))
            q = CLASSES.get(n, lambda c: True)
            return one("[%s - [%s]]" % (n, " | ".join('"%s"' % y for y in s)), lambda c: q(c) and c not in s)
        if x < 0.95:
            s = rng.sample(CORE, 2)
            return one("\\[%s]" % " | ".join('"%s"' % y for y in s), lambda c: c not in s)
        c0 = rng.choice(CORE)
        return one('"%s"' % c0, lambda c: c == c0)

    def lit(self, rng):
        return litn("".join(rng.choice(CORE[:5] if rng.random() < 0.7 else CORE) for _ in range(rng.choice([1, 1, 2, 2, 3]))))

    def cased(self, rng):
        s = "".join(rng.choice("abAB") for _ in range(rng.choice([1, 2, 3])))
        k = rng.choice(["UpCase", "DownCase"])
        l = {"UpCase": {s.upper()}, "DownCase": {s.lower()}, "OptUpCase": {s, s.upper()}, "OptDownCase": {s, s.lower()},
             "OptCap": {s, s[0].upper() + s[1:]}, "Cap": {s[0].upper() + s[1:]}}.get(k)
        def f(t, p, e):
            x = t.s[p:p + len(s)]
            if (k == "AnyCase" and x.lower() == s.lower()) or (l and x in l):
                yield p + len(s), tuple(x), 0.0
        return N("%s({%s})" % (k, s), f)

    def core(self, rng, d=0):
        """Never matches the empty string."""
        x = rng.random()
        if d > 2 or x < 0.25:
            return self.lit(rng)
        if x < 0.45:
            return self.single(rng)
        if x < 0.5 and self.case_ok:
            return self.cased(rng)
        if x < 0.66:
            return cat(self.br(self.core(rng, d + 1)), self.br(self.maybe(rng, d + 1)))
        if x < 0.76:
            return alt([self.core(rng, d + 1) for _ in range(rng.choice([2, 2, 3]))])
        if x < 0.84:
            return rep(self.core(rng, d + 2), 1, None, "+")
        if x < 0.88:
            n = rng.choice([2, 3])
            return rep(self.core(rng, d + 2), n, n, "^%d" % n)
        if x < 0.9:
            return rep(self.core(rng, d + 2), 1, 3, "^{1,3}")
        if x < 0.95 and self.trans:
            o = "".join(rng.choice(CORE) for _ in range(rng.choice([0, 1, 1, 2])))
            a = self.single(rng) if rng.random() < 0.4 else self.lit(rng)
            if "Lst" in a.text or "Exc" in a.text:      # symbol lists are lost in a cross product
                a = self.lit(rng)
            return cross(a, o, "{%s}" % o if o else "0")
        if x < 0.97 and self.weights:
            return wt(self.core(rng, d + 1), rng.choice([0.25, 0.5, 1, 2]))
        if self.funcs and x < 0.985:
            name, body = rng.choice(self.funcs)
            a = self.core(rng, d + 1)
            r = body(a)
            return N("%s(%s)" % (name, a.text), r.f)
        if self.lists:
            return rng.choice(self.lists)
        return self.lit(rng)
    def br(self, a):
        return N("[%s]" % a.text, a.f, a.grp, a.lit)
    def maybe(self, rng, d):
        x = rng.random()
        if x < 0.3:
            return rep(self.core(rng, d + 1), 0, 1, "(")
        if x < 0.45:
            return rep(self.core(rng, d + 1), 0, None, "*")
        if x < 0.52 and self.trans:
            return insert(rng.choice("abz"))
        return self.core(rng, d)

    def ctxexpr(self, rng):
        x = rng.random()
        if x < 0.35:
            return self.lit(rng)
        if x < 0.55:
            return self.single(rng)
        if x < 0.68 and self.bnd:
            return alt([bound(), one("Whitespace", CLASSES["Whitespace"])]) if rng.random() < 0.7 else bound()
        if x < 0.8:
            return cat(self.br(self.lit(rng)), self.br(self.single(rng)))
        if x < 0.9:
            return alt([self.lit(rng), self.single(rng)])
        return cat(self.br(rep(self.single(rng), 1, None, "+")), self.br(self.lit(rng)))
    def cond(self, rng):
        def c1():
            return ctx(rng.choice("LR"), self.ctxexpr(rng), rng.random() < 0.35)
        x = rng.random()
        if x < 0.75:
            return c1()
        if x < 0.88:
            return conds("OR", [c1() for _ in range(2)])
        return conds("AND", [c1() for _ in range(2)])

    def rul(self, rng):
        """One alternative: something nonempty, with conditions and a tag."""
        a = self.br(self.core(rng))
        if self.groups and rng.random() < 0.25:
            g = rng.choice(self.groups)
            a = cat(a, g) if rng.random() < 0.5 else cat(g, a) if rng.random() < 0.7 else g
            a = self.br(a)
        if rng.random() < 0.45:
            c = self.cond(rng)
            a = cat(a, c) if rng.random() < 0.6 else cat(c, a)
        return a

    def tagged(self, rng, a):
        x = rng.random()
        t = rng.choice(["X", "Y", "Tag", "Two words", "L\u00e4"])
        if x < 0.7 or a.grp:
            return endtag(a, t, " " in t or rng.random() < 0.2)
        t = rng.choice(["X", "Y"])
        return group(a, "[%s].t(%s)" % (a.text, t), t)

    def program(self, rng):
        self.case_ok = rng.random() < 0.4
        self.trans = rng.random() < 0.4
        self.weights = rng.random() < 0.4
        self.bnd = rng.random() < 0.4
        self.funcs, self.lists, self.groups = [], [], []
        L = []
        self.sep = rng.random() < 0.15
        self.mode = rng.choice(["mark"] * 6 + ["nomark", "delete", "extract"])
        if not self.sep:
            L.append("set need-separators off")
        if self.mode == "nomark":
            L.append("set mark-patterns off")
        elif self.mode == "delete":
            L.append("set delete-patterns on")
        elif self.mode == "extract":
            L.append("set extract-patterns on")
        if rng.random() < 0.2:
            s = rng.sample(CORE, 3)
            L.append("list V [%s];" % " | ".join('"%s"' % c for c in s))
            self.lists.append(one("V", lambda c: c in s))
        if rng.random() < 0.2:
            y = self.lit(rng)
            L.append("Define f(x) [x %s];" % y.text)
            self.funcs.append(("f", lambda a, y=y: cat(a, y)))
        for k in range(rng.choice([0, 0, 1, 1, 2])):
            name = rng.choice(["D%d", "Alfa%d", "TOPP%d", "x%d"]) % k
            x = rng.random()
            a = self.rul(rng)
            if x < 0.75:
                a = self.tagged(rng, a)
            d = group(a) if a.grp else a
            ins = rng.random()
            if ins < 0.2:
                L.append("DefIns %s %s;" % (name, a.text))
                self.groups.append(N(name, d.f))
                continue
            if rng.random() < 0.15:
                # a network that calls itself
                l, r = rng.choice(["a", "b", "1"]), rng.choice(["c", "A", "2"])
                a0 = a
                box = []
                rec = N("Ins(%s)" % name, lambda t, p, e: box[0].ev(t, p, p))
                a = alt([cat(cat(litn(l), rec), litn(r)), a0])
                d = group(a) if a.grp else a
                box.append(d)
                L.append("Define %s %s;" % (name, a.text))
                self.groups.append(N("Ins(%s)" % name, lambda t, p, e, d=d: d.ev(t, p, p)))
                continue
            L.append("Define %s %s;" % (name, a.text))
            self.groups.append(N(name if ins < 0.6 else "Ins(%s)" % name, d.f))
        alts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = self.rul(rng)
            y = rng.random()
            if y < 0.35:
                a = group(a if not a.grp else a, "Define([%s])" % a.text) if not a.grp or rng.random() < 0.5 else a
                alts.append(a)
            else:
                a = self.tagged(rng, a)
                # without parentheses of their own, tags and contexts belong to the whole definition
                alts.append(group(a, "Define([%s])" % a.text) if rng.random() < 0.4 else a)
        if self.sep:
            alts.append(litn("ab"))
        top = alt([self.br(a) for a in alts])
        if not self.sep and rng.random() < 0.3:
            top = endtag(top, "Top", False)
        w = 0.0
        if self.weights and rng.random() < 0.2:
            w = rng.choice([0.5, 1.0])
        d = top
        # Define( ) keeps its contents' need for delimiters, as the parser does for the definition as a whole
        if "EndTag(" in top.text or "C(" in top.text:
            d = group(top)
        if w:
            d0 = d
            d = N("", lambda t, p, e: [(q, x, v + w) for q, x, v in d0.ev(t, p, e)])
        L.append("%s %s;%s" % (rng.choice(["Define TOP", "regex"]), top.text, " %g" % w if w else ""))
        if self.sep:
            side = alt([one("", lambda c: c in WS or c in PU), bound()])
            d1 = d
            d = group(cat(cat(ctx("L", side, False), d1), ctx("R", side, False)))
        return "\n".join(L) + "\n", d

    def text(self, rng, prog):
        pool = rng.choice([CORE, POOL, POOL, ["a", "b", "c", " "], ["a", "b", "1", ".", " "]])
        s = "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 6, 9, 12])))
        # pieces of the program's own literals make matches likely
        import re
        ls = re.findall(r"\{([^}0-9][^}]*)\}", prog)
        for _ in range(rng.choice([0, 1, 2])):
            if ls:
                k = rng.randrange(len(s) + 1)
                s = s[:k] + rng.choice(ls) + s[k:]
        return s[:18]

    def gen(self, rng, k, rep):
        c = Case()
        prog, top = self.program(rng)
        c.data.update(top=top, mode=self.mode, runs=[], prog=prog)
        c.cmd("putfile", "p.pmatch", prog)
        c.data["comp"] = c.cmd("tool", "hfst-pmatch2fst", "p.pmatch", "p.ol", "f")
        c.data["load"] = c.cmd("pm", "P", "p.ol", "1" if rng.random() < 0.3 else "0")
        texts = [self.text(rng, prog) for _ in range(8)]
        for s in texts + rng.sample(texts, 2):
            if rng.random() < 0.5:
                c.data["runs"].append(("match", s, c.cmd("pm_match", "P", s)))
            if rng.random() < 0.5:
                c.data["runs"].append(("locate", s, c.cmd("pm_locate", "P", s)))
        c.data["texts"] = texts
        x = rng.random()
        if x < 0.5:
            c.cmd("putfile", "in.txt", "\n".join(texts) + "\n")
        if x < 0.15:
            c.data["t_match"] = (c.cmd("tool", "hfst-pmatch", "in.txt", "out.txt", "f", "-n", "p.ol"), c.cmd("cat", "out.txt"))
        elif x < 0.3:
            c.data["t_loc"] = (c.cmd("tool", "hfst-pmatch", "in.txt", "out.txt", "f", "-n", "--locate", "-w", "p.ol"), c.cmd("cat", "out.txt"))
        elif x < 0.5:
            c.data["t_tok"] = (c.cmd("tool", "hfst-tokenize", "in.txt", "out.txt", "f", "-n", "-a", "p.ol"), c.cmd("cat", "out.txt"))
        return c

    def walk(self, top, s):
        """[(start, end, {(pieces, weight)}) or (start, end, None)] over the text."""
        t = Text(s)
        out = []
        p = 1
        un = None
        while p <= t.n:
            r = top.ev(t, p, p)
            if any(q == p for q, x, w in r):
                raise Skip
            if r:
                e = max(q for q, x, w in r)
                out.append((p, e, {(x, w) for q, x, w in r if q == e}))
                p = e
            else:
                out.append((p, p + 1, None))
                p += 1
        return t, out

    def judge(self, c, o, rep):
        d = c.data
        pc = o[d["comp"]]
        rc = pc.get("rc")[0]
        if rc != "0":
            rep.bad("program refused", "%s\n%s" % (d["prog"], pc.get("err")), c.text())
            return
        if o[d["load"]].exc:
            rep.bad("archive not loaded", o[d["load"]].exc, c.text())
            return
        cache = {}
        def plan(s):
            if s not in cache:
                try:
                    cache[s] = self.walk(d["top"], s)
                except (Skip, RecursionError):
                    rep.inc("inconclusive_model")
                    cache[s] = None
            return cache[s]
        def outputs(s):
            """All outputs match() may give."""
            t, ws = plan(s)
            res = {()}
            for a, e, m in ws:
                if m is None:
                    opts = {tuple(t.s[a:e])}
                else:
                    w0 = min(w for x, w in m)
                    opts = {x for x, w in m if w == w0}
                res = {x + y for x in res for y in opts}
                if len(res) > 3000:
                    raise Skip
            return {stringify(x, d["mode"]) for x in res}
        def sig(s):
            t, ws = plan(s)
            return (d["prog"], s) if any(m for *_, m in ws) else None
        def locs(s):
            """What locate() must say: nonmatching stretches joined."""
            t, ws = plan(s)
            out = []
            for a, e, m in ws:
                if m is None and out and out[-1][2] is None:
                    out[-1] = (out[-1][0], e, None)
                else:
                    out.append((a, e, m))
            return t, out
        for kind, s, k in d["runs"]:
            r = o[k]
            if plan(s) is None:
                continue
            if not r.done or r.exc:
                rep.bad("%s failed" % kind, str(r.exc), c.text())
                continue
            if kind == "match":
                got = r.get("s")[0]
                try:
                    want = outputs(s)
                except Skip:
                    continue
                if got not in want:
                    rep.bad("match [%s]" % d["mode"], "%s text %r: got %r, expected one of %r" % (d["prog"], s, got, sorted(want)[:4]), c.text())
                rep.ok(sig(s))
                rep.inc("match")
            else:
                got, cur = [], None
                if r.get("symbols"):
                    rep.bad("symbols of a location", str(r.lines), c.text())
                for l in r.lines:
                    if l == "L":
                        got.append([])
                    elif l.startswith("l\t"):
                        x = l.split("\t")
                        got[-1].append((int(x[1]), int(x[2]), x[3], x[4], x[5], float(x[6])))
                t, want = locs(s)
                bad = None
                if len(got) != len(want):
                    bad = "number of locations"
                else:
                    for g, (a, e, m) in zip(got, want):
                        if m is None:
                            if g != [(a - 1, e - a, t.s[a:e], "@_NONMATCHING_@", "", 0.0)]:
                                bad = "nonmatching text"
                                break
                            continue
                        lw = {}
                        allw = set()
                        for x, w in m:
                            out = "".join(y for y in x if y[0] > "\x03")
                            tag = [y[1:] for y in x if y[0] == "\x03"]
                            kx = (out, "<%s>" % tag[-1] if tag else "")
                            lw[kx] = min(w, lw.get(kx, 1e9))
                            allw.add((kx, w))
                        gl = {}
                        for y in g:
                            if y[0] != a - 1 or y[1] != e - a or y[2] != t.s[a:e]:
                                bad = "position"
                            if ((y[3], y[4]), y[5]) not in allw:
                                bad = "analysis that is not there"
                            gl[(y[3], y[4])] = min(y[5], gl.get((y[3], y[4]), 1e9))
                        if not bad and gl != lw:
                            bad = "analyses lost"
                        if not bad and [y[5] for y in g] != sorted(y[5] for y in g):
                            bad = "order of analyses"
                        if bad:
                            break
                if bad:
                    rep.bad("locate: %s" % bad, "%s text %r: got %r, expected %r" % (d["prog"], s, got, [(a - 1, e - a, m if m is None else sorted(m)[:3]) for a, e, m in want]), c.text())
                rep.ok(sig(s))
                rep.inc("locate")
        texts = d["texts"]
        for key in ("t_match", "t_loc", "t_tok"):
            if key not in d:
                continue
            if any(plan(s) is None for s in texts):
                continue
            r, f = o[d[key][0]], o[d[key][1]]
            if r.get("rc")[0] != "0":
                rep.bad("%s failed" % key, str(r.get("err")), c.text())
                continue
            got = f.get("c")[0]
            ok = True
            if key == "t_match":
                gl = got.split("\n")
                if len(gl) != len(texts) + 1 or gl[-1] != "":
                    ok = False
                else:
                    for s, g in zip(texts, gl):
                        try:
                            if g not in outputs(s):
                                ok = False
                        except Skip:
                            pass
            elif key == "t_loc":
                pos = 0
                gl = got.split("\n")
                for s in texts:
                    t, ws = locs(s)
                    ms = [x for x in ws if x[2] is not None]
                    for a, e, m in ms:
                        w0 = min(w for x, w in m)
                        opts = set()
                        for x, w in m:
                            if w == w0:
                                tag = [y[1:] for y in x if y[0] == "\x03"]
                                opts.add("%d|%d|%s|%s|%s" % (a - 1, e - a, "".join(y for y in x if y[0] > "\x03"), "<%s>" % tag[-1] if tag else "", "%g" % w0))
                        if pos >= len(gl) or gl[pos] not in opts:
                            ok = False
                        pos += 1
                    if ms:
                        if pos >= len(gl) or gl[pos] != "":
                            ok = False
                        pos += 1
                if gl[pos:] not in ([], [""]):
                    ok = False
            else:
                want = ""
                for s in texts:
                    t, ws = locs(s)
                    if not ws:
                        want += s + "\n\n"    # print_no_output
                        continue
                    for a, e, m in ws:
                        want += t.s[a:e] + "\n"
                    want += "\n"
                ok = got == want
                if not ok:
                    rep.bad("hfst-tokenize", "%s texts %r: got %r expected %r" % (d["prog"], texts, got, want), c.text())
                    continue
            if not ok:
                rep.bad("hfst-pmatch %s" % key, "%s texts %r: got %r" % (d["prog"], texts, got), c.text())
            rep.ok((key, d["prog"]))
            rep.inc(key)

CHECK = C()
