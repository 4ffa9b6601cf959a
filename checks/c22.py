"""C22: the xfst interpreter keeps its stack and definitions right."""
import re
import ref, gen
from ref import EPS, Fst
from drv import Case
from chk import Check
from c21 import FMT, CHECK as C21

SPLIT = C21.split_read

NAMES = ["X", "Y", "F"]
FRESH = ["y", "z"]
SYMS = ["a", "b", "c", "d", "\u00e4"]
U = set(NAMES + FRESH + SYMS)

class Net:
    """A network of the model. auto: True (only x:x), False (surely some x:y), None (not known). exact: the alignment of the pairs is sure."""
    def __init__(self, f, auto=True, exact=True, known=True):
        self.f, self.auto, self.exact, self.known = ref.trim(f), auto, exact or auto is True, known
        self.name = None
    def copy(self):
        n = Net(self.f, self.auto, self.exact, self.known)
        n.name = self.name
        return n

NOTHING = Net(ref.empty(), None, False, False)
def lost():
    return Net(ref.empty(), None, False, False)

def differs(f):
    """f relates some string to a different one (or None when not found)."""
    r = ref.str_rel(f, 4, 4, 20000)
    return bool(r) and any(x != y for x, y in r)

def autoness(f):
    if all(i == o for a in f.arcs for i, o, w, t in a):
        return None
    return False if differs(f) else None

def big(n):
    return n.f.n > 120 or n.f.narcs() > 1500

def ignore(a, b):
    g = a.copy()
    for s in range(a.n):
        off = ref._append(g, b)
        g.arcs[s].append((EPS, EPS, 0.0, off))
        for q, w in b.fin.items():
            g.arcs[q + off].append((EPS, EPS, w, s))
    return g

def finite(f):
    return not ref.is_cyclic(ref.trim(eps_free_view(f)))

def eps_free_view(f):
    """eps:eps cycles do not make a language infinite."""
    f = ref.trim(f)
    return ref.trim(ref.determinize(f)) if f.fin else f

def side_finite(f, side):
    return finite(ref.project(ref.unweight(f), side))

def strings(f, cap=400):
    """{string: weight} of a finite automaton; None if large or infinite."""
    f = ref.trim(f)
    if not f.fin:
        return {}
    if not finite(f):
        return None
    r = ref.str_rel(f, f.n + 2, f.n + 2, 30000)
    if r is None or len(r) > cap:
        return None
    return {k[0]: w for k, w in r.items()}

def inf_amb(f):
    """Some cycle consumes no input but writes output."""
    f = ref.trim(f)
    if not f.fin:
        return False
    adj = [[(t, o) for i, o, w, t in a if i == EPS] for a in f.arcs]
    def reach(s):
        seen, todo = {s}, [s]
        while todo:
            for t, o in adj[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen
    R = [reach(s) for s in range(f.n)]
    return any(o != EPS and s in R[t] for s in range(f.n) for t, o in adj[s])

class C(Check):
    id = "C22"
    quick = (96, 12)
    thorough = (1000, 20)
    cpu = 60
    targets = ("tools",)
    technique = "ASan/UBSan-instrumented runs of the interpreter; an offline monitor replays the command history on a model of stack and definitions and compares answers and saved stacks"
    rule = ("Random histories of 5-40 xfst commands (regex, definitions and functions, push, pop, clear, turn, rotate, all stack operations, sides, closures, substitution, save and load of stack and definitions, tests, apply up and down, words, shortest and longest strings, stack and definition listings, "
            "and failing commands) in three back ends, run through hfst-xfst. A model keeps stack and definitions as weighted relations over a universe with two unused symbols; every answer printed and every saved stack or definition file must agree with it. "
            "Non-trivial: a saved stack held a nonempty network, or an answer about one was checked.")
    assumptions = ["library operations are decided by C01-C13; expressions here use only basic operators"]

    # ---------------------------------------------------------------- regular expressions
    def rx(self, rng, S, depth, auto):
        """(text, Net)"""
        x = rng.random()
        if depth <= 0 or x < 0.2:
            y = rng.random()
            if S["defs"] and y < 0.25:
                nm = rng.choice(sorted(S["defs"]))
                n = S["defs"][nm]
                if n.known and not (auto and n.auto is not True) and not big(n):
                    return nm, n.copy()
            if y < 0.32 and S["undef"]:
                nm = rng.choice(S["undef"])     # an undefined name is an ordinary symbol
                if nm not in S["defs"]:
                    return nm, Net(ref.pair(nm, nm))
            if y < 0.42 and S["wild"]:
                return "?", Net(ref.union(*[ref.pair(u, u) for u in sorted(U)]))
            if y < 0.47:
                return "0", Net(ref.epsilon())
            if y < 0.55:
                w = "".join(rng.choice(SYMS) for _ in range(rng.randint(1, 4)))
                return "{%s}" % w, Net(ref.string([(c, c) for c in w]))
            if y < 0.7 and not auto:
                i, o = rng.choice(SYMS + [EPS]), rng.choice(SYMS + [EPS])
                if i != o:
                    return "%s:%s" % ("0" if i == EPS else i, "0" if o == EPS else o), Net(ref.pair(i, o), False)
            s = rng.choice(SYMS)
            return s, Net(ref.pair(s, s))
        sub = lambda a=auto: self.rx(rng, S, depth - 1, a)
        def two(op):
            s, m = sub()
            t, n = sub()
            f = op(m.f, n.f)
            au = True if m.auto is True and n.auto is True else autoness(f)
            return s, t, Net(f, au, m.exact and n.exact, m.known and n.known)
        if x < 0.45:
            s, t, n = two(ref.concat)
            return "[%s %s]" % (s, t), n
        if x < 0.65:
            s, t, n = two(lambda a, b: ref.union(a, b))
            return "[%s | %s]" % (s, t), n
        if x < 0.8:
            s, m = sub()
            o = rng.choice("*+?")
            if big(m):
                return s, m
            f = ref.star(m.f) if o == "*" else ref.plus(m.f) if o == "+" else ref.opt(m.f)
            au = m.auto if m.auto is True else autoness(f)
            return ("(%s)" % s if o == "?" else "[%s]%s" % (s, o)), Net(f, au, m.exact, m.known)
        if x < 0.86 and S["weighted"]:
            s, m = sub()
            w = rng.choice([1, 2, 3, 0.5])
            g = m.f.copy()
            g.fin = {q: v + w for q, v in g.fin.items()}
            return "[%s]::%s" % (s, w), Net(g, m.auto, m.exact, m.known)
        if x < 0.9 and S["wild"] and not S["weighted"]:
            s, m = sub(True)
            if m.auto is True and not big(m) and m.known:
                return "~[%s]" % s, Net(ref.negate(m.f, U))
            return s, m
        if x < 0.94 and S["funs"]:
            fn = rng.choice(sorted(S["funs"]))
            args = [sub() for _ in range(S["funs"][fn][0])]
            if all(n.known and not big(n) for _, n in args):
                n = S["funs"][fn][1](*[n for _, n in args])
                if not (auto and n.auto is not True):
                    return "%s(%s)" % (fn, ", ".join(t for t, _ in args)), n
        s, m = sub(True)
        t, n = sub(True)
        if m.auto is not True or n.auto is not True or big(m) or big(n):
            return s, m
        if rng.random() < 0.5 or S["weighted"]:
            return "[%s & %s]" % (s, t), Net(ref.intersect(m.f, n.f), True, True, m.known and n.known)
        return "[%s - %s]" % (s, t), Net(ref.subtract(m.f, n.f), True, True, m.known and n.known)

    # ---------------------------------------------------------------- a history
    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        D["ty"] = ty = rng.choice(["tropical"] * 6 + ["sfst", "foma", "foma"])
        weighted = ty == "tropical" and rng.random() < 0.4
        S = dict(defs={}, funs={}, undef=[], wild=rng.random() < 0.35, weighted=weighted, stack=[], files={}, dfiles={}, nfile=0, alld={})
        D["exp"] = exp = []
        self.script = ["set print-weight ON"] if weighted else []
        D["weighted"] = weighted
        # functions are defined first
        if rng.random() < 0.3:
            self.script.append("define g(x) [x | b x];")
            S["funs"]["g"] = (1, lambda m: self.fun(m, lambda f: ref.union(f, ref.concat(ref.pair("b", "b"), f))))
        if rng.random() < 0.2:
            self.script.append("define h(x, w) [w x w];")
            S["funs"]["h"] = (2, lambda m, n: self.fun2(m, n))
        n = rng.choice([5, 10, 20, 40])
        self.failing = False
        self.put_files = []
        for j in range(rng.choice([0, 1, 2])):
            self.command(rng, S, exp, "regex")
        for j in range(n):
            self.command(rng, S, exp)
            if any(n.known and n.f.n > 300 for n in S["stack"]):
                break
        self.command(rng, S, exp, "save")
        if rng.random() < 0.5:
            self.command(rng, S, exp, "saved")
        if rng.random() < 0.1:      # stop at the first failure
            self.script.append("set quit-on-fail ON")
            self.script += rng.choice([["regex a - ;"], ["define X a - ;"], ["load stack nofile"]])
            self.script += ["echo ===Q", "regex a;", "save stack late.hfst"]
            D["quits"] = True
        D["script"] = "\n".join(self.script) + "\n"
        D["failing"] = self.failing
        D["files"] = self.put_files
        for fn, t in self.put_files:
            c.cmd("putfile", fn, t)
        c.cmd("putfile", "s.xfst", D["script"])
        mode = rng.choice(["F", "F", "l", "p"])
        if mode == "p" and not D.get("quits"):
            D["run"] = c.cmd("tool", "hfst-xfst", "s.xfst", "out", rng.choice("fp"), "-q", "-r", "-f", FMT[ty], "-p")
        else:
            D["run"] = c.cmd("tool", "hfst-xfst", "-", "out", "f", "-q", "-f", FMT[ty], "-" + mode, "s.xfst") if mode == "F" else \
                c.cmd("tool", "hfst-xfst", "-", "out", "f", "-q", "--format=" + FMT[ty], "--scriptfile=s.xfst")
        D["out"] = c.cmd("cat", "out")
        for e in exp:
            if e[0] in ("stack", "defs"):
                e.append(c.cmd("readall", e[2]))
        if D.get("quits"):
            D["late"] = c.cmd("cat", "late.hfst")
        c.cmd("rm", "late.hfst", "out", *["%s%d.hfst" % (p, j) for p in "sd" for j in range(S["nfile"] + 1)])
        return c

    def fun(self, m, op):
        f = op(m.f)
        return Net(f, True if m.auto is True else autoness(f), m.exact)
    def fun2(self, m, n):
        f = ref.concat(n.f, ref.concat(m.f, n.f))
        return Net(f, True if m.auto is True and n.auto is True else autoness(f), m.exact and n.exact)

    KINDS = (["regex"] * 8 + ["define"] * 3 + ["definetop"] * 2 + ["push"] * 3 + ["pushall", "undefine", "undefine", "pop", "pop", "clear", "turn", "turn", "rotate", "rotate"]
             + ["iter"] * 5 + ["binary"] * 4 + ["unary"] * 6 + ["negate", "label", "sigma", "subst", "subst", "substdef", "name"]
             + ["save"] * 3 + ["load", "load", "saved", "loadd"] + ["att", "prolog", "text", "spaced", "source", "sublabel", "sublabel"] + ["test"] * 6 + ["apply"] * 4 + ["words"] * 3 + ["short", "print", "print", "pdef", "fail", "fail"])

    def command(self, rng, S, exp, kind=None):
        kind = kind or rng.choice(self.KINDS)
        st = S["stack"]
        if kind == "regex" and len(st) > 6:
            kind = "pop"
        e = getattr(self, "x_" + kind)(rng, S, st)
        if e is None:
            return
        line, ex = e
        self.script.append(line)
        self.script.append("echo ===%d" % len(exp))
        exp.append(list(ex))

    # each returns (text, expectation) after updating the model; stack top is st[-1]
    def x_regex(self, rng, S, st):
        t, n = self.rx(rng, S, rng.choice([1, 2, 2, 3]), rng.random() < 0.6)
        if not n.known or n.f.n > 150:
            return None
        st.append(n)
        return rng.choice(["regex %s ;", "read regex %s ;"]) % t, ("none",)
    def x_define(self, rng, S, st):
        t, n = self.rx(rng, S, rng.choice([0, 1, 2]), rng.random() < 0.6)
        if not n.known or n.f.n > 60:
            return None
        nm = rng.choice(NAMES)
        n = n.copy()
        S["defs"][nm] = n
        return "define %s %s ;" % (nm, t), ("none",)
    def x_definetop(self, rng, S, st):
        nm = rng.choice(NAMES)
        if not st:
            self.failing = True
            return "define %s" % nm + rng.choice(["", ";"]), ("error",)
        S["defs"][nm] = st.pop().copy()
        return "define %s" % nm + rng.choice(["", ";"]), ("none",)
    def x_push(self, rng, S, st):
        nm = rng.choice(NAMES)
        if nm not in S["defs"]:
            self.failing = True
            return "push %s" % nm, ("error",)
        st.append(S["defs"][nm].copy())
        return rng.choice(["push %s", "push defined %s"]) % nm, ("none",)
    def x_pushall(self, rng, S, st):
        if len(st) > 4:
            return None
        for nm in sorted(S["defs"]):
            st.append(S["defs"][nm].copy())
        return "push defined" if rng.random() < 0.3 else "push", ("none",)
    def x_undefine(self, rng, S, st):
        nms = rng.sample(NAMES, rng.choice([1, 1, 2]))
        for nm in nms:
            S["defs"].pop(nm, None)
            if nm not in S["undef"]:
                S["undef"].append(nm)
        return "undefine " + " ".join(nms), ("none",)
    def x_pop(self, rng, S, st):
        if st:
            st.pop()
        return rng.choice(["pop", "pop stack"]), ("none",)
    def x_clear(self, rng, S, st):
        if rng.random() < 0.6:
            return None
        del st[:]
        return rng.choice(["clear", "clear stack"]), ("none",)
    def x_turn(self, rng, S, st):
        if len(st) < 2:
            return None
        st.reverse()
        return rng.choice(["turn", "turn stack"]), ("none",)
    def x_rotate(self, rng, S, st):
        if len(st) < 2:
            return None
        st.insert(0, st.pop())
        return rng.choice(["rotate", "rotate stack"]), ("none",)

    def combine(self, op, m, n):
        """The network of a binary operation, or lost()."""
        if not (m.known and n.known) or m.f.n * n.f.n > 1500:
            return lost()
        both = m.auto is True and n.auto is True
        exact = m.exact and n.exact
        if op == "union":
            f = ref.union(m.f, n.f)
        elif op == "concatenate":
            f = ref.concat(m.f, n.f)
        elif op == "compose":
            f = ref.compose(m.f, n.f)
            exact = False
        elif op == "intersect":
            if not exact and not both:
                return lost()
            f = ref.intersect(m.f, n.f)
        elif op == "minus":
            if not exact and not both:
                return lost()
            f = ref.subtract(m.f, n.f)
        elif op == "shuffle":
            f = ref.shuffle(m.f, n.f)
        elif op == "ignore":
            if not exact and not both:
                return lost()
            f = ignore(m.f, n.f)
            exact = both
        elif op == "crossproduct":
            f = ref.cross(m.f, n.f)
            return Net(f, autoness(f), False)
        f = ref.trim(f)
        return Net(f, True if both else autoness(f), exact)

    def x_iter(self, rng, S, st):
        op = rng.choice(["union", "concatenate", "compose", "intersect", "shuffle"])
        if len(st) > 3 and rng.random() < 0.7:
            return None
        line = op + rng.choice(["", " net"])
        if len(st) < 2:
            self.failing = True
            return line, ("error",)
        if op == "shuffle":
            if any(n.auto is not True for n in st):
                if any(n.auto is False for n in st) and rng.random() < 0.5:
                    self.failing = True
                    return line, ("error",)
                return None
            if S["wild"]:
                return None
        r = st[-1].copy()
        for n in reversed(st[:-1]):
            r = self.combine(op, r, n)
        st[:] = [r]
        return line, ("none",)

    def x_binary(self, rng, S, st):
        op = rng.choice(["minus", "minus", "ignore", "crossproduct", "crossproduct"])
        line = op + rng.choice(["", " net"])
        if len(st) < 2:
            self.failing = True
            return line, ("error",)
        m, n = st[-1], st[-2]
        if op == "crossproduct" and not (m.auto is True and n.auto is True):
            if m.auto is None or n.auto is None or not (m.known and n.known):
                return None
            self.failing = True
            return line, ("error",)
        if S["weighted"] and op == "ignore":
            return None
        if S["wild"] and op in ("crossproduct",):
            return None
        st[-2:] = [self.combine(op, m, n)]
        return line, ("none",)

    UN = {"invert": ref.invert, "reverse": ref.reverse, "upper-side": lambda f: ref.project(f, 0), "lower-side": lambda f: ref.project(f, 1),
          "zero-plus": ref.star, "one-plus": ref.plus, "minimize": lambda f: f, "determinize": lambda f: f, "epsilon-remove": lambda f: f}
    def x_unary(self, rng, S, st):
        op = rng.choice(sorted(self.UN))
        if not st:
            self.failing = True
            return op, ("error",)
        n = st[-1]
        if n.known:
            f = self.UN[op](n.f)
            au = True if n.auto is True or op in ("upper-side", "lower-side") else n.auto if op in ("minimize", "determinize", "epsilon-remove") else autoness(f)
            st[-1] = Net(f, au, n.exact)
            if big(st[-1]) and st[-1].f.n > 300:
                st[-1] = lost()
        elif op in ("determinize",):
            return None
        else:
            st[-1] = lost()
        return op + rng.choice(["", " net"]), ("none",)

    def x_negate(self, rng, S, st):
        if not st:
            self.failing = True
            return "negate", ("error",)
        n = st[-1]
        if not n.known or n.auto is None or big(n):
            return None
        if n.auto is False:
            self.failing = True
            return "negate net", ("error",)
        if not S["wild"] or S["weighted"]:
            return None
        st[-1] = Net(ref.negate(n.f, U))
        return rng.choice(["negate", "negate net"]), ("none",)

    def x_label(self, rng, S, st):
        if not st:
            self.failing = True
            return "label net", ("error",)
        n = st[-1]
        if not n.known or not n.exact or S["wild"] or S["weighted"] or big(n):
            return None
        d = ref.trim(ref.determinize(n.f)) if n.f.fin else n.f
        ps = sorted(ref.used_pairs(d))
        f = ref.union(*[ref.pair(*p) for p in ps]) if ps else ref.empty()
        st[-1] = Net(f, True if all(i == o for i, o in ps) else autoness(f))
        return "label net", ("none",)

    def x_sigma(self, rng, S, st):
        if not st:
            self.failing = True
            return "sigma net", ("error",)
        n = st[-1]
        if not n.known or S["wild"]:
            return None
        used = {x for p in ref.used_pairs(ref.trim(n.f)) for x in p} - {EPS}
        st.append(lost())
        st[-1].auto = None
        st[-1].sigma = used
        return "sigma net", ("none",)

    def x_subst(self, rng, S, st):
        if S["wild"]:
            return None
        old = rng.choice(SYMS + ["y"])
        new = rng.sample([x for x in SYMS if x != old], rng.choice([1, 1, 2]))
        line = "substitute symbol %s for %s" % (" ".join(new), old)
        if not st:
            self.failing = True
            return line, ("error",)
        n = st[-1]
        if not n.known or not n.exact:
            return None
        # every occurrence on either side becomes each of the new symbols
        g = n.f.copy()
        g.arcs = [[(p, q, w, t) for i, o, w, t in a for p, q in self.subpairs(i, o, old, new)] for a in n.f.arcs]
        st[-1] = Net(g, True if n.auto is True else autoness(g), n.exact)
        return line, ("none",)

    def subpairs(self, i, o, old, new):
        if i == o == old:
            return [(x, x) for x in new]
        if i == old:
            return [(x, o) for x in new]
        if o == old:
            return [(i, x) for x in new]
        return [(i, o)]

    def x_substdef(self, rng, S, st):
        nm, y = rng.choice(NAMES), rng.choice(SYMS)
        line = "substitute defined %s for %s" % (nm, y)
        if S["wild"]:
            return None
        if not st or nm not in S["defs"]:
            self.failing = True
            return line, ("error",)
        n, d = st[-1], S["defs"][nm]
        if not n.known or not n.exact or not d.known or big(n) or big(d):
            return None
        if any((i == y) != (o == y) for i, o in ref.used_pairs(ref.trim(ref.determinize(n.f)) if n.f.fin else n.f)):
            self.failing = True
            return line, ("error",)
        g = n.f.copy()
        for s in range(n.f.n):
            keep = []
            for i, o, w, t in n.f.arcs[s]:
                if i == o == y:
                    if d.f.fin:
                        off = ref._append(g, d.f)
                        keep.append((EPS, EPS, w, off))
                        for q, v in d.f.fin.items():
                            g.arcs[q + off].append((EPS, EPS, v, t))
                else:
                    keep.append((i, o, w, t))
            g.arcs[s] = keep
        both = n.auto is True and d.auto is True
        st[-1] = Net(g, True if both else autoness(g), n.exact and d.exact)
        return line, ("none",)

    def x_name(self, rng, S, st):
        nm = rng.choice(["foo", "n\u00e4t", "X"])
        if not st:
            self.failing = True
            return "name " + nm, ("error",)
        st[-1].name = nm
        S["justnamed"] = True
        return "name " + nm + "\nprint name", ("has", "Name " + nm)

    # networks through text files
    def x_att(self, rng, S, st):
        if not st or len(st) > 6 or S["wild"]:
            return None
        st.append(st[-1].copy())
        if hasattr(st[-2], "sigma"):
            st[-1] = lost()
        return "write att > t.att\nread att t.att", ("none",)
    def x_prolog(self, rng, S, st):
        if not st or len(st) > 6 or S["wild"] or S["weighted"]:
            return None
        n = st[-1].copy()
        if any(x in ("?", "0") for p in ref.used_pairs(n.f) for x in p):
            return None
        st.append(n)
        return "write prolog > t.pl\nread prolog t.pl", ("none",)
    def put(self, S, text):
        S["nput"] = S.get("nput", 0) + 1
        fn = "w%d.txt" % S["nput"]
        self.put_files.append((fn, text))
        return fn
    def x_text(self, rng, S, st):
        if len(st) > 6:
            return None
        ws = ["".join(rng.choice(SYMS) for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(1, 6))]
        st.append(Net(ref.union(*[ref.string([(x, x) for x in w]) for w in ws])))
        return rng.choice(["read text ", "read text < ", "rt "]) + self.put(S, "\n".join(ws) + rng.choice(["", "\n"])), ("none",)
    def x_spaced(self, rng, S, st):
        if len(st) > 6:
            return None
        ws = []
        for _ in range(rng.randint(1, 5)):
            ws.append([(x, x) if rng.random() < 0.7 else (x, rng.choice(SYMS)) for x in (rng.choice(SYMS) for _ in range(rng.randint(1, 4)))])
        f = ref.union(*[ref.string(w) for w in ws])
        st.append(Net(f, True if all(i == o for w in ws for i, o in w) else autoness(f)))
        t = "\n".join(rng.choice([" ", " ", "  "]).join(i if i == o else i + ":" + o for i, o in w) for w in ws)
        return rng.choice(["read spaced-text ", "rs "]) + self.put(S, t + "\n"), ("none",)
    def x_source(self, rng, S, st):
        if len(st) > 6:
            return None
        lines = []
        for _ in range(rng.randint(1, 3)):
            e = getattr(self, "x_" + rng.choice(["regex", "define", "turn", "push", "undefine"]))(rng, S, st)
            if e:
                lines.append(e[0])
        if not lines:
            return None
        return "source " + self.put(S, "\n".join(lines) + "\n"), ("none",)
    def x_sublabel(self, rng, S, st):
        if S["wild"] or not st or not st[-1].known or not st[-1].exact:
            return None
        n = st[-1]
        d = ref.trim(ref.determinize(n.f)) if n.f.fin else n.f
        have = sorted(ref.used_pairs(d))
        sy = lambda: rng.choice(SYMS + [EPS])
        lab = lambda: rng.choice([(x, x) for x in SYMS] + [(sy(), sy())])
        old = rng.choice(have) if have and rng.random() < 0.8 else lab()
        new = [lab() for _ in range(rng.choice([1, 1, 2]))]
        if old == (EPS, EPS):
            return None
        z = lambda p: ("%s" if p[0] == p[1] else "%s:%s") .__mod__(("0" if p[0] == EPS else p[0],) if p[0] == p[1] else tuple("0" if x == EPS else x for x in p))
        if rng.random() < 0.1:
            new = []
        line = "substitute label %s for %s" % (" ".join(z(p) for p in new) or "NOTHING", z(old))
        if old not in have:
            self.failing = True
            return line, ("error",)
        g = n.f.copy()
        g.arcs = [[(p, q, w, t) for i, o, w, t in a for p, q in (new if (i, o) == old else [(i, o)])] for a in n.f.arcs]
        st[-1] = Net(g, True if n.auto is True and all(i == o for i, o in new) else autoness(g), n.exact)
        return line, ("none",)

    def x_save(self, rng, S, st):
        S["nfile"] += 1
        fn = "s%d.hfst" % S["nfile"]
        line = rng.choice(["save stack ", "save ", "ss "]) + fn
        if not st:
            self.failing = True
            return line, ("stack", [], fn)
        S["files"][fn] = [n.copy() for n in st]
        for a, b in zip(S["files"][fn], st):
            if hasattr(b, "sigma"):
                a.sigma = b.sigma
        return line, ("stack", list(S["files"][fn]), fn)
    def x_load(self, rng, S, st):
        if not S["files"] or rng.random() < 0.2:
            self.failing = True
            return "load stack nofile.hfst", ("error",)
        fn = rng.choice(sorted(S["files"]))
        if len(st) + len(S["files"][fn]) > 9:
            return None
        st.extend(n.copy() for n in S["files"][fn])
        return rng.choice(["load stack ", "load "]) + fn, ("none",)
    def x_saved(self, rng, S, st):
        S["nfile"] += 1
        fn = "d%d.hfst" % S["nfile"]
        if not S["defs"]:
            self.failing = True
            return "save defined > " + fn, ("error",)
        d = {k: n.copy() for k, n in S["defs"].items()}
        S["dfiles"][fn] = d
        return "save defined > " + fn, ("defs", [d[k] for k in sorted(d)], fn, sorted(d))
    def x_loadd(self, rng, S, st):
        if not S["dfiles"]:
            self.failing = True
            return "load defined nofile.hfst", ("error",)
        fn = rng.choice(sorted(S["dfiles"]))
        for k, n in S["dfiles"][fn].items():
            S["defs"][k] = n.copy()
        return rng.choice(["load defined ", "loadd "]) + fn, ("none",)

    TESTS = {"equivalent": ["test equivalent", "te", "equivalent"], "null": ["test null", "tnu"], "non-null": ["test non-null", "tnn"], "overlap": ["test overlap", "to", "overlap"],
             "sublanguage": ["test sublanguage", "ts", "sublanguage"], "identity": ["test identity", "ti", "identity"], "upper-bounded": ["test upper-bounded", "tub"],
             "lower-bounded": ["test lower-bounded", "tlb"], "upper-universal": ["test upper-universal", "tuu"], "lower-universal": ["test lower-universal", "tlu"],
             "infinitely-ambiguous": ["test infinitely-ambiguous"]}
    def x_test(self, rng, S, st):
        t = rng.choice(sorted(self.TESTS))
        line = rng.choice(self.TESTS[t])
        need = 2 if t in ("equivalent", "overlap", "sublanguage") else 1
        if len(st) < need:
            self.failing = True
            return line, ("error",)
        v = self.truth(t, st, S)
        return line, ("bool", v, t)

    def truth(self, t, st, S):
        n = st[-1]
        if not n.known or big(n):
            return None
        f = ref.unweight(n.f)
        if t == "null":
            return not f.fin
        if t == "non-null":
            return bool(f.fin)
        if t == "upper-bounded":
            return side_finite(f, 1)
        if t == "lower-bounded":
            return side_finite(f, 0)
        if t in ("upper-universal", "lower-universal"):
            g = ref.project(f, 0 if t[0] == "u" else 1)
            return not ref.has_pos_path(ref.negate(g, U))
        if t == "infinitely-ambiguous":
            return inf_amb(f)
        if t == "identity":
            if n.auto is True:
                return True
            return False if differs(f) else None
        m = st[-2]
        if not m.known or big(m):
            return None
        if t == "equivalent":
            if ref.diff_strs(n.f, m.f, 4, 4, False):
                return False
            if (n.exact and m.exact) and not S["weighted"] and not ref.diff_pairs(n.f, m.f, False):
                return True
            return None
        if not all(x.known and not big(x) and x.auto is True for x in st) or len(st) > 5:
            return None
        if t == "sublanguage" and S["weighted"]:
            return None     # the tool compares weights as well
        fs = [ref.unweight(x.f) for x in reversed(st)]      # the top of the stack first
        if t == "sublanguage":
            return not any(ref.has_pos_path(ref.subtract(a, b)) for a, b in zip(fs, fs[1:]))
        for x in fs[1:]:
            f = ref.trim(ref.intersect(f, x))
            if not ref.has_pos_path(f):
                return False
        return True

    def x_apply(self, rng, S, st):
        up = rng.random() < 0.5
        w = None
        if st and st[-1].known:
            r = ref.str_rel(st[-1].f, 5, 5, 3000)
            if r and rng.random() < 0.75:
                k = rng.choice(sorted(r))
                w = "".join(k[1 if up else 0])
        if not w:
            w = "".join(rng.choice(SYMS + ["z"]) for _ in range(rng.randint(1, 4)))
        line = "apply %s %s" % ("up" if up else "down", w) if rng.random() < 0.6 else "%s %s" % ("up" if up else "down", w)
        if not st:
            self.failing = True
            return line, ("error",)
        n = st[-1]
        if not n.known or S["wild"] and n.auto is not True or big(n):
            return line, ("any",)
        f = ref.invert(n.f) if up else n.f
        g = ref.trim(ref.compose(ref.string([(x, x) for x in w]), f))
        if not g.fin:
            return line, ("apply", {})
        r = strings(ref.project(g, 1))
        return line, ("apply", None if r is None or inf_amb(f) else {"".join(k): v for k, v in r.items()})

    def x_words(self, rng, S, st):
        side = rng.choice(["upper", "lower", "both"])
        cmd = {"upper": ["upper-words", "print upper-words"], "lower": ["lower-words", "print lower-words"], "both": ["print words", "words"]}[side]
        line = rng.choice(cmd)
        num = rng.choice([None, None, 1, 2, 5])
        if num:
            line += " %d" % num
        if not st:
            self.failing = True
            return line, ("error",)
        n = st[-1]
        if not n.known or S["wild"]:
            return None
        if side == "both" and n.auto is not True:
            return None
        r = strings(ref.project(n.f, 1 if side == "lower" else 0))
        if r is None or not finite(n.f) or side_finite(n.f, 0) is False or side_finite(n.f, 1) is False:
            return None
        return line, ("words", {"".join(k): v for k, v in r.items()}, num)

    def x_short(self, rng, S, st):
        if not st:
            return None
        n = st[-1]
        if not n.known or S["wild"] or n.auto is not True or S["weighted"]:
            return None
        k = rng.choice(["pss", "pls", "plz", "print shortest-string", "print shortest-string-size", "print longest-string"])
        r = strings(n.f)
        if not r:
            return None
        L = [len(s) for s in r]
        m = min(L) if "s" == k[1] or "shortest" in k else max(L)
        if k == "plz" or k.endswith("size"):
            return k, ("number", m, k[1] == "l")
        return k, ("oneof", ["".join(s) for s in r if len(s) == m], k[1] == "l" or "long" in k)

    def x_print(self, rng, S, st):
        return rng.choice(["print stack", "stack"]), ("depth", len(st))
    def x_pdef(self, rng, S, st):
        return rng.choice(["print defined", "pdefined"]), ("defined", sorted(S["defs"]))
    def x_fail(self, rng, S, st):
        self.failing = True
        return rng.choice(["regex a | ;", "regex [a b ;", "define X a - ;", "define X [ ;", "push nosuch", "load stack nofile.hfst", "substitute defined nosuch for a", "read regex ( ;", "frobnicate", "print words nosuch 3", "loadd nofile.hfst"]), ("error",)

    # ---------------------------------------------------------------- monitor
    def judge(self, c, out, rep):
        D = c.data
        rr = out[D["run"]]
        rc, err = int(rr.get("rc")[0]), rr.get("err")[0]
        def bad(key, msg):
            rep.bad("xfst %s" % key, "%s\n--- script (%s)\n%s--- files %r\n--- stderr\n%s" % (msg, D["ty"], D["script"], D["files"], err[-1500:]), c.text())
        if rc == 99 or "Sanitizer" in err or "runtime error:" in err or rc >= 128 or "terminate called" in err:
            if "libfoma.so" in (re.search(r"#0 [^\n]*", err) or [""])[0]:
                rep.inc("inconclusive_libfoma")
                return
            if rc in (128 + 24, 128 + 9):
                rep.inc("inconclusive_timeout")
                return
            import drv
            bad("crash " + drv.crash_key(err, rc), "exit status %d" % rc)
            return
        if (rc != 0) != bool(D.get("quits")):
            bad("exit status", "%d" % rc)
            return
        txt = (out[D["out"]].get("c") or [""])[0]
        lines = txt.split("\n")
        seg, cur = {}, []
        for l in lines:
            m = re.match(r"^ ?===(\w+)$", l)
            if m:
                seg[m.group(1)] = cur
                cur = []
            else:
                cur.append(l)
        if D.get("quits") and ("Q" in seg or (out[D["late"]].get("c"))):
            bad("quit-on-fail", "commands after the failure were executed: %r" % txt[-300:])
            return
        if D["failing"] and not err.strip() and not any(x.strip() for s in seg.values() for x in s):
            bad("no error report", txt)
            return
        nz = False
        for k, e in enumerate(D["exp"]):
            s = seg.get(str(k))
            if s is None:
                bad("output", "nothing printed for command %d" % k)
                return
            r = self.check(e, s, out, D, bad, k, rep)
            if r is False:
                return
            nz = nz or r
        rep.inc("commands", len(D["exp"]))
        rep.ok(("xfst", D["script"]) if nz else None)

    def parsew(self, l, D):
        if D["weighted"]:
            a, _, b = l.rpartition("\t")
            return a, float(b)
        return l, 0.0

    def check(self, e, s, out, D, bad, k, rep):
        """False: violation reported; True: nontrivial."""
        kind = e[0]
        cmd = self.cmdline(D, k)
        where = "command %d: %s\n" % (k, cmd)
        if kind in ("none", "error", "any"):
            return None
        if kind == "has":
            if not any(e[1] in l for l in s):
                bad("print name", where + repr(s))
                return False
            return None
        if kind == "bool":
            v = [l for l in s if "TRUE" in l]
            if len(v) != 1 or v[0][0] not in "01":
                bad("test output", where + repr(s))
                return False
            rep.inc("tests")
            if e[1] is not None and (v[0][0] == "1") != e[1]:
                bad("test " + e[2], where + "%s instead of %s" % (v[0][0], e[1]))
                return False
            return e[1] is not None
        if kind == "depth":
            n = len([l for l in s if "bytes" in l])
            if n != e[1]:
                bad("stack depth", where + "%d instead of %d" % (n, e[1]))
                return False
            return None
        if kind == "defined":
            got = sorted({l.split()[0] for l in s if l.split() and l.split()[0] in NAMES and len(l.split()) > 1})
            if got != e[1]:
                bad("print defined", where + "%r instead of %r" % (s, e[1]))
                return False
            return None
        if kind in ("apply", "words"):
            want = e[1]
            if want is None or any(c in FRESH for w in want for c in w) and kind == "words":
                return None
            rows = [l for l in s]
            if rows == ["???"] or rows == [""] and kind == "apply" and False:
                rows = []
            elif kind == "apply" and not rows:
                bad("apply printed nothing", where + repr(s))
                return False
            got = {}
            for l in rows:
                try:
                    a, w = self.parsew(l, D)
                except ValueError:
                    bad(kind, where + repr(s))
                    return False
                got[a] = min(w, got.get(a, 1e9))
            rep.inc(kind)
            if kind == "words" and e[2] is not None:
                # N counts paths: different paths can carry the same word
                if not set(got) <= set(want) or (want and not got) or len(rows) > e[2]:
                    bad("words number", where + "%r instead of %d of %r" % (s, e[2], want))
                    return False
                return True
            if set(got) != set(want) or any(abs(got[x] - want[x]) > 1e-3 for x in want):
                bad(kind, where + "%r instead of %r" % (got, want))
                return False
            return bool(want)
        if kind in ("number", "oneof") and e[2]:
            if len(s) != 2 or not s[0].startswith("Upper: ") or not s[1].startswith("Lower: ") :
                bad("longest", where + repr(s))
                return False
            s = sorted({l[7:] for l in s})
        if kind == "number":
            if [l.strip() for l in s if l.strip()] != [str(e[1])]:
                bad("size", where + "%r instead of %r" % (s, e[1]))
                return False
            return True
        if kind == "oneof":
            got = [l for l in s]
            if not got or any(x not in e[1] for x in got):
                bad("string", where + "%r instead of one of %r" % (s, e[1]))
                return False
            return True
        if kind in ("stack", "defs"):
            o = out[e[-1]]
            got = [] if o.exc else SPLIT(o)
            want = e[1]
            if not want:
                if got:
                    bad("saved empty stack", where + "%d networks" % len(got))
                    return False
                return None
            if len(got) != len(want):
                bad("number of networks", where + "%d instead of %d" % (len(got), len(want)))
                return False
            nz = False
            for j, (g, n) in enumerate(zip(got, want)):
                ty, name, f = g
                if ty != D["ty"]:
                    bad("type", where + "%s" % ty)
                    return False
                if kind == "defs" and name != e[3][j]:
                    bad("definition name", where + "%r instead of %r" % (name, e[3][j]))
                    return False
                if hasattr(n, "sigma"):
                    r = ref.lang_strings(f, 0, 3) or set()
                    if not n.sigma:
                        r -= {()}       # not settled for an empty alphabet
                    if not all(len(x) == 1 for x in r) or not n.sigma <= {x[0] for x in r} or not {x[0] for x in r} <= U:
                        bad("sigma net", where + "%r for %r" % (r, n.sigma))
                        return False
                    continue
                if not n.known:
                    rep.inc("unmodelled networks")
                    continue
                f = ref.expand(f, U)
                wt = D["weighted"]
                d = ref.diff_pairs(f, n.f, wt)
                if d and n.exact is False or (d and n.auto is not True):
                    d = ref.diff_strs(f, n.f, 4, 4, wt)
                    if d is None:
                        d2 = ref.diff_pairs(f, n.f, wt) if n.exact else None
                        d = d2
                rep.inc("networks compared")
                if d:
                    bad("network", where + "network %d of %d (bottom first): %r: %r instead of %r" % (j + 1, len(want), d[0], d[1], d[2]))
                    return False
                nz = nz or bool(n.f.fin)
            return nz
        raise Exception(kind)

    def cmdline(self, D, k):
        m = re.search(r"(?:^|\n)((?:(?!echo ===)[^\n]*\n)+)echo ===%d\n" % k, D["script"])
        return m.group(1).strip() if m else "?"

CHECK = C()
