"""C21: command-line tools do to each transducer what the library does."""
import math, re
import ref, gen
from ref import EPS, UNK, IDN
from drv import Case
from chk import Check
from c03 import vis

PLAINP = [["a", "b"], ["a", "b", "c"], ["a", "b", "cc"], ["a", "\u00e4", "\u20ac"], ["x", "yy", "z"]]
FMT = {"tropical": "openfst-tropical", "log": "openfst-log", "sfst": "sfst", "foma": "foma", "ol": "optimized-lookup-unweighted", "olw": "optimized-lookup-weighted"}
W = ("tropical", "olw")
NAMES = ["", "x", "n\u00e4me", "a b", "\u20ac" * 20, "L" * 300]

def relabel(f, fn):
    g = f.copy()
    g.arcs = [[(fn(i, o) + (w, t)) for i, o, w, t in a] for a in f.arcs]
    return g

class C(Check):
    id = "C21"
    quick = (64, 12)
    thorough = (600, 20)
    cpu = 60
    targets = ("tools",)
    technique = "ASan/UBSan-instrumented tool runs; an offline monitor compares output streams, texts and exit statuses with an executable reference model"
    rule = ("Streams of 1-5 random named transducers in one back end are given to a command-line tool through files, redirection or pipes; every transducer of the output stream, in order, must have the reference model's relation, type and (for selection tools) name; "
            "broken invocations must end with a nonzero exit status and a message. Non-trivial: some output transducer accepts something, or the error was reported.")
    assumptions = ["library operations themselves are decided by C01-C16"]

    # ------------------------------------------------------------ workload
    def streams(self, rng, c, ty, n, name, reg, pool, **kw):
        """A stream of n transducers in file name; returns their dumps' indices."""
        it = []
        for j in range(n):
            r = "%s%d" % (reg, j)
            a = dict(syms=pool, weighted=ty in ("tropical", "log"), eps=rng.choice([0, 0.2]), extra=0.1, n=rng.choice([1, 2, 3, 3, 4]))
            a.update(kw)
            if a.pop("words", False):
                f = gen.rand_lexicon(rng, pool, nwords=rng.randint(1, 5), weighted=a["weighted"], automaton=a.get("automaton", False))[0]
            else:
                f = gen.rand_fst(rng, **a)
            c.fst(r, ty, f)
            nm = rng.choice(NAMES) if rng.random() < 0.6 else ""
            if nm:
                c.cmd("set_name", r, nm)
            it.append(c.cmd("dump", r))
        c.cmd("write", name, "1", *["%s%d" % (reg, j) for j in range(n)])
        return it

    def tool(self, rng, c, name, ins, args, out="out.hfst", binary=False, tail=(), plain_out=True):
        """ins: input files. Randomly passes them as arguments, options, redirection or pipe."""
        a = list(args)
        si, mode = "-", "f"
        o = "stdout"
        inp = []
        if len(ins) == 1:
            x = rng.random()
            if x < 0.3:
                inp = [ins[0]]
            elif x < 0.6:
                inp = rng.choice([["-i", ins[0]], ["--input=" + ins[0]]])
            else:
                si = ins[0]
                mode = rng.choice("fpp")
                if rng.random() < 0.2:
                    inp = ["-i", "-"]
        elif len(ins) == 2:
            x = rng.random()
            if x < 0.4:
                inp = list(ins)
            elif x < 0.6:
                inp = ["-1", ins[0], "-2", ins[1]]
            elif x < 0.75:
                inp = ["-2", ins[1]]
                si, mode = ins[0], rng.choice("fp")
            elif x < 0.85:
                inp = ["-1", ins[0]]
                si, mode = ins[1], rng.choice("fp")
            else:
                inp = [ins[1]]
                si, mode = ins[0], rng.choice("fp")
        if plain_out and rng.random() < 0.5:
            inp2 = rng.choice([["-o", out], ["--output=" + out]])
        else:
            inp2 = []
            o = out
        if rng.random() < 0.15:
            a.append(rng.choice(["-v", "-q", "-s"]) if plain_out else "-q")
        if rng.random() < 0.3:
            parts = a + inp2 + inp
        else:
            parts = inp2 + a + inp
        c.data["cli"] = "%s %s <%s >%s %s" % (name, " ".join(parts), si, o, mode)
        return c.cmd("tool", name, si, o, mode, *parts)

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        kind = rng.choice(self.KINDS)
        D["kind"] = kind
        getattr(self, "g_" + kind)(rng, c, D)
        return c

    KINDS = (["simple"] * 5 + ["select"] * 3 + ["binary"] * 5 + ["convert"] * 2 + ["text"] * 2 + ["substitute"] * 2 + ["reweight"] * 2
             + ["strings"] * 2 + ["compare"] * 2 + ["regexp"] * 2 + ["meta", "lookup", "lookup", "s2f", "errors", "errors", "errors", "pairs", "freely", "kill", "cisect"])

    def base(self, rng, c, D, types=("tropical", "tropical", "sfst", "foma", "log"), n=None, name="in.hfst", reg="t", **kw):
        D["ty"] = ty = rng.choice(types)
        D["pool"] = pool = rng.choice(PLAINP)
        n = n or rng.choice([1, 1, 2, 3, 5])
        D["items"] = self.streams(rng, c, ty, n, name, reg, pool, **kw)
        return ty, pool, n

    def back(self, c, D, ty=None):
        D["oty"] = ty or D["ty"]
        D["read"] = c.cmd("readall", "out.hfst")

    def g_simple(self, rng, c, D):
        t = rng.choice(["determinize", "minimize", "remove-epsilons", "reverse", "invert", "repeat", "repeat", "project", "project", "push-weights", "push-labels", "prune-alphabet", "eliminate-flags", "realign", "expand"])
        if t in ("expand", "realign"):
            t = "reverse"
        args = []
        kw = {}
        if t == "repeat":
            args = rng.choice([[], ["-f", "1"], ["-f", "2", "-t", "3"], ["-t", "2"], ["--from=1", "--to=1"], ["-f", "0", "-t", "0"], ["-f", "2"], ["-f", "0", "-t", "1"], ["-f", "1", "-t", "inf"], ["-f", "0", "-t", "inf"], ["-t", "infinity"]])
            kw["extra"] = 0
        elif t == "project":
            args = ["-p", rng.choice(["upper", "input", "first", "analysis", "lower", "output", "second", "generation"])]
        elif t.startswith("push"):
            args = ["-p", rng.choice(["start", "initial", "begin", "end", "final"])]
            if t == "push-weights": kw["dead"] = 0
        elif t == "eliminate-flags":
            kw["flags"] = ["@P.A.x@", "@R.A.x@", "@U.B.y@", "@D.B@"]
            kw["cyclic"] = False
            kw["automaton"] = True
            if rng.random() < 0.4:
                args = [rng.choice(["-F", "--flag"]), rng.choice("AB")]
                if args[0] == "--flag":
                    args = ["--flag=" + args[1]]
                    D["flag"] = args[0][-1]
                else:
                    D["flag"] = args[1]
        elif t == "prune-alphabet":
            args = rng.choice([[], ["-f"], ["-S"]])
            kw["extra"] = 0.8
        types = ("tropical", "tropical", "sfst", "foma") if t in ("push-weights", "push-labels") else ("tropical", "tropical", "sfst", "foma", "log") if t not in ("eliminate-flags", "repeat", "minimize", "determinize", "remove-epsilons") else ("tropical", "sfst", "foma")
        if t == "push-weights":
            types = ("tropical",)
        if t == "eliminate-flags":
            types = ("tropical", "tropical", "sfst")
        self.base(rng, c, D, types=types, **kw)
        D["tool"], D["args"] = t, args
        D["run"] = self.tool(rng, c, "hfst-" + t, ["in.hfst"], args)
        self.back(c, D)
        if t in ("minimize", "determinize", "remove-epsilons"):
            D["lib"] = []
            for j in range(len(D["items"])):
                c.cmd(t.replace("-", "_"), "t%d" % j)
                D["lib"].append(c.cmd("dump", "t%d" % j))

    def m_simple(self, D, f, j):
        t, a = D["tool"], D["args"]
        if t == "reverse": return ref.reverse(f)
        if t == "invert": return ref.invert(f)
        if t == "project": return ref.project(f, 0 if a[1] in ("upper", "input", "first", "analysis") else 1)
        if t == "eliminate-flags":
            return ref.flag_expand(f, D.get("flag"))
        if t == "repeat":
            lo, hi = 0, None
            for x, y in zip(a, a[1:] + [""]):
                if x == "-f": lo = int(y)
                if x.startswith("--from="): lo = int(x[7:])
                if x == "-t": hi = None if y.startswith("inf") else int(y)
                if x.startswith("--to="): hi = int(x[5:])
            g = ref.power(f, lo) if lo else ref.epsilon()
            if hi is None:
                return ref.concat(g, ref.star(f))
            return ref.union(*[ref.power(f, k) if k else ref.epsilon() for k in range(lo, hi + 1)])
        return f

    def g_select(self, rng, c, D):
        t = rng.choice(["head", "tail", "split", "multiply", "name", "head", "tail"])
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma", "log", "tropical"), n=rng.choice([1, 2, 3, 4, 5]))
        conv = rng.random() < 0.15 and ty in ("tropical",) and t != "name"
        D["tool"] = t
        idx = list(range(n))
        args = []
        if t == "head":
            x = rng.choice([None, 1, 2, 3, 9, -1, -2, -9])
            if x is not None:
                args = rng.choice([["-n", str(x)], ["-n%d" % x], ["--n-first=%d" % x]])
            idx = idx[:1 if x is None else x] if (x is None or x > 0) else idx[:max(0, n + x)]
        elif t == "tail":
            x = rng.choice(["1", "2", "3", "9", "+1", "+2", "+3"])
            args = rng.choice([["-n", x], ["--n-last=" + x]])
            idx = idx[int(x) - 1:] if x[0] == "+" else idx[-int(x):]
        elif t == "multiply":
            x = rng.choice([1, 2, 3])
            args = rng.choice([["-n", str(x)], ["--n-times=%d" % x]])
            idx = [i for i in idx for _ in range(x)]
        D["idx"] = idx
        if t == "name":
            D["newname"] = nn = rng.choice(["new", "a b", "\u20acx", "N" * 200])
            args = rng.choice([["-n", nn], ["--name=" + nn]])
            if rng.random() < 0.3:
                args += ["-t", "3"]
                D["newname"] = nn.encode()[:3].decode("utf-8", "ignore")
        if t == "split":
            p, e = rng.choice(["", "p_", "x.y"]), rng.choice([None, ".h", ""])
            args = (["-p", p] if p else []) + (["-e", e] if e is not None else [])
            if not p and e == "":
                e, args = None, []
            D["run"] = self.tool(rng, c, "hfst-split", ["in.hfst"], args, plain_out=False)
            e = ".hfst" if e is None else e
            D["files"] = [c.cmd("readall", "%s%d%s" % (p, i + 1, e)) for i in range(n)]
            D["nomore"] = c.cmd("cat", "%s%d%s" % (p, n + 1, e))
            c.cmd("rm", *["%s%d%s" % (p, i + 1, e) for i in range(n)])
            return
        D["run"] = self.tool(rng, c, "hfst-" + t, ["in.hfst"], args)
        self.back(c, D)

    def g_binary(self, rng, c, D):
        t = rng.choice(["disjunct", "concatenate", "conjunct", "subtract", "compose", "priority-disjunct", "shuffle", "disjunct"])
        aut = t in ("conjunct", "subtract", "shuffle")
        types = ("tropical", "tropical", "sfst", "foma", "log") if t in ("disjunct", "concatenate", "compose") else ("tropical", "sfst", "foma")
        kw = {}
        if aut:
            kw["automaton"] = True
        if t in ("subtract", "priority-disjunct"):
            kw["weighted"] = False
        if t in ("shuffle",):
            types = ("tropical", "foma")
            kw["cyclic"] = False
        n = rng.choice([1, 2, 3, 4])
        ty, pool, n = self.base(rng, c, D, types=types, n=n, **kw)
        m = rng.choice([1, n, n])
        if t == "compose" and n == 1:   # a single first transducer meets each of the second stream
            m = rng.choice([1, 1, 2, 3])
        D["items2"] = self.streams(rng, c, ty, m, "in2.hfst", "u", pool, **kw)
        D["tool"] = t
        args = []
        D["run"] = self.tool(rng, c, "hfst-" + t, ["in.hfst", "in2.hfst"], args)
        self.back(c, D)

    def m_binary(self, D, a, b):
        t = D["tool"]
        if t == "disjunct": return ref.union(a, b)
        if t == "concatenate": return ref.concat(a, b)
        if t == "conjunct": return ref.intersect(a, b)
        if t == "subtract": return ref.subtract(a, b)
        if t == "compose": return ref.compose(a, b)
        if t == "priority-disjunct": return ref.priority_union(a, b, ref.universe(a, b))
        if t == "shuffle": return ref.shuffle(a, b)

    def g_convert(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, wild=rng.choice([0, 0, 0.3]))
        to = rng.choice(["tropical", "log", "sfst", "foma", "ol", "olw"])
        native = rng.random() < 0.15 and n == 1 and to in ("tropical", "log", "foma")
        short = dict(sfst="-S", foma="-F", tropical="-t", log="-l", ol="-O", olw="-w")
        long = dict(sfst="--sfst", foma="--foma", tropical="--openfst-tropical", log="--openfst-log", ol="--optimized-lookup-unweighted", olw="--optimized-lookup-weighted")
        args = rng.choice([["-f", FMT[to]], ["--format=" + FMT[to]], [short[to]], [long[to]]])
        if native:
            args += ["-b"]
        if to in ("ol", "olw") and rng.random() < 0.3:
            args += ["-Q"]
        D["tool"] = "fst2fst"
        D["run"] = self.tool(rng, c, "hfst-fst2fst", ["in.hfst"], args)
        self.back(c, D, to)
        D["unweighted"] = to not in W and to != "log" or ty not in ("tropical", "log")

    def g_text(self, rng, c, D):
        kw = {}
        ty, pool, n = self.base(rng, c, D, types=("tropical", "tropical", "sfst", "foma"), wild=rng.choice([0, 0, 0.3]))
        # fst2txt | txt2fst
        prolog = rng.random() < 0.3
        to = rng.choice(["tropical", "sfst", "foma", "olw"])
        a = ["-f", "prolog"] if prolog else rng.choice([[], ["-f", "att"]])
        r = rng.random()
        if r < 0.3:
            a.append("-w")
        D["run0"] = self.tool(rng, c, "hfst-fst2txt", ["in.hfst"], a, out="mid.txt")
        b = rng.choice([["-f", FMT[to]], ["--format=" + FMT[to]]]) + (["-p"] if prolog else [])
        D["tool"] = "fst2txt+txt2fst" + (" prolog" if prolog else "")
        D["disj"] = not prolog and to != "olw" and rng.random() < 0.2
        if D["disj"]:
            b.append("-j")
        D["run"] = self.tool(rng, c, "hfst-txt2fst", ["mid.txt"], b)
        self.back(c, D, to)
        D["mid"] = c.cmd("cat", "mid.txt")
        D["unweighted"] = to not in W or ty not in W

    def g_substitute(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "tropical", "sfst", "foma"), extra=0)
        s = lambda: rng.choice(pool)
        x = rng.random()
        D["tool"] = "substitute"
        S = D["subs"] = []
        D["order"] = True
        args = []
        if x < 0.3:
            a, b = s(), rng.choice([s(), "N", "@0@", "@_EPSILON_SYMBOL_@"])
            S.append((a, b))
            args = rng.choice([["-f", a, "-t", b], ["--from-label=" + a, "--to-label=" + b]])
        elif x < 0.55:
            a, b = (s(), s()), (rng.choice([s(), "N"]), s())
            S.append((a, b))
            args = ["-f", ":".join(a), "-t", ":".join(b)]
        elif x < 0.7:
            a = (s(), s())
            D["items2"] = self.streams(rng, c, ty, 1, "in2.hfst", "u", pool)
            S.append((a, "T"))
            args = ["-f", ":".join(a), "-T", "in2.hfst"]
        else:
            D["order"] = rng.random() < 0.5
            lines = []
            seen = set()
            pairs = rng.random() < 0.5
            mixed = D["order"] and rng.random() < 0.3
            for _ in range(rng.choice([1, 2, 3])):
                if mixed: pairs = rng.random() < 0.5
                a = (s(), s()) if pairs else s()
                if a in seen:
                    continue
                seen.add(a)
                b = (s(), rng.choice([s(), "N"])) if pairs else rng.choice([s(), "N"])
                S.append((a, b))
                lines.append("%s\t%s" % (":".join(a) if pairs else a, ":".join(b) if pairs else b))
                if rng.random() < 0.2: lines.append(rng.choice(["", "# comment"]))
            c.cmd("putfile", "subs.txt", "\n".join(lines) + "\n")
            args = ["-F", "subs.txt"] + (["-R"] if D["order"] else [])
        D["run"] = self.tool(rng, c, "hfst-substitute", ["in.hfst"], args)
        self.back(c, D)

    def m_substitute(self, D, f, T):
        for a, b in D["subs"]:
            if b == "T":
                g = ref.Fst(f.n)
                g.fin = dict(f.fin)
                for s0, arcs in enumerate(f.arcs):
                    for i, o, w, t in arcs:
                        if (i, o) == a:
                            off = g.n
                            for _ in range(T.n):
                                g.state()
                            for s1, ar in enumerate(T.arcs):
                                for i1, o1, w1, t1 in ar:
                                    g.add(off + s1, off + t1, i1, o1, w1)
                            g.add(s0, off, EPS, EPS, w)
                            for q, w1 in T.fin.items():
                                g.add(off + q, t, EPS, EPS, w1)
                        else:
                            g.add(s0, t, i, o, w)
                g.alpha = f.alpha | T.alpha
                f = g
                continue
        if any(b == "T" for _, b in D["subs"]):
            return f
        def one(subs, p):
            if isinstance(subs[0][0], tuple):
                return dict(subs).get(p, p)
            m = {a: (EPS if b in ("@0@", "@_EPSILON_SYMBOL_@") else b) for a, b in subs}
            return (m.get(p[0], p[0]), m.get(p[1], p[1]))
        if D["order"]:
            for x in D["subs"]:
                f = relabel(f, lambda i, o: one([x], (i, o)))
            return f
        return relabel(f, lambda i, o: one(D["subs"], (i, o)))

    def g_freely(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma"), extra=0, weighted=False)
        a = rng.choice([("N", "N"), ("N", "M"), (pool[0], pool[0]), (pool[0], pool[1])])
        D["tool"], D["pair"] = "insert-freely", a
        D["run"] = self.tool(rng, c, "hfst-insert-freely", ["in.hfst"], ["-a", a[0] if a[0] == a[1] and rng.random() < 0.7 else ":".join(a)])
        self.back(c, D)

    def g_kill(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma"), extra=0)
        s = [rng.choice(pool)]
        D["tool"] = "kill-paths"
        if rng.random() < 0.5:
            args = rng.choice([["-S", s[0]], ["--symbol=" + s[0]]])
        else:
            s = rng.sample(pool, rng.choice([1, 2]))
            c.cmd("putfile", "kill.txt", "".join(rng.choice(["", "# c\n", "\n"]) + x + "\n" for x in s))
            args = ["-T", "kill.txt"]
        D["syms"] = s
        D["run"] = self.tool(rng, c, "hfst-kill-paths", ["in.hfst"], args)
        self.back(c, D)

    def g_reweight(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical",))
        D["tool"] = "reweight"
        O = D["opt"] = {}
        args = []
        def opt(k, v, short, long):
            O[k] = v
            args.extend(rng.choice([["-" + short, str(v)], ["--%s=%s" % (long, v)]]))
        if rng.random() < 0.2:
            lines, O["tsv"] = [], []
            for _ in range(rng.choice([1, 2, 3])):
                s, plus, v = rng.choice(pool), rng.random() < 0.5, rng.choice([0.5, 2, 3])
                O["tsv"].append((s, plus, v))
                lines.append("%s\t%s%s" % (s, "+" if plus else "", v))
            if len({p for _, p, _ in O["tsv"]}) > 1:
                O["tsv"] = [x for x in O["tsv"] if x[1]]
                lines = [l for l in lines if "+" in l]
            c.cmd("putfile", "w.tsv", "# x\n\n" + "\n".join(lines) + "\n")
            args = ["-T", "w.tsv", "-A"]
        else:
            if rng.random() < 0.6: opt("a", rng.choice([0.5, 1, 2.25]), "a", "addition")
            if rng.random() < 0.5: opt("b", rng.choice([0.5, 2, 3, 0]), "b", "multiplier")
            if rng.random() < 0.25: opt("F", rng.choice(["floor", "ceil", "sqrt", "exp", "tanh", "cos", "sinh"]), "F", "function")
            if rng.random() < 0.3: opt("l", rng.choice([0.25, 0.5, 1]), "l", "lower-bound")
            if rng.random() < 0.3: opt("u", rng.choice([0.5, 1, 1.5]), "u", "upper-bound")
            x = rng.random()
            if x < 0.2: opt("I", rng.choice(pool), "I", "input-symbol")
            elif x < 0.4: opt("O", rng.choice(pool), "O", "output-symbol")
            elif x < 0.6: opt("S", rng.choice(pool), "S", "symbol")
            elif x < 0.75:
                opt("I", rng.choice(pool), "I", "input-symbol")
                opt("O", rng.choice(pool), "O", "output-symbol")
            x = rng.random()
            if x < 0.2: args.append(rng.choice(["-e", "--end-states-only"])); O["e"] = 1
            elif x < 0.4: args.append(rng.choice(["-A", "--arcs-only"])); O["A"] = 1
        D["run"] = self.tool(rng, c, "hfst-reweight", ["in.hfst"], args)
        self.back(c, D)

    def m_reweight(self, D, f):
        O = D["opt"]
        fn = {"floor": math.floor, "ceil": math.ceil, "sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan"), "exp": math.exp, "tanh": math.tanh, "cos": math.cos, "sinh": math.sinh}
        def go(f, O):
            def rw(w, i, o):
                if w < O.get("l", -1e30) or w > O.get("u", 1e30): return w
                if i is None:
                    if "A" in O: return w
                else:
                    if "e" in O: return w
                    if "S" in O and i != O["S"] and o != O["S"]: return w
                    if "I" in O and i != O["I"]: return w
                    if "O" in O and o != O["O"]: return w
                return O.get("b", 1) * (fn[O["F"]](w) if "F" in O else w) + O.get("a", 0)
            g = f.copy()
            g.arcs = [[(i, o, rw(w, i, o), t) for i, o, w, t in a] for a in f.arcs]
            g.fin = {s: rw(w, None, None) for s, w in f.fin.items()}
            return g
        if "tsv" in O:
            for s, plus, v in O["tsv"]:
                f = go(f, {"S": s, "a" if plus else "b": v, "A": 1})
            return f
        return go(f, O)

    def g_strings(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "tropical", "sfst", "foma", "olw"), words=True) if False else (None,) * 3
        D["ty"] = ty = rng.choice(["tropical", "tropical", "sfst", "foma"])
        D["pool"] = pool = rng.choice([["a", "b", "c"], ["a", "\u00e4", "\u20ac"], ["x", "yy", "z"]])
        n = rng.choice([1, 2, 3])
        D["items"] = self.streams(rng, c, ty, n, "in.hfst", "t", pool, words=True)
        D["tool"] = "fst2strings"
        args = []
        D["w"] = rng.random() < 0.5
        if D["w"]: args.append(rng.choice(["-w", "--print-weights"]))
        D["sep"] = rng.random() < 0.5
        if D["sep"]: args.append("-S")
        D["pairs"] = rng.random() < 0.3
        if D["pairs"]: args += ["-X", "print-pairs"]
        D["space"] = rng.random() < 0.3
        if D["space"]: args += ["-X", "print-space"]
        D["eps"] = ""
        if rng.random() < 0.4:
            D["eps"] = "<e>"
            args += ["-e", "<e>"]
        D["n"] = 0
        x = rng.random()
        flt = D["flt"] = {}
        if x < 0.15:
            D["n"] = rng.choice([1, 2])
            args += ["-n", str(D["n"])]
        elif x < 0.3 and ty == "tropical":
            D["N"] = rng.choice([1, 2, 3])
            args += ["-N", str(D["N"])]
        elif x < 0.6:
            for q in rng.sample("lLpPuU", rng.choice([1, 2])):
                flt[q] = rng.choice([1, 2, 3]) if q in "lL" else rng.choice(pool)
                args += ["-" + q, str(flt[q])]
        elif x < 0.7 and ty == "tropical":
            D["beam"] = rng.choice([0, 0.5, 1, 2])
            args += ["-b", str(D["beam"])]
        D["run"] = self.tool(rng, c, "hfst-fst2strings", ["in.hfst"], args, out="out.txt")
        D["cat"] = c.cmd("cat", "out.txt")

    def strings_of(self, D, f):
        """{line without weight: set of weights}, in the printed form, after the filters."""
        res = []
        for pairs, w in self.paths(f):
            i = "".join(x for x, y in pairs if x != EPS)
            o = "".join(y for x, y in pairs if y != EPS)
            # what the tool filters is the printed text with epsilons as they are in the path
            fi, fo = "".join(x for x, y in pairs if x != EPS), "".join(y for x, y in pairs if y != EPS)
            q = D["flt"]
            if "p" in q and not fi.startswith(q["p"]): continue
            if "P" in q and not fo.startswith(q["P"]): continue
            if "u" in q and q["u"] in fi: continue
            if "U" in q and q["U"] in fo: continue
            e = D["eps"]
            S = lambda x: e if x == EPS else x
            sp = " " if D["space"] else ""
            if D["pairs"]:
                line = sp.join(S(x) + (":" + S(y) if x != y else "") for x, y in pairs)
            else:
                line = sp.join(S(x) for x, y in pairs) + sp
                if any(x != y for x, y in pairs):
                    line += ":" + (sp + sp.join(S(y) for x, y in pairs) if pairs else "")
            res.append((line, w, len(fi.encode()), len(fo.encode())))
        return res

    def paths(self, f):
        out = []
        def go(s, p, w):
            if len(out) > 4000: return
            if s in f.fin: out.append((tuple(p), w + f.fin[s]))
            for i, o, w1, t in f.arcs[s]:
                go(t, p + ([(i, o)] if (i, o) != (EPS, EPS) else []), w + w1)
        go(0, [], 0.0)
        return out

    def g_compare(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma"), n=rng.choice([1, 2, 3]), extra=0)
        m = rng.choice([1, n, n])
        # the same relations otherwise built, or others
        D["same"] = []
        for j in range(m):
            r = "u%d" % j
            if rng.random() < 0.6:
                c.cmd("copy", r, "t%d" % j)
                if rng.random() < 0.5:
                    c.cmd(rng.choice(["minimize", "remove_epsilons"]), r)
            else:
                c.fst(r, ty, gen.rand_fst(rng, syms=pool, weighted=ty == "tropical"))
        D["items2"] = [c.cmd("dump", "u%d" % j) for j in range(m)]
        c.cmd("write", "in2.hfst", "1", *["u%d" % j for j in range(m)])
        D["tool"] = "compare"
        D["run"] = self.tool(rng, c, "hfst-compare", ["in.hfst", "in2.hfst"], ["-q"] if rng.random() < 0.2 else [], out="out.txt")
        D["cat"] = c.cmd("cat", "out.txt")

    def g_regexp(self, rng, c, D):
        D["ty"] = ty = rng.choice(["tropical", "sfst", "foma", "tropical"])
        words = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.choice(["word", "cross", "union", "weight", "star"])
            a, b = "".join(rng.choice("abc") for _ in range(rng.choice([1, 2, 3]))), "".join(rng.choice("abc") for _ in range(rng.choice([1, 2, 3])))
            if k == "word": words.append(("{%s}" % a, ref.string([(x, x) for x in a])))
            elif k == "cross":
                words.append(("{%s}:{%s}" % (a, b), ref.concat(ref.string([(x, EPS) for x in a]), ref.string([(EPS, x) for x in b]))))
            elif k == "union": words.append(("{%s} | {%s}" % (a, b), ref.union(ref.string([(x, x) for x in a]), ref.string([(x, x) for x in b]))))
            elif k == "weight":
                w = rng.choice([0.5, 1, 2]) if ty == "tropical" else 0
                words.append(("[{%s}]::%s" % (a, w), ref.string([(x, x) for x in a], w)))
            else: words.append(("[%s]*" % " ".join(a), ref.star(ref.string([(x, x) for x in a]))))
        semi = rng.random() < 0.4
        D["disj"] = rng.random() < 0.3
        args = ["-f", FMT[ty]] + (rng.choice([["-S"], ["--semicolon"]]) if semi else rng.choice([[], ["-l"]])) + (["-j"] if D["disj"] else [])
        if semi:
            txt = rng.choice([";\n", " ; ", ";"]).join(x for x, _ in words) + rng.choice([";\n", " ;"])
        else:
            txt = "".join(x + "\n" + rng.choice(["", "", "\n", "! c\n"] if False else ["", "", "\n"]) for x, _ in words)
        c.cmd("putfile", "re.txt", txt)
        D["tool"] = "regexp2fst"
        D["models"] = [f for _, f in words]
        if D["disj"]:
            D["models"] = [ref.union(*D["models"])]
        D["run"] = self.tool(rng, c, "hfst-regexp2fst", ["re.txt"], args)
        self.back(c, D)

    def g_s2f(self, rng, c, D):
        D["ty"] = ty = rng.choice(["tropical", "tropical", "sfst", "foma", "olw"])
        mode = rng.choice(["plain", "p", "S", "pS"])
        D["tool"] = "strings2fst " + mode
        args = ["-f", FMT[ty]]
        multi = ["cc", "\u00e4x", "<t>"] if rng.random() < 0.5 else []
        syms = ["a", "b", "c", "\u00e4"] + (["cc", "<t>"] if multi or "S" in mode else [])
        eps = "@0@" if multi or "S" in mode else None
        if eps and rng.random() < 0.3:
            eps = "E"
            args += ["-e", "E"]
        lines, models = [], []
        disj = rng.random() < 0.5
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([1, 2, 3, 4])
            i = [rng.choice(syms) for _ in range(n)]
            o = list(i) if rng.random() < 0.4 else [rng.choice(syms) for _ in range(rng.choice([n, 1, 2, 3]))]
            w = rng.choice([0, 0.5, 1, 2]) if ty in W else 0
            tok = lambda l: self.tok("".join(l), multi) if "S" not in mode else l
            if "p" in mode:
                o = (o + i)[:n]
                P = list(zip(i, o))
                if "S" in mode:
                    t = " ".join(x if x == y else x + ":" + y for x, y in P)
                else:
                    # what is written is read symbol by symbol
                    if any(len(x) > 1 or len(y) > 1 for x, y in P) and not multi:
                        P = [("a", "b")]
                    t = "".join(x if x == y else x + ":" + y for x, y in P)
                    P = self.tok2(t, multi)
                    if any(":" in x for x in P):      # read otherwise than meant
                        P = [("a", "b")]
                        t = "a:b"
                t2 = t
                m = ref.string(P, w)
            else:
                i, o = tok(i), tok(o)
                sp = " " if "S" in mode else ""
                t = sp.join(i) if i == o else sp.join(i) + ":" + sp.join(o)
                k = max(len(i), len(o))
                m = ref.string(list(zip(i + [EPS] * (k - len(i)), o + [EPS] * (k - len(o)))), w)
            lines.append(t + ("\t%s" % w if w else ""))
            models.append(m)
        if multi:
            c.cmd("putfile", "multi.txt", "".join(x + "\n" for x in multi))
            args += ["-m", "multi.txt"]
        if "p" in mode: args.append("-p")
        if "S" in mode: args.append("-S")
        if disj:
            args.append("-j")
            models = [ref.union(*models)]
            D["models"] = models
        D["models"] = models
        c.cmd("putfile", "s.txt", "".join(l + "\n" for l in lines))
        D["run"] = self.tool(rng, c, "hfst-strings2fst", ["s.txt"], args)
        self.back(c, D)
        D["bystr"] = True

    def tok(self, s, multi):
        out = []
        while s:
            m = max([x for x in multi if s.startswith(x)] + [s[0]], key=len)
            out.append(m)
            s = s[len(m):]
        return out

    def tok2(self, t, multi):
        tk = self.tok(t, multi)
        P = []
        k = 0
        while k < len(tk):
            if k + 2 < len(tk) and tk[k + 1] == ":":
                P.append((tk[k], tk[k + 2]))
                k += 3
            else:
                P.append((tk[k], tk[k]))
                k += 1
        return P

    def g_meta(self, rng, c, D):
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma"))
        D["tool"] = rng.choice(["summarize", "dump-alphabets", "edit-metadata", "format"])
        if D["tool"] == "edit-metadata":
            D["prop"] = (rng.choice(["lang", "x-y"]), rng.choice(["v", "a b", "\u20ac"]))
            D["run"] = self.tool(rng, c, "hfst-edit-metadata", ["in.hfst"], ["-a", "%s=%s" % D["prop"]])
            self.back(c, D)
            c.cmd("read", "out.hfst", "m")
            D["meta"] = [c.cmd("meta", "m%d" % j) for j in range(n)]
            return
        if D["tool"] == "format":
            D["run"] = c.cmd("tool", "hfst-format", *rng.choice([["in.hfst", "out.txt", "f"], ["in.hfst", "out.txt", "p"], ["-", "out.txt", "f", "in.hfst"], ["-", "out.txt", "f", "-i", "in.hfst"]]))
            D["cat"] = c.cmd("cat", "out.txt")
            return
        D["run"] = self.tool(rng, c, "hfst-" + D["tool"], ["in.hfst"], [], out="out.txt", plain_out=D["tool"] == "summarize")
        D["cat"] = c.cmd("cat", "out.txt")

    def g_lookup(self, rng, c, D):
        ty0 = rng.choice(["tropical", "olw", "olw", "ol", "sfst", "foma"])
        D["pool"] = pool = rng.choice([["a", "b", "c"], ["a", "b", "cc"], ["a", "\u00e4", "\u20ac"]])
        w = ty0 in W
        D["ty"] = ty0
        f = gen.rand_lexicon(rng, pool, nwords=rng.randint(1, 8), weighted=w)[0] if rng.random() < 0.5 else gen.rand_fst(rng, syms=pool, weighted=w, cyclic=False, eps=0.2)
        c.fst("t0", "tropical" if ty0 == "olw" else ty0 if ty0 != "ol" else "tropical", f)
        if ty0 in ("ol", "olw"): c.cmd("convert", "t0", ty0)
        D["items"] = [c.cmd("dump", "t0")]
        c.cmd("write", "in.hfst", "1", "t0")
        flook = rng.random() < 0.25 and ty0 not in ("ol", "olw")
        olt = not flook and ty0 in ("ol", "olw") and rng.random() < 0.3
        D["tool"] = "flookup" if flook else "optimized-lookup" if olt else "lookup"
        words = []
        g = ref.invert(f) if flook else f
        lang = [p for p in ref.lang_strings(g, 0, 5)]
        lang = sorted(lang)
        for _ in range(rng.choice([1, 3, 6])):
            if lang and rng.random() < 0.7:
                words.append("".join(rng.choice(lang)))
            else:
                words.append("".join(rng.choice(pool + ["z"]) for _ in range(rng.randint(1, 4))))
        words = [x for x in words if x]
        D["words"] = words or ["a"]
        c.cmd("putfile", "w.txt", "".join(x + "\n" for x in D["words"]))
        if olt:
            D["run"] = c.cmd("tool", "hfst-optimized-lookup", "w.txt", "out.txt", rng.choice("fp"), "in.hfst")
        else:
            how = rng.random()
            if how < 0.4:
                D["run"] = c.cmd("tool", "hfst-" + D["tool"], "w.txt", "out.txt", rng.choice("fp"), *rng.choice([["in.hfst"], ["-i", "in.hfst"], ["-q", "in.hfst"], ["-s", "-i", "in.hfst"]]))
            else:
                D["run"] = c.cmd("tool", "hfst-" + D["tool"], "-", "out.txt", "f", "-I", "w.txt", "in.hfst")
        D["cat"] = c.cmd("cat", "out.txt")

    def g_cisect(self, rng, c, D):
        pool = ["a", "b", "c"]
        D["ty"] = ty = rng.choice(["tropical", "sfst", "foma"])
        D["pool"] = pool
        f = gen.rand_fst(rng, syms=pool, weighted=False, extra=0)
        f.alpha |= set(pool)
        c.fst("t0", ty, f)
        D["items"] = [c.cmd("dump", "t0")]
        c.cmd("write", "in.hfst", "1", "t0")
        m = rng.choice([1, 2, 3])
        D["items2"] = []
        for j in range(m):
            g = gen.rand_fst(rng, syms=pool, weighted=False, eps=0, extra=0, density=rng.choice([5, 8]), n=rng.choice([1, 2, 3]), cyclic=True)
            for a in g.arcs:
                a[:] = [(i, o, w, t) for i, o, w, t in a if EPS not in (i, o)]
            for x in pool:
                if rng.random() < 0.7:
                    g.add(0, 0, x, x)
            g.alpha |= set(pool)
            c.fst("u%d" % j, ty, g)
            D["items2"].append(c.cmd("dump", "u%d" % j))
        c.cmd("write", "in2.hfst", "1", *["u%d" % j for j in range(m)])
        D["tool"] = "compose-intersect"
        D["run"] = self.tool(rng, c, "hfst-compose-intersect", ["in.hfst", "in2.hfst"], rng.choice([[], [], ["--fast"], ["-f"]]))
        self.back(c, D)

    def g_pairs(self, rng, c, D):
        """hfst-pair-test with a stream of rules."""
        pool = ["a", "b", "c"]
        D["ty"] = ty = rng.choice(["tropical", "sfst", "foma"])
        D["pool"] = pool
        m = rng.choice([1, 2, 3])
        D["items"] = []
        for j in range(m):
            g = gen.rand_fst(rng, syms=pool, weighted=False, eps=0, extra=0, n=rng.choice([1, 2]), cyclic=True, density=5)
            for a in g.arcs:
                a[:] = [(i, o, w, t) for i, o, w, t in a if EPS not in (i, o)]
            for x in pool:
                if rng.random() < 0.8:
                    g.add(0, 0, x, x)
            if rng.random() < 0.8: g.fin[0] = 0.0
            # rules see the word boundaries as @#@:0
            b = ref.pair("@#@", EPS)
            g = ref.concat(ref.concat(b, g), b)
            g.alpha |= set(pool)
            c.fst("t%d" % j, ty, g)
            c.cmd("minimize", "t%d" % j)
            D["items"].append(c.cmd("dump", "t%d" % j))
        c.cmd("write", "in.hfst", "1", *["t%d" % j for j in range(m)])
        D["strs"] = [[(rng.choice(pool),) * 2 if rng.random() < 0.7 else (rng.choice(pool), rng.choice(pool)) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 3, 5]))]
        D["neg"] = rng.random() < 0.4
        c.cmd("putfile", "p.txt", "".join(" ".join(x if x == y else x + ":" + y for x, y in s) + "\n" for s in D["strs"]))
        D["tool"] = "pair-test"
        D["run"] = c.cmd("tool", "hfst-pair-test", "-", "out.txt", "f", "-i", "in.hfst", "-I", "p.txt", *(["-N"] if D["neg"] else []))
        D["cat"] = c.cmd("cat", "out.txt")

    UNARY = ["determinize", "minimize", "remove-epsilons", "reverse", "invert", "repeat", "push-weights", "push-labels", "prune-alphabet", "eliminate-flags", "head", "tail", "split", "reweight", "fst2txt", "fst2strings", "summarize", "dump-alphabets"]
    NEED = {"push-weights": ["-p", "end"], "push-labels": ["-p", "end"], "tail": ["-n", "1"], "split": ["-p", "zz"], "reweight": ["-a", "1"]}
    BINARY = ["disjunct", "concatenate", "conjunct", "subtract", "compose", "priority-disjunct", "compare"]

    def g_errors(self, rng, c, D):
        D["tool"] = "errors"
        ty, pool, n = self.base(rng, c, D, types=("tropical", "sfst", "foma"), n=rng.choice([1, 2, 3]), automaton=True, weighted=False)
        x = rng.choice(["missing", "nofst", "badopt", "mismatch1", "mismatch2", "trunc", "types", "badarg", "empty", "outdir", "toomany"])
        D["err"] = x
        o = ["-o", "out.hfst"] if x != "outdir" else ["-o", "no/such/dir/out"]
        t = rng.choice(self.UNARY)
        if x == "trunc":
            # the second half of the last transducer is missing
            c.cmd("damage", "in.hfst", "bad.hfst", "trunc-", str(rng.choice([1, 3, 8, 20])))
            D["any"] = True
        if t == "split" and x == "outdir":
            t = "head"
        if t == "split":
            o = []
        if t in ("dump-alphabets",):
            if x == "outdir": t, o = "head", o
            else: o = []
        need = self.NEED.get(t, [])
        name = "hfst-" + t
        if x == "missing":
            a = need + o + rng.choice([["none.hfst"], ["-i", "none.hfst"]])
        elif x in ("nofst", "empty"):
            c.cmd("putfile", "bad.txt", rng.choice(["this is no transducer\n", "HFST but not really", "\0\1\2\3" * 8]) if x == "nofst" else "")
            a = need + o + ["bad.txt"]
        elif x == "badopt":
            a = need + o + [rng.choice(["--no-such-option", "-@"]), "in.hfst"]
        elif x == "toomany":
            a = need + o + ["in.hfst", "in.hfst"]
        elif x == "outdir":
            a = need + o + ["in.hfst"]
        elif x == "trunc":
            if t == "head":     # reads only what it needs
                need = ["-n", "9"]
            a = need + o + ["bad.hfst"]
        elif x == "badarg":
            t, a = rng.choice([("repeat", ["-f", "3", "-t", "1"]), ("repeat", ["-f", "x"]), ("project", ["-p", "nowhere"]), ("push-weights", ["-p", "x"]), ("head", ["-n", "x"]), ("tail", ["-n", "1x"]), ("reweight", ["-a", "x"]),
                               ("reweight", ["-F", "nofunction"]), ("reweight", ["-A", "-e"]), ("fst2fst", ["-f", "noformat"]), ("substitute", ["-f", "a"]), ("substitute", ["-t", "a"]), ("fst2txt", ["-f", "noformat"]), ("txt2fst", ["-f", "noformat"]), ("txt2fst", ["-j"]), ("txt2fst", []),
                               ("strings2fst", ["-f", "noformat"]), ("regexp2fst", ["-f", "noformat"]), ("substitute", ["-F", "none.txt"]), ("kill-paths", ["-T", "none.txt"]), ("multiply", ["-n", "x"])])
            name = "hfst-" + t
            if t == "txt2fst" and "-f" not in a:
                c.cmd("putfile", "bad.txt", rng.choice(["0\t1\ta\n1\n", "0\t1\ta\ta\n1\n--\nx y z\n", "a\tb\n"]))
                a = a + ["-o", "out.hfst", "bad.txt"]
            else:
                a = a + ["-o", "out.hfst", "in.hfst"]
        else:
            t = rng.choice(self.BINARY)
            name = "hfst-" + t
            if x == "types":
                ty2 = rng.choice([z for z in ("tropical", "sfst", "foma") if z != ty])
                D["items2"] = self.streams(rng, c, ty2, n, "in2.hfst", "u", pool, automaton=True, weighted=False)
                a = ["-C", "-o", "out.hfst", "in.hfst", "in2.hfst"]
            else:
                k = rng.choice([1, 2, 3])
                if t == "compose" and k == 1: k = 2     # one transducer composes with each
                if x == "mismatch1":     # the second has fewer, but not one
                    self.streams(rng, c, ty, 2, "l.hfst", "u", pool, automaton=True, weighted=False)
                    self.streams(rng, c, ty, 2 + k, "k.hfst", "v", pool, automaton=True, weighted=False)
                else:
                    self.streams(rng, c, ty, k + rng.choice([1, 2]), "l.hfst", "u", pool, automaton=True, weighted=False)
                    self.streams(rng, c, ty, k, "k.hfst", "v", pool, automaton=True, weighted=False)
                a = ["-o", "out.hfst", "k.hfst", "l.hfst"]
        D["cli"] = name + " " + " ".join(a)
        D["etool"] = name
        D["run"] = c.cmd("tool", name, "-", "stdout", "f", *a)

    # ------------------------------------------------------------ monitor
    def rc(self, o):
        return int(o.get("rc")[0]), o.get("err")[0]

    def same(self, a, p, w, strs=False):
        U = ref.universe(a, p)
        if strs:
            return ref.diff_strs(ref.expand(a, U), ref.expand(p, U), maxin=5, maxout=5, weights=w)
        return ref.diff_pairs(ref.expand(a, U), ref.expand(p, U), weights=w, cap=4000)

    def split_read(self, o):
        """Dumps of a readall."""
        items, cur = [], None
        for l in o.lines:
            if l.startswith("D\t"):
                cur = [l]
            elif l == "gend":
                items.append(ref.parse(cur))
                cur = None
            elif cur is not None:
                cur.append(l)
        return items

    def judge(self, c, out, rep):
        D = c.data
        kind, t = D["kind"], D["tool"]
        rep.inc("tool_" + (t if kind != "errors" else "err_" + D["err"]))
        def bad(key, msg):
            rep.bad("%s [%s]" % (key, t if kind != "errors" else D["err"] + " " + D["etool"]), "%s\n%s" % (D.get("cli", ""), msg), c.text())
        for k in ("run0", "run"):
            if k not in D:
                continue
            rc, err = self.rc(out[D[k]])
            if rc == 99 or "Sanitizer" in err or "runtime error:" in err or rc >= 128 or "terminate called" in err:
                if "libfoma.so" in (re.search(r"#0 [^\n]*", err) or [""])[0]:
                    rep.inc("inconclusive_libfoma")
                    return
                if rc in (128 + 24, 128 + 9):
                    rep.inc("inconclusive_timeout")
                    return
                import drv
                rep.bad("crash: %s [%s]" % (drv.crash_key(err, rc), D.get("etool", t)), D.get("cli", "") + "\n" + err[:1500], c.text())
                return
            if kind == "errors":
                rep.ok((D["err"], D["etool"], "\n".join(c.out)))
                if D.get("any"):
                    if rc == 0 or not err.strip():
                        bad("damaged input accepted", "exit %d, message %r" % (rc, err[:300]))
                elif rc == 0:
                    bad("error not reported by exit status", "exit 0, message %r" % err[:300])
                elif not err.strip():
                    bad("no error message", "exit %d" % rc)
                return
            if rc == 1 and t == "eliminate-flags" and "does not occur in the transducer" in err:
                have = [D["flag"] in {re.split(r"\.", z.strip("@"))[1] for z in out[i].fst().symbols() | out[i].fst().alpha if z.count(".") and z[0] == "@"} for i in D["items"]]
                if all(have):
                    bad("exit status 1", err[:600])
                rep.ok()
                return
            if rc != 0 and kind not in ("compare", "pairs"):
                bad("exit status %d" % rc, err[:600])
                return
        items = [out[i].fst() for i in D.get("items", [])]
        items2 = [out[i].fst() for i in D.get("items2", [])]
        names = [out[i].dump()[1] for i in D.get("items", [])]
        if kind in ("compare", "strings", "lookup", "pairs") or "cat" in D:
            return getattr(self, "j_" + kind)(c, D, out, rep, items, items2, bad)
        if kind == "select" and t == "split":
            if out[D["nomore"]].lines != ["nofile"]:
                bad("too many files", "")
            for j, i in enumerate(D["files"]):
                g = self.split_read(out[i])
                if out[i].exc or len(g) != 1:
                    bad("split file", "%r %d" % (out[i].exc, len(g)))
                    return
                ty, nm, p = g[0]
                x = self.same(items[j], p, D["ty"] in ("tropical", "log"))
                if x or ty != D["ty"] or nm != names[j]:
                    bad("wrong transducer in split file", "file %d: %r %r %r" % (j + 1, x, ty, nm))
                    return
            rep.ok(("split", "\n".join(c.out)))
            return
        o = out[D["read"]]
        got = self.split_read(o)
        # what is expected
        exp = items
        if kind == "select":
            exp = [items[i] for i in D["idx"]]
        elif kind == "simple":
            exp = [self.m_simple(D, f, j) for j, f in enumerate(items)]
        elif kind == "binary":
            exp = [self.m_binary(D, items[0 if len(items) == 1 else j], items2[0 if len(items2) == 1 else j]) for j in range(max(len(items), len(items2)))]
        elif kind == "substitute":
            exp = [self.m_substitute(D, f, items2[0] if items2 else None) for f in items]
        elif kind == "reweight":
            exp = [self.m_reweight(D, f) for f in items]
        elif kind == "freely":
            exp = [ref.shuffle(f, ref.star(ref.pair(*D["pair"]))) for f in items]
        elif kind == "kill":
            exp = []
            for f in items:
                g = f.copy()
                g.arcs = [[a for a in ar if a[0] not in D["syms"] and a[1] not in D["syms"]] for ar in f.arcs]
                exp.append(g)
        elif kind == "cisect":
            r = items2[0]
            for z in items2[1:]:
                r = ref.intersect(r, z)
            exp = [ref.compose(items[0], r)]
        elif kind in ("regexp", "s2f"):
            exp = D["models"]
        elif kind == "text" and "prolog" not in t:
            for f in items: f.alpha = f.symbols()   # the text has no other symbols
            exp = items
        if kind == "text" and D.get("disj"):
            U = ref.universe(*items)
            exp = [ref.union(*[ref.expand(f, U) for f in items])]
        if o.exc and not (not exp and not got):
            bad("output cannot be read", o.exc)
            return
        if len(got) != len(exp):
            bad("wrong number of transducers", "%d instead of %d" % (len(got), len(exp)))
            return
        nz = False
        w = D.get("oty", D["ty"]) in ("tropical", "log", "olw") and not D.get("unweighted")
        for j, (e, (ty, nm, p)) in enumerate(zip(exp, got)):
            nz = nz or ref.has_pos_path(e)
            if ty != D["oty"]:
                bad("wrong type of output", "%s instead of %s" % (ty, D["oty"]))
                return
            strs = t in ("push-labels", "compose", "compose-intersect", "shuffle") or D.get("bystr") or kind in ("regexp",)
            if (ty == "log" or D["ty"] == "log") and t not in ("head", "tail", "multiply", "name", "fst2fst", "reverse", "invert"):
                ww = False
            else:
                ww = w
            x = self.same(e, p, ww, strs)
            if x and D.get("ty") == "log" and ty == "log" and ww:
                x = self.same(e, p, False, strs)
            if x and D.get("ty") == "foma" and t in ("kill-paths", "eliminate-flags", "remove-epsilons") and any(ref.trim(g).n != g.n or any((a[0], a[1]) == (EPS, EPS) for ar in g.arcs for a in ar) for g in (items[j], e)):
                rep.inc("inconclusive_libfoma")     # its epsilon removal is wrong with chains of epsilons or dead states
                continue
            if x:
                bad("wrong result", "transducer %d: %r\nexpected %r\ngot %r" % (j + 1, x, e, p))
                return
            if kind == "select":
                en = D["newname"] if t == "name" else names[D["idx"][j]]
                if nm != en:
                    bad("wrong name", "%r instead of %r" % (nm, en))
                    return
            if t == "prune-alphabet":
                wild = any(z in p.symbols() for z in (UNK, IDN))
                if "-f" in D["args"] or not wild:
                    if vis(p) - {x for x in p.symbols()}:
                        bad("alphabet not pruned", "%r" % (vis(p) - p.symbols(),))
                        return
            if "lib" in D:
                a = out[D["lib"][j]].fst()
                if (t == "minimize" and p.n != a.n) or (t == "remove-epsilons" and any((i, o2) == (EPS, EPS) for ar in p.arcs for i, o2, _, _ in ar)):
                    bad("not what the library does", "%r\n%r" % (p, a))
                    return
            if "meta" in D:
                q = {z[0]: z[1] for z in out[D["meta"][j]].all("q")}
                if q.get(D["prop"][0]) != D["prop"][1]:
                    bad("metadata", "%r" % q)
                    return
        rep.ok((kind, t, "\n".join(c.out)) if nz else None)

    def text_of(self, o):
        g = o.get("c")
        return None if g is None else g[0]

    def j_compare(self, c, D, out, rep, items, items2, bad):
        rc, err = self.rc(out[D["run"]])
        txt = self.text_of(out[D["cat"]]) or ""
        eq = []
        for j, f in enumerate(items):
            b = items2[0 if len(items2) == 1 else j]
            eq.append(not self.same(f, b, D["ty"] == "tropical"))
        if (rc == 0) != all(eq) or rc not in (0, 1):
            bad("exit status", "%d, comparisons %r\n%s %s" % (rc, eq, txt, err[:300]))
            return
        if not {"-s", "-q"} & set(D["cli"].split()):
            got = [("==" in l) for l in txt.split("\n") if " == " in l or " != " in l or "] == " in l or "] != " in l]
            if got != eq:
                bad("printed result", "%r instead of %r\n%s" % (got, eq, txt))
                return
        rep.ok(("compare", "\n".join(c.out)))

    def j_strings(self, c, D, out, rep, items, items2, bad):
        txt = self.text_of(out[D["cat"]])
        parts = [[]]
        if txt is None:
            bad("no output", "")
            return
        lines = txt.split("\n")
        if lines[-1] != "":
            bad("last line not ended", repr(txt[-40:]))
            return
        lines = lines[:-1]
        multi = D["sep"]
        if multi:
            for l in lines:
                if l == "--":
                    parts.append([])
                else:
                    parts[-1].append(l)
        else:
            if len(items) > 1 and (D["n"] or "N" in D or "beam" in D):
                rep.ok()
                return
            parts = [lines]
            items = [items] if len(items) > 1 else items
        if len(parts) != len(items):
            bad("separators", "%d parts for %d transducers" % (len(parts), len(items)))
            return
        for f, got in zip(items, parts):
            exp = []
            for g in (f if isinstance(f, list) else [f]):
                exp += self.strings_of(D, g)
            if "l" in D["flt"]: exp = [e for e in exp if e[2] <= D["flt"]["l"]]
            if "L" in D["flt"]: exp = [e for e in exp if e[3] <= D["flt"]["L"]]
            if "beam" in D:
                b = min([e[1] for e in exp] or [0])
                exp = [e for e in exp if e[1] <= b + D["beam"] + 1e-6]
            G = []
            for l in got:
                if D["w"]:
                    l, _, ws = l.rpartition("\t")
                    G.append((l, float(ws)))
                else:
                    G.append((l, None))
            E = [(e[0], e[1]) for e in exp]
            allowed = {}
            for l, w in E:
                allowed.setdefault(l, []).append(w)
            for l, w in G:
                if l not in allowed or (w is not None and not any(abs(w - z) < 1e-3 * max(1, abs(z)) for z in allowed[l])):
                    bad("string that is not in the transducer", "%r %r; allowed %r" % (l, w, sorted(allowed.items())[:20]))
                    return
            if D["n"]:
                if len(G) != min(D["n"], len(E)) and len(G) < min(D["n"], len(set(allowed))):
                    bad("number of strings", "%d, asked for %d of %d" % (len(G), D["n"], len(E)))
                    return
            elif "N" in D:
                ws = sorted({(l, min(v)) for l, v in allowed.items()}, key=lambda z: z[1])
                if len(G) < min(D["N"], len(ws)) or len(G) > D["N"]:
                    bad("number of best strings", "%d, asked for %d of %d: %r" % (len(G), D["N"], len(ws), G))
                    return
                worst = max([min(allowed[l]) for l, _ in G] or [0])
                better = [l for l, w in ws if w < worst - 1e-3 and l not in {g[0] for g in G}]
                if better:
                    bad("not the best strings", "%r without %r" % (G, better))
                    return
            else:
                if {l for l, _ in G} != set(allowed):
                    bad("string missing", "%r" % sorted(set(allowed) - {l for l, _ in G})[:10])
                    return
                if D["w"]:
                    for l, v in allowed.items():
                        if abs(min(z for m, z in G if m == l) - min(v)) > 1e-3 * max(1, abs(min(v))):
                            bad("weight of a string", "%r: %r instead of %r" % (l, [z for m, z in G if m == l], v))
                            return
        rep.ok(("strings", "\n".join(c.out)))

    def j_lookup(self, c, D, out, rep, items, items2, bad):
        txt = self.text_of(out[D["cat"]])
        rc, err = self.rc(out[D["run"]])
        if txt is None:
            bad("no output", err[:300])
            return
        f = items[0]
        if D["tool"] == "flookup":
            f = ref.invert(f)
        exp = []
        blocks = []
        cur = []
        for l in txt.split("\n"):
            if l.startswith("> "): l = l[2:]
            if l == "":
                if cur: blocks.append(cur)
                cur = []
            elif l.startswith("!! "):
                cur.append(l)
            else:
                cur.append(l)
        if cur: blocks.append(cur)
        if len(blocks) != len(D["words"]):
            bad("number of results", "%d for %d words\n%s" % (len(blocks), len(D["words"]), txt))
            return
        known = sorted({x for x in (f.alpha | f.symbols()) if not x.startswith("@")}, key=len, reverse=True)
        nz = False
        for wd, b in zip(D["words"], blocks):
            tk = self.tok(wd, known)
            r = {}
            if all(x in known for x in tk):
                for ow, w in ref.outputs(f, tuple(tk), maxout=10).items():
                    s = "".join(ow)
                    r[s] = min(r.get(s, 1e9), w)
            got = {}
            bad_line = None
            for l in b:
                p = l.split("\t")
                if p[0] != wd:
                    bad_line = l
                    break
                if p[1].endswith("+?") or p[1].endswith("?"):
                    continue
                if len(p) > 2 and p[2].endswith("?"): continue
                w = float(p[2].replace(",", ".")) if len(p) > 2 else None
                if p[1] in got and got[p[1]] is not None:
                    w = min(w, got[p[1]])
                got[p[1]] = w
            if bad_line is not None:
                bad("input word not echoed", "%r in %r" % (wd, bad_line))
                return
            # empty results print as the empty string
            if set(got) != set(r):
                bad("wrong results", "%r: %r instead of %r\n%s" % (wd, got, r, "\n".join(b)))
                return
            for s in r:
                if got[s] is not None and D["ty"] in W and abs(got[s] - r[s]) > 1e-3:
                    bad("wrong weight", "%r: %r instead of %r" % (wd, got, r))
                    return
            nz = nz or bool(r)
        rep.ok(("lookup", "\n".join(c.out)) if nz else None)

    def j_pairs(self, c, D, out, rep, items, items2, bad):
        rc, err = self.rc(out[D["run"]])
        acc = []
        for s in D["strs"]:
            ok = True
            for f in items:
                g = ref.intersect(ref.string([("@#@", EPS)] + [tuple(x) for x in s] + [("@#@", EPS)]), f)
                if not ref.has_pos_path(g) and not ref.paths_pairs(g, 10):
                    ok = False
            acc.append(ok)
        want = not any(acc) if D["neg"] else all(acc)
        if (rc == 0) != want:
            bad("exit status", "%d for %r negative %r\n%s" % (rc, list(zip(D["strs"], acc)), D["neg"], err[:300]))
            return
        rep.ok(("pairs", "\n".join(c.out)))

    def j_meta(self, c, D, out, rep, items, items2, bad):
        txt = self.text_of(out[D["cat"]]) or ""
        if D["tool"] == "summarize":
            import re
            ns = [int(x) for x in re.findall(r"# of states:\s*(\d+)", txt)]
            ar = [int(x) for x in re.findall(r"# of arcs:\s*(\d+)", txt)]
            if ns != [f.n for f in items] or ar != [f.narcs() for f in items]:
                bad("numbers", "%r %r instead of %r %r" % (ns, ar, [f.n for f in items], [f.narcs() for f in items]))
                return
        elif D["tool"] == "format":
            if "tropical" not in txt.lower() and "sfst" not in txt.lower() and "foma" not in txt.lower():
                bad("format", txt)
                return
        rep.ok(("meta", "\n".join(c.out)))

CHECK = C()
