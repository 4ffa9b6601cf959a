"""C15: lexc grammars, judged against the relation read off the grammar itself."""
import ref
from ref import EPS, Fst, FRESH
from drv import Case
from chk import Check
import c13

MC = ["ab", "abc", "+N", "+Pl", "[X]", "+10", "@U.F.a@", "@D.F@", "ba", "<p>", "c:", "\u00e4\u00e4", "$x"]
CH = ["a", "b", "c", "\u00e4", "\u20ac", "+", ":", "%", "#", "!", ";", " ", "<", ">", "0", "1", '"', "N", "$", "."]
NAMES = ["A", "B", "C", "A_B", "B_C", "Noun", "N/V", "x1", "\u00c4", "N-V", "A_", "_B"]
MUST = set(' <%!;:"')

class C(Check):
    id = "C15"
    quick = (96, 16)
    thorough = (2500, 30)
    rule = ("Random lexc grammars (1-5 lexicons in any order, string, pair and regular expression entries, weights, escapes, zeroes, multicharacter symbols, definitions, missing and unused lexicons, one or two files), "
            "compiled with and without flag encoding and alignment, several per process, some after a failing one. The monitor builds the relation from the generated entries itself and compares all string pairs up to length 4. "
            "Non-trivial: the grammar accepts some pair.")

    cpu = 8

    def hang_counts(self, c, last):
        """The minimisation of a cyclic weighted lexicon need not end: its relation may have no deterministic transducer."""
        for g in c.data["g"]:
            if g["ty"] != "tropical":
                continue
            e = [x for es in g["lex"].values() for x in es]
            if any(x[3] for x in e) or g["w"]:
                return False
        return True

    def gen(self, rng, k, rep):
        c = Case()
        c.data["g"] = []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.15:
                c.cmd("lexc", "bad", rng.choice(["tropical", "foma"]), "00", rng.choice([
                    "LEXICON Root\na b c ;\n", "LEXICON Root\n< a [ > # ;\n", "LEXICON\n", "Multichar_Symbols\n", "LEXICON Root\na:b:c # ;\nLEXICON X\nb # ;",
                    "LEXICON Q\na # ;\nLEXICON Z\n<[[> # ;\n", "Multichar_Symbols aa bb\nDefinitions\nX = [ ;\nLEXICON Root\n<X> # ;\n"]))
            self.grammar(rng, c)
        return c

    def esc(self, rng, s):
        """Text of a multicharacter symbol or a character."""
        if s.startswith("@"):
            return s
        o = ""
        for ch in s:
            if ch in MUST or (ch in "#>" and rng.random() < 0.5) or (ch != "0" and ord(ch) < 128 and rng.random() < 0.03):
                o += "%" + ch
            else:
                o += ch
        return o

    def side(self, rng, g, n):
        """(text, symbols) of one side of an entry."""
        atoms = []
        text = ""
        for _ in range(n):
            x = rng.random()
            if x < 0.3 and g["mc"]:
                m = rng.choice(g["mc"])
                text += self.esc(rng, m)
                atoms += [m] if m.startswith("@") else list(m)
            elif x < 0.37:
                text += "0"
                atoms.append("0eps")
            elif x < 0.42:
                text += "%0"
                atoms.append("0")
            else:
                ch = rng.choice(g["ch"])
                if ch == "0":
                    text += "%0"
                elif ch == "#" and not text:
                    text += "%#"
                else:
                    text += self.esc(rng, ch)
                atoms.append(ch)
        return text, self.tok(atoms, g["mc"])

    def tok(self, atoms, mcs):
        """Longest match over the declared multicharacter symbols; a lone unescaped zero is epsilon."""
        flat = [x[0] if x == "0eps" else x for x in atoms]
        i, out = 0, []
        while i < len(atoms):
            best = None
            for m in mcs:
                p = [m] if m.startswith("@") else list(m)
                if flat[i:i + len(p)] == p and (best is None or len(p) > len(best)):
                    best = p
            if best and len(best) > 1:
                out.append("".join(best))
                i += len(best)
            else:
                if atoms[i] != "0eps":
                    out.append(atoms[i])
                i += 1
        return tuple(out)

    def regex(self, rng, g, d=2):
        """A small c13 tree."""
        def sym():
            if g["mc"] and rng.random() < 0.25:
                return rng.choice([m for m in g["mc"] if not m.startswith("@")] or ["a"])
            return rng.choice(g["rch"])
        def t(d):
            x = rng.random()
            if d <= 0 or x < 0.25:
                if x < 0.05:
                    return ("any",)
                if x < 0.12:
                    return ("pair", sym(), sym())
                if g["w"] and x < 0.17:
                    return ("wsym", ("sym", sym()), rng.choice([0.5, 1, 2]))
                return ("sym", sym())
            if g["defs"] and x < 0.33:
                return ("df", rng.choice(sorted(g["defs"])))
            if x < 0.6:
                return ("cat", t(d - 1), t(d - 1))
            if x < 0.8:
                return ("union", t(d - 1), t(d - 1))
            if x < 0.87:
                return ("opt", t(d - 1))
            return (rng.choice(["star", "plus"]), t(d - 1)) if not g["w"] else ("opt", t(d - 1))
        return t(d)

    def grammar(self, rng, c):
        ty = rng.choice(["tropical", "tropical", "tropical", "sfst", "foma"])
        g = dict(ty=ty, w=ty == "tropical" and rng.random() < 0.5, defs={})
        g["mc"] = rng.sample(MC, rng.choice([0, 0, 1, 2, 3]))
        g["ch"] = rng.sample(CH, rng.choice([2, 3, 4])) if rng.random() < 0.5 else ["a", "b", "c"]
        g["rch"] = ["a", "b", "c", "\u00e4"]
        P = c13.Printer(rng, False)
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        names = rng.sample(NAMES, n)
        if rng.random() < 0.9:
            names[0] = "Root"
        x = rng.random()
        order = list(names)
        if x < 0.25:
            rng.shuffle(order)
        root = "Root" if "Root" in names else order[0]
        missing = "Gone"
        text = []
        head = ""
        if g["mc"]:
            head += "Multichar_Symbols" + rng.choice([" ", "\n"])
            for m in g["mc"]:
                head += self.esc(rng, m) + rng.choice([" ", "\n", " ! comment ;\n"])
            head += "\n"
        noflags = []
        if rng.random() < 0.25:
            for nm in rng.sample(["Vow", "K1", "Xs"], rng.choice([1, 2])):
                t = self.regex(rng, dict(g, mc=[]), 1)
                head += ("Definitions\n" if not g["defs"] else "") + "%s = %s ;\n" % (nm, P.p(t))
                g["defs"][nm] = t
        g["lex"] = L = {}
        blocks = []
        acyc = not g["w"] or rng.random() < 0.3
        for nm in order:
            b = rng.choice(["LEXICON ", "LEXICON ", "LEXICON  ", "  LEXICON "]) + nm + rng.choice(["\n", " ! x ; y\n", "\n\n"])
            es = L[nm] = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                pool = ["#"] * 3 + names + ([missing] if rng.random() < 0.1 else [])
                cont = rng.choice(pool)
                w = 0.0
                gl = ""
                if rng.random() < 0.3:
                    w = rng.choice([0, 1, 1.5, 0.25, 3])
                    gl = rng.choice([' "weight: %g"', ' "weight:%g"', ' "gloss 7, weight: %g"']) % w
                elif rng.random() < 0.1:
                    gl = ' "gloss 12"'
                z = rng.random()
                if z < 0.45:
                    tx, s = self.side(rng, g, rng.choice([1, 1, 2, 3]))
                    e = ("s", tuple((y, y) for y in s), cont, w)
                elif z < 0.75:
                    t1, s1 = self.side(rng, g, rng.choice([0, 1, 2, 3]))
                    t2, s2 = self.side(rng, g, rng.choice([0, 1, 2, 3]))
                    if not t1 and rng.random() < 0.5:
                        t1 = "0"
                    if not t2 and rng.random() < 0.5:
                        t2 = "0"
                    tx = t1 + ":" + t2
                    e = ("p", (s1, s2), cont, w)
                elif z < 0.85:
                    tx = ""
                    e = ("s", (), cont, w)
                else:
                    t = self.regex(rng, g)
                    tx = "< %s >" % P.p(t)
                    e = ("r", t, cont, w)
                es.append(e)
                b += rng.choice(["", " ", "\t"]) + tx + " " * (1 if tx else 0) + cont + gl + rng.choice([" ;", ";"]) + rng.choice(["\n", "\n", " ! c\n", " "])
            blocks.append(b + "\n")
        if len(blocks) > 1 and rng.random() < 0.2:
            k = rng.randrange(1, len(blocks))
            files = [head + "".join(blocks[:k]), "".join(blocks[k:])]
        else:
            files = [head + "".join(blocks)]
        if rng.random() < 0.15:
            files[-1] += "END\nwhat ever < follows"
        flags = rng.choice(["00", "00", "00", "10", "01", "11", "1010", "1011"])
        g.update(files=files, flags=flags, root=root, names=names)
        g["ok"] = c.cmd("lexc", "r", ty, flags, *files)
        g["res"] = c.cmd("dump", "r")
        c.data["g"].append(g)

    def expected(self, g, U):
        F = Fst(1)
        st = {}
        for nm in g["lex"]:
            st[nm] = F.state()
        fin = F.state()
        F.fin[fin] = 0.0
        st["#"] = fin
        ev = c13.Eval({y for y in U if not y.startswith("@")}, {k: None for k in g["defs"]}, {})
        for k, t in g["defs"].items():
            ev.defs[k] = ev.ev(t)
        F.arcs[0].append((EPS, EPS, 0.0, st[g["root"]]))
        for nm, es in g["lex"].items():
            for kind, d, cont, w in es:
                if cont not in st:
                    continue
                if not g["ty"] == "tropical":
                    w = 0.0
                if kind == "r":
                    f = ev.ev(d)
                else:
                    if kind == "p":
                        u, l = d
                        m = max(len(u), len(l))
                        d = tuple(zip(u + (EPS,) * (m - len(u)), l + (EPS,) * (m - len(l))))
                    f = ref.string(d)
                off = ref._append(F, f)
                F.arcs[st[nm]].append((EPS, EPS, w, off))
                for s, v in f.fin.items():
                    F.arcs[s + off].append((EPS, EPS, v, st[cont]))
        return F

    def judge(self, c, out, rep):
        for k, g in enumerate(c.data["g"]):
            src = "\n--- next file\n".join(g["files"])
            feat = "%s flags=%s%s%s" % (g["ty"], g["flags"][:2], " regex" if any(e[0] == "r" for es in g["lex"].values() for e in es) else "", " weights" if g["w"] else "")
            o = out[g["ok"]]
            if o.exc or not o.bool():
                rep.bad("refused [%s]" % feat, "%r %r\n%s" % (o.exc, getattr(o, "lines", None), src), c.text())
                return
            f = out[g["res"]].fst()
            syms = set(g["rch"]) | {y for es in g["lex"].values() for e in es if e[0] != "r" for p in e[1] for y in (p if isinstance(p, tuple) else (p,))} | set(g["mc"])
            syms -= {EPS}
            U = syms | {FRESH + "0"}
            try:
                exp = ref.trim(self.expected(g, U))
            except c13.TooBig:
                rep.inc("too_big")
                continue
            # a wildcard matches no flag diacritic
            got = ref.trim(ref.expand(f, {y for y in U if not y.startswith("@")} | (f.alpha - ref.SPECIAL)))
            if g["flags"][0] == "1":
                if (k + len(src)) % 2:      # obeyed on the output side
                    got = ref.flag_expand(ref.invert(got), "LEXNAME")
                    got = got and ref.invert(got)
                else:
                    got = ref.flag_expand(got, "LEXNAME")
                if got is None:
                    rep.inc("too_big")
                    continue
                lx = lambda y: EPS if y.startswith(("@P.LEXNAME.", "@R.LEXNAME.")) else y
                got.arcs = [[(lx(i), lx(o), w, t) for i, o, w, t in a] for a in got.arcs]
            r = ref.diff_strs(got, exp, 4, 4, g["ty"] == "tropical", cap=30000)
            rep.evals += 1
            if r:
                k, a, b = r
                what = "extra" if b is None else "missing" if a is None else "weight"
                rep.bad("%s: %s" % (what, feat), "%s pair %r: compiled %r, grammar says %r\n%s" % (what, k, a, b, src), c.text())
                return
            rep.ok(src if exp.fin else None)
            rep.inc("flags" + g["flags"][:2])

CHECK = C()
