"""C20: hfst-proc conserves the text stream."""
import re, unicodedata
import ref
from ref import EPS
from drv import Case
from chk import Check

LOW = ["a", "b", "c", "\u00e4", "d"]
TAGS = ["<n>", "<v>", "<sg>", "<pl>", "+Adj"]
SPECIAL = "[]{}^$/\\@<>"
SEPS = ["+", " +A ", " ", " ", " ", "  ", "\n", ", ", ". ", "! ", "; ", "\t", " - ", "? ", " \u2014 ", "'", "\\^", "\\/", "\\$ ", "\\[", "\\] ", "\\{", "\\}", "\\@", " \\\\ ", "\\< ", "\\>"]

def alpha(ch):
    """neither a space nor punctuation nor a mathematical sign"""
    return not ch.isspace() and unicodedata.category(ch) not in ("Sm",) and unicodedata.category(ch)[0] != "P"

class C(Check):
    id = "C20"
    targets = ("tools",)
    quick = (120, 14)
    thorough = (600, 30)
    rule = ("Random lexicons (1-14 words of cased, non-ASCII and multicharacter symbols, words with spaces, hyphens and apostrophes inside, several analyses with weights, tags, flag diacritics, epsilon loops excluded) as optimized-lookup transducers, and random streams of "
            "known, unknown, differently capitalised and adjoining words, blanks, superblanks, word-bound blanks, escaped characters and punctuation, from nothing to several thousand tokens, run through hfst-proc in analysis (Apertium, Xerox and CG formats; all case modes; weights, -N, weight classes) "
            "and generation (-g, -n, -d; compounds joined with +, invariable parts, *, @). A model that splits the stream by longest match at word boundaries says what each format must print. Non-trivial: a known word was met.")

    # -- workload
    def lexicon(self, rng, D):
        """-> {surface tuple: {analysis tuple: weight}}"""
        syms = rng.choice([LOW[:3], LOW, LOW, LOW + ["A", "C"]])
        if D["g"]:
            syms = LOW
        D["syms"] = syms
        D["comp"] = not D["g"] and rng.random() < 0.3
        lex = {}
        def word(n=4):
            return tuple(rng.choice(syms) for _ in range(rng.randint(1, n)))
        def ana(s):
            base = s if rng.random() < 0.6 else word()
            t = tuple(rng.choice(TAGS) for _ in range(rng.randint(0, 3)))
            if D["comp"] and rng.random() < 0.5:
                t += ("#",) + word() + tuple(rng.choice(TAGS) for _ in range(rng.randint(0, 2)))
                if rng.random() < 0.3:
                    t += ("#",) + word()
            return tuple(base) + t
        def entry(s):
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                lex.setdefault(s, {})[ana(s)] = rng.choice([0.0, 0.5, 1.0, 1.5, 2.0])
        for _ in range(rng.randint(1, 10)):
            entry(word())
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            # a word with other characters inside; what comes before them is a word as well
            s = rng.choice(sorted(lex))
            if any(x in "-'" for x in s) or len(s) > 9:
                continue
            for _ in range(rng.choice([1, 1, 2, 3])):
                s += (rng.choice([" ", " ", "-", "'"]),) + word(2)
                if rng.random() < 0.5:
                    entry(s)
            entry(s)
        if rng.random() < 0.3:
            # a word that begins with a punctuation mark
            for _ in range(rng.randint(1, 2)):
                entry((rng.choice(["-", "'", ","]),) * rng.choice([1, 1, 2]) + word(3))
        D["lex"] = lex
        return lex

    def net(self, rng, D, gen):
        f = ref.Fst()
        f.fin = {}
        w = D["ty"] == "olw"
        D["flags"] = rng.random() < 0.25
        ends = [f.state()] if rng.random() < 0.5 else None
        if ends:
            f.fin[ends[0]] = 0.0
        for s, r in self.entries(D, gen):
            for a, wt in r.items():
                pre = []
                if D["flags"] and rng.random() < 0.6:
                    pre = rng.choice([["@P.F.A@", "@R.F.A@"], ["@U.F.A@", "@U.F.A@"], ["@P.F.A@", "@D.G@"], ["@D.F@"], ["@P.F.B@", "@D.F.A@"]])
                pairs = self.align(rng, s, a)
                if pre:
                    k = rng.randint(0, len(pairs))
                    pairs = [(x, x) for x in pre[:1]] + pairs[:k] + [(x, x) for x in pre[1:]] + pairs[k:]
                self.path(rng, f, pairs, wt if w else 0.0, ends)
                if w and rng.random() < 0.15:
                    # the same analysis again, by a worse path
                    self.path(rng, f, self.align(rng, s, a), wt + rng.choice([0.5, 1.0, 4.0]), ends)
                if D["flags"] and rng.random() < 0.4:
                    # a path that its flags forbid
                    bad = rng.choice([["@P.F.A@", "@R.F.B@"], ["@P.F.A@", "@D.F@"], ["@R.F@"], ["@U.F.A@", "@U.F.B@"], ["@N.F.A@", "@R.F.A@"]])
                    p2 = self.align(rng, s, a + ("<no>",))
                    k = rng.randint(0, len(p2))
                    self.path(rng, f, p2[:k] + [(x, x) for x in bad] + p2[k:], 0.0, ends)
        f.alpha |= f.symbols()
        return f

    def entries(self, D, gen):
        if not gen:
            return sorted(D["lex"].items())
        inv = {}
        for s, r in D["lex"].items():
            for a, w in r.items():
                inv.setdefault(a, {})[s] = w
        D["inv"] = inv
        return sorted(inv.items())

    def align(self, rng, s, a):
        out, i, j = [], 0, 0
        while i < len(s) or j < len(a):
            x = rng.random()
            if i < len(s) and j < len(a) and x < 0.85:
                out.append((s[i], a[j])); i += 1; j += 1
            elif i < len(s) and (j >= len(a) or x < 0.93):
                out.append((s[i], EPS)); i += 1
            elif j < len(a):
                out.append((EPS, a[j])); j += 1
        return out

    def path(self, rng, f, pairs, w, ends):
        s = 0
        put = rng.randrange(len(pairs) + (0 if ends else 1)) if pairs else 0
        for k, (i, o) in enumerate(pairs):
            x = w if k == put else 0.0
            t = None
            if k + 1 == len(pairs) and ends:
                t = ends[0]
            elif x == 0.0 and rng.random() < 0.8:
                t = next((t for i2, o2, w2, t in f.arcs[s] if (i2, o2, w2) == (i, o, 0.0) and not (ends and t == ends[0])), None)
            if t is None:
                t = f.state()
                f.arcs[s].append((i, o, x, t))
            elif k + 1 == len(pairs) and ends:
                f.arcs[s].append((i, o, x, t))
            s = t
        if not ends:
            x = w if put == len(pairs) else 0.0
            f.fin[s] = min(x, f.fin.get(s, 1e9)) if put == len(pairs) or s not in f.fin else min(f.fin[s], 0.0)

    def cased(self, rng, s):
        x = rng.random()
        if x < 0.6:
            return s
        if x < 0.8:
            return s[:1].upper() + s[1:]
        if x < 0.93:
            return s.upper()
        return "".join(c.upper() if rng.random() < 0.5 else c for c in s)

    def stream(self, rng, D):
        lex = sorted("".join(s) for s in D["lex"])
        n = rng.choice([0, 1, 3, 8, 15, 30, 30, 400, 900, 4000] if rng.random() < 0.4 else [1, 3, 6, 10, 20])
        out = []
        for _ in range(n):
            x = rng.random()
            if x < 0.6:
                w = self.cased(rng, rng.choice(lex))
                if " " in w and rng.random() < 0.4:
                    w = re.sub(" ", lambda m: rng.choice(["[<i>]", "[\\[x]", "[\n]", " "]), w)
                out.append(w)
                if rng.random() < 0.08:
                    out.append(rng.choice(lex))      # two words without anything in between
            elif x < 0.8:
                out.append(self.cased(rng, "".join(rng.choice(D["syms"] + ["z", "x", "\u00f6", "\u0436", "1"]) for _ in range(rng.choice([1, 2, 4, 4, 7])))))
            elif x < 0.83 and n < 100:
                out.append("".join(rng.choice("abz") for _ in range(rng.choice([40, 1100]))))
            out.append(rng.choice(SEPS) if rng.random() < 0.85 else rng.choice(["[<b>]", "[ \n]", "[]", "[\\]a]", "[[t:i:a]]", " [</b>] "]))
        t = "".join(out)
        if rng.random() < 0.7 and not t.endswith("\n"):
            t += "\n"
        return t

    def gstream(self, rng, D):
        an = sorted(D["inv"])
        out = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            x = rng.random()
            a = rng.choice(an)
            if x < 0.35:
                out.append(("w", a, ""))
            elif x < 0.5:
                n = rng.choice([1, 9])
                out.append(("w", tuple(y.upper() if len(y) == 1 and k < n else y for k, y in enumerate(a)), ""))
            elif x < 0.6:
                out.append(("w", a, "# " + rng.choice(["up", "out of"])))
            elif x < 0.7:
                b = rng.choice(an)
                if len(a[-1]) < 2:
                    continue
                out.append(("c", a, b))
            elif x < 0.8:
                out.append(("w", tuple(rng.choice(D["syms"] + ["z"]) for _ in range(rng.randint(1, 4))) + tuple(rng.choice(TAGS[:4] + ["<xx>"]) for _ in range(rng.randint(0, 2))), ""))
            elif x < 0.9:
                out.append(("*", "".join(rng.choice("abz\u00e4") for _ in range(3))))
            else:
                out.append(("@", "".join(rng.choice("abz\u00e4") for _ in range(3)), rng.choice(["", "<n>", "<n><pl>"])))
            out.append(("b", rng.choice(SEPS) if rng.random() < 0.8 else rng.choice(["[<b>]", "[ \n]", "[]"])))
        out.append(("b", "\n"))
        return out

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        D["ty"] = rng.choice(["olw", "olw", "ol"])
        g = D["g"] = rng.random() < 0.3
        self.lexicon(rng, D)
        f = self.net(rng, D, g)
        c.fst("t", "tropical", f)
        c.cmd("convert", "t", D["ty"])
        c.cmd("write", "t.ol", "1", "t")
        args = []
        if g:
            D["mode"] = rng.choice("gnd")
            args.append({"g": rng.choice(["-g", "--generation"]), "n": rng.choice(["-n", "--non-marked-gen"]), "d": rng.choice(["-d", "--debugged-gen"])}[D["mode"]])
            D["items"] = self.gstream(rng, D)
            t = "".join(self.gtext(x) for x in D["items"])
            D["case"] = rng.choice(["", "", "", "c", "w"])
            if D["case"]:
                args.append(rng.choice({"c": ["-c", "--case-sensitive"], "w": ["-w", "--dictionary-case"]}[D["case"]]))
            D["fmt"] = ""
        else:
            D["fmt"] = rng.choice("pppxCj")
            if D["fmt"] != "p" or rng.random() < 0.2:
                args.append({"j": rng.choice(["-j", "--transliterate"]), "p": rng.choice(["-p", "--apertium"]), "x": rng.choice(["-x", "--xerox"]), "C": rng.choice(["-C", "--cg"])}[D["fmt"]])
            D["case"] = rng.choice(["", "", "", "c", "w", "X"])
            if D["case"]:
                args.append(rng.choice({"c": ["-c", "--case-sensitive"], "w": ["-w", "--dictionary-case"], "X": ["-X", "--raw"]}[D["case"]]))
            D["e"] = rng.random() < 0.5
            if D["e"]:
                args.append(rng.choice(["-e", "--do-compounds"]))
            if rng.random() < 0.3:
                args.append(rng.choice(["-k", "--keep-compounds"]))
                D["e"] = False
            D["r"] = D["fmt"] == "C" and rng.random() < 0.3
            if D["r"]:
                args.append(rng.choice(["-r", "--show-raw-in-cg"]))
            D["W"] = D["fmt"] != "C" and rng.random() < 0.4
            if D["W"]:
                args.append(rng.choice(["-W", "--show-weights"]))
            D["N"] = rng.choice([None, None, None, 1, 2]) if D["fmt"] != "j" else None
            if D["N"]:
                args += rng.choice([["-N", str(D["N"])], ["--analyses=%d" % D["N"]]])
            D["L"] = rng.choice([None, None, None, 1, 2]) if not D["N"] else None
            if rng.random() < 0.1:
                args.append(rng.choice(["-a", "--analysis"]))
            if D["L"]:
                args += rng.choice([["-l", str(D["L"])], ["--weight-classes", str(D["L"])]])
            t = self.stream(rng, D)
            D["raw"] = D["fmt"] == "x" or D["case"] == "X"
            if D["raw"]:
                # no reserved characters
                t = re.sub(r"\\(.)", r"\1", t)
        D["text"] = t
        c.cmd("putfile", "in.txt", t)
        D["args"] = args
        files = rng.random() < 0.4
        if files:
            D["run"] = c.cmd("tool", "hfst-proc", "-", "stdout", "f", *args, "t.ol", "in.txt", "out.txt")
        else:
            D["run"] = c.cmd("tool", "hfst-proc", "in.txt", "out.txt", rng.choice("fp"), *args, "t.ol")
        D["cat"] = c.cmd("cat", "out.txt")
        return c

    def gtext(self, x):
        if x[0] == "b":
            return x[1]
        if x[0] == "w":
            return "^%s%s$" % ("".join(x[1]), x[2])
        if x[0] == "c":
            return "^%s+%s$" % ("".join(x[1]), "".join(x[2]))
        if x[0] == "*":
            return "^*%s$" % x[1]
        return "^@%s%s$" % (x[1], x[2])

    # -- model
    def symbols(self, D):
        out = set()
        for s, r in D["lex"].items():
            out |= set(s)
            for a in r:
                out |= set(a)
        return out

    def tokens(self, D):
        """(kind, text as in the stream, symbol or None, alphabetic)"""
        multi = sorted((x for x in self.symbols(D) if len(x) > 1), key=len, reverse=True)
        # the other case of every alphabetic symbol is a symbol too
        t, i, out = D["text"], 0, []
        raw = D["raw"]
        while i < len(t):
            c = t[i]
            if c == "\\" and not raw:
                out.append(("e", t[i:i + 2], None, alpha(t[i + 1]))); i += 2
            elif c == "[" and not raw:
                j = i + 1
                while t[j] != "]":
                    j += 2 if t[j] == "\\" else 1
                j += 1
                if t[i:i + 2] == "[[":
                    j += 1
                out.append(("s", t[i:j], " ", False)); i = j
            else:
                m = next((x for x in multi if t.startswith(x, i)), None)
                x = m or c
                out.append(("c", x, x, alpha(x) if len(x) == 1 else x[0].isalpha())); i += len(x)
        return out

    def analyses(self, D, toks):
        """surface tokens -> {analysis: weight}"""
        res = {}
        for s, r in D["lex"].items():
            if len(s) != len(toks):
                continue
            ok = True
            for x, (k, _, sym, al) in zip(s, toks):
                if x == sym:
                    continue
                if D["case"] in ("c", "X") or sym is None or len(sym) != 1 or not sym.isupper() or sym.lower() != x:
                    ok = False
                    break
            if ok:
                for a, w in r.items():
                    res[a] = min(w, res.get(a, 1e9))
        return res

    def split(self, D):
        toks = self.tokens(D)
        n = len(toks)
        mx = max(len(s) for s in D["lex"])
        out, p = [], 0
        while p < n:
            best = None
            for e in range(min(n, p + mx), p, -1):
                if e < n and toks[e - 1][3] and toks[e][3]:
                    continue
                r = self.analyses(D, toks[p:e])
                if r:
                    best = e, r
                    break
            if best:
                out.append(("k", toks[p:best[0]], best[1]))
                p = best[0]
            elif not toks[p][3]:
                out.append(("b", toks[p:p + 1], None))
                p += 1
            else:
                e = p
                while e < n and toks[e][3]:
                    e += 1
                out.append(("u", toks[p:e], None))
                p = e
        return out

    def caps(self, D, toks):
        if D["case"] in ("w", "X") or D["case"] == "" and not D["g"] and D["fmt"] == "C":
            return ""
        a = toks[0][2]
        b = toks[1][2] if len(toks) > 1 else a
        lo = lambda x: x is not None and len(x) == 1 and x.islower()
        up = lambda x: x is not None and len(x) == 1 and x.isupper()
        if up(a) and lo(b):
            return "F"
        if up(a) and up(b):
            return "U"
        return ""

    def recase(self, a, st):
        out = []
        for k, x in enumerate(a):
            if len(x) == 1 and x.isalpha() and (st == "U" or st == "F" and k == 0):
                x = x.upper()
            out.append(x)
        return tuple(out)

    def esc(self, s):
        return "".join("\\" + c if c in SPECIAL else c for c in s)

    def choose(self, D, r):
        """the analyses that may be shown: (must, may, number)"""
        if D["ty"] == "ol":
            r = {a: 0.0 for a in r}
            if D["L"]:
                D["L"] = None
        if D["e"]:
            k = min(a.count("#") for a in r)
            r = {a: w for a, w in r.items() if a.count("#") == k}
        if D["L"]:
            ws = sorted(set(r.values()))[:D["L"]]
            r = {a: w for a, w in r.items() if w in ws}
        if D["N"] and D["N"] < len(r):
            ws = sorted(r.values())
            lim = ws[D["N"] - 1]
            return {a for a in r if r[a] < lim}, {a for a in r if r[a] <= lim}, D["N"], r
        return set(r), set(r), len(r), r

    def cgform(self, a, raw):
        """lemma and tags of an analysis in CG format: the lemmas of all parts, the tags of the last one"""
        parts = [[]]
        for x in a:
            parts[-1].append(x)
            if x == "#":
                parts[-1].pop()
                parts.append([])
        tag = lambda x: len(x) > 1 and x[0] in "<+"
        lem = []
        for q in parts:
            k = next((k for k, x in enumerate(q) if tag(x)), len(q))
            lem.append("".join(q[:k]))
            rest = q[k:]
        tags = [x[1:-1] if x[0] == "<" else x[1:] if x[0] == "+" else x for x in rest]
        return '"%s"%s%s' % ("#".join(lem), ("\t" + " ".join(tags)) if tags else "", ' \u220f"%s"' % "".join(a) if raw else "")

    # -- monitor
    def judge(self, c, out, rep):
        D = c.data
        got = out[D["cat"]]
        one = lambda r, k: (r.get(k) or [""])[0]
        txt = one(got, "c") if not got.exc else ""
        err = one(out[D["run"]], "err")
        rc = one(out[D["run"]], "rc")
        def bad(key, msg):
            rep.bad("proc %s" % key, "%s\n--- options %r %s\n--- text %r\n--- lexicon %r" % (msg, D["args"], D["ty"], D["text"][:1500], D["lex"]), c.text())
        if rc != "0":
            m = re.search(r"Assertion '(.{0,60})|AddressSanitizer: ([\w-]+)|runtime error: (.{0,60})", err)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*(?:hfst-proc|libhfst)", err)
            return bad("failed %s %s" % (m.group(0) if m else "", fr[:3]), "exit %s: %s" % (rc, err[-500:]))
        txt = txt or ""
        if D["g"]:
            return self.judge_gen(D, txt, bad, rep)
        segs = self.split(D)
        pos = 0
        known = 0
        for kind, toks, r in segs:
            raw = "".join(x[1] for x in toks)
            here = txt[pos:pos + 200]
            if D["fmt"] in ("p", "j"):
                if kind == "b":
                    if not txt.startswith(raw, pos):
                        return bad("text lost", "at %r instead of %r" % (here, raw))
                    pos += len(raw)
                    continue
                surf = "".join(" " if x[0] == "s" else x[1] for x in toks)
                tail = "".join(x[1] for x in toks if x[0] == "s")
                if kind == "u":
                    w = "^%s/*%s$" % (surf, surf) if D["fmt"] == "p" else surf
                    if not txt.startswith(w, pos):
                        return bad("unknown word", "at %r instead of %r" % (here, w))
                    pos += len(w)
                    rep.inc("unknown")
                    continue
                fm = lambda a: "".join(x if len(x) > 1 and x[0] in "<+" else self.esc(x) for x in a)
                if D["fmt"] == "p":
                    if not txt.startswith("^%s/" % surf, pos):
                        return bad("known word", "at %r instead of %r" % (here, surf))
                    pos += len(surf) + 2
                    e = txt.find("$", pos)
                    n = 1
                else:
                    # as many analyses as there are say where the word ends
                    fs = [fm(self.recase(a, self.caps(D, toks))) + ("~%g~" % w if D["W"] and D["ty"] == "olw" else "") for a, w in self.choose(D, r)[3].items()]
                    e, n = pos + sum(map(len, fs)) + len(fs) - 1, 0
                shown = txt[pos:e].split("/")
                if e < 0 or not txt.startswith(tail, e + n):
                    return bad("superblank", "at %r" % here)
                pos = e + n + len(tail)
                parse = lambda s: re.match(r"^(.*?)(?:~([-+.e\d]+)~)?$", s, re.S).groups()
            else:
                surf = "".join(" " if x[0] == "s" else x[1] for x in toks)
                if kind == "b":
                    continue
                if D["fmt"] == "x":
                    if kind == "u":
                        w = "%s\t+?\n\n" % surf
                        if not txt.startswith(w, pos):
                            return bad("unknown word", "at %r instead of %r" % (here, w))
                        pos += len(w)
                        rep.inc("unknown")
                        continue
                    e = txt.find("\n\n", pos)
                    rows = txt[pos:e].split("\n")
                    if e < 0 or not all(x.startswith(surf + "\t") for x in rows):
                        return bad("known word", "at %r instead of %r" % (here, surf))
                    pos = e + 2
                    shown = [x[len(surf) + 1:] for x in rows]
                    parse = lambda s: re.match(r"^([^\t]*)(?:\t([-+.e\d]+))?$", s, re.S).groups()
                    fm = "".join
                else:
                    w = '"<%s>"\n' % surf
                    if kind == "u":
                        w += '\t"*%s"\n' % surf
                    if not txt.startswith(w, pos):
                        return bad("CG word", "at %r instead of %r" % (here, w))
                    pos += len(w)
                    if kind == "u":
                        rep.inc("unknown")
                        continue
                    shown = []
                    while txt.startswith("\t", pos):
                        e = txt.find("\n", pos)
                        shown.append(txt[pos + 1:e])
                        pos = e + 1
                    # whether every part of a compound is capitalised is not specified
                    low = D["case"] == "c" and any("#" in a for a in r)
                    parse = lambda s: (s.lower() if low else s, None)
                    fm = lambda a: self.cgform(a, D["r"]).lower() if low else self.cgform(a, D["r"])
            known += 1
            must, may, num, r = self.choose(D, r)
            st = self.caps(D, toks)
            F = {}
            for a, w in r.items():
                F.setdefault(fm(self.recase(a, st)), []).append((a, w))
            got = [parse(s) for s in shown]
            names = [s for s, w in got]
            if any(s not in F for s in names):
                return bad("wrong analysis", "%r of %r instead of %r" % (shown, surf, sorted(F)))
            if any(not any(a in may for a, w in F[s]) for s in names):
                return bad("not a best analysis", "%r of %r instead of %r" % (shown, surf, r))
            if any(fm(self.recase(a, st)) not in names for a in must):
                return bad("analysis missing", "%r of %r instead of %r" % (shown, surf, sorted(F)))
            if len(F) == len(r) and len(names) != num:
                return bad("number of analyses", "%r of %r instead of %d of %r" % (shown, surf, num, r))
            if D["W"] and D["ty"] == "olw":
                for s, w in got:
                    if w is None or not any(abs(float(w) - x) < 1e-3 for a, x in F[s]):
                        return bad("weight", "%r of %r instead of %r" % (shown, surf, F[s]))
        if pos != len(txt):
            return bad("extra output", "%r after the end" % txt[pos:pos + 300])
        rep.inc("known", known)
        rep.inc("segments", len(segs))
        rep.ok((D["fmt"], D["case"], D["text"], repr(D["lex"])) if known else None)

    def judge_gen(self, D, txt, bad, rep):
        pos, known = 0, 0
        m = D["mode"]
        for x in D["items"]:
            here = txt[pos:pos + 120]
            opts = None
            if x[0] == "b":
                want = x[1]
            elif x[0] == "*":
                want = ("" if m == "n" else "*") + x[1]
            elif x[0] == "@":
                want = ("" if m == "n" else "\\@") + x[1] + (self.esc(x[2]) if m == "d" else "")
            else:
                parts = [x[1]] if x[0] == "w" else [x[1], x[2]]
                opts = []
                for p in parts:
                    r = self.gens(D, p)
                    if r is None:
                        w = "".join(p)
                        if m != "d":
                            w = re.sub(r"<[^>]*>", "", w)
                        opts.append([("" if m == "n" else "#") + self.esc(w)])
                    else:
                        known += 1
                        opts.append(r)
                want = None
            if want is not None:
                if not txt.startswith(want, pos):
                    return bad("generation: text", "at %r instead of %r" % (here, want))
                pos += len(want)
                continue
            for o in opts:
                # the forms in order of weight, forms of equal weight in any order
                rest = list(o)
                if len(rest) == 1:
                    w = rest[0]
                    if not txt.startswith(w, pos):
                        return bad("generation: word", "at %r instead of %r" % (txt[pos:pos + 120], w))
                    pos += len(w)
                    continue
                n = sum(map(len, rest)) + len(rest) - 1
                if sorted(txt[pos:pos + n].split("/")) != sorted(rest):
                    return bad("generation: forms", "at %r instead of %r" % (txt[pos:pos + 120], rest))
                pos += n
            if x[0] == "w" and x[2]:
                if not txt.startswith(x[2][1:], pos):
                    return bad("generation: invariable part", "at %r instead of %r" % (txt[pos:pos + 120], x[2][1:]))
                pos += len(x[2]) - 1
        if pos != len(txt):
            return bad("generation: extra output", "%r after the end" % txt[pos:pos + 300])
        rep.inc("generated", known)
        rep.ok(("gen", m, D["text"], repr(D["lex"])) if known else None)

    def gens(self, D, p):
        """the forms of a sequence of symbols, written out and read again as text"""
        r = {}
        w = "".join(p)
        if D["case"] != "c":
            w = "".join(x.lower() if len(x) == 1 else x for x in p)
        for a, q in D["inv"].items():
            if "".join(a) == w:
                r.update(q)
        if not r:
            return None
        st = self.caps(D, [(0, 0, x) for x in p])
        return ["".join(self.esc(x) for x in self.recase(s, st)) for s in r]

CHECK = C()
