"""C09: lookup."""
import ref, gen
from ref import EPS, UNK, IDN, INF
from drv import Case
from chk import Check

FLAGS = ["@P.F.A@", "@P.F.B@", "@N.F.A@", "@R.F.A@", "@R.F@", "@D.F.A@", "@D.F@", "@C.F@", "@U.F.A@", "@U.F.B@", "@U.G.A@", "@P.G.B@", "@D.G.B@"]
WO = ("olw",)

def norm(syms):
    return tuple(x for x in syms if x != EPS and x != '' and not ref.flag_parse(x))

class C(Check):
    id = "C09"
    quick = (200, 60)
    thorough = (2000, 80)
    rule = ("Random transducers (epsilon cycles, wildcards, multicharacter and overlapping symbols, weights, flag diacritics) in optimized-lookup and basic form; sequences of lookups of known, unknown, long and multi-byte strings on the same object, with and without limits, and the infinite-ambiguity tests. "
            "The monitor enumerates all runs over the input in the dumped transducer. Non-trivial: a lookup with at least one result or an unknown symbol.")

    def gen(self, rng, k, rep):
        c = Case()
        D = c.data
        basic = D["basic"] = rng.random() < 0.35
        ty = D["ty"] = rng.choice(["ol", "olw", "olw"]) if not basic else "basic"
        syms = rng.choice(gen.POOLS + [["a", "ab", "b", "abc"], ["a", "aa", "aaa"], ["\u00e4", "\u00e4\u00f6", "\u00f6"], ["a", "b", "A"]])
        fl = rng.sample(FLAGS, rng.randint(1, 4)) if rng.random() < 0.3 else ()
        f = gen.rand_fst(rng, syms=syms, weighted=ty != "ol", flags=fl, n=rng.choice([2, 3, 4, 5, 6]), eps=rng.choice([0.1, 0.3]))
        if rng.random() < 0.35:
            # wildcards whose output is known
            for _ in range(rng.randint(1, 3)):
                s, t = rng.randrange(f.n), rng.randrange(f.n)
                x = rng.random()
                if x < 0.6:
                    f.add(s, t, IDN, IDN, gen.weight(rng) if ty != "ol" else 0.0)
                else:
                    f.add(s, t, UNK, rng.choice(syms + [EPS]), gen.weight(rng) if ty != "ol" else 0.0)
        if basic:
            c.graph("g", f)
            D["dump"] = c.cmd("gdump", "g")
        else:
            c.fst("t", "tropical", f)
            D["src"] = c.cmd("dump", "t")
            c.cmd("convert", "t", ty)
            D["dump"] = c.cmd("dump", "t")
        D["q"] = []
        e = ref.Fst(f.n)
        for q in range(f.n):
            e.arcs[q] = [a for a in f.arcs[q] if a[0] == EPS or ref.flag_parse(a[0])]
        noloop = ref.acyclic(e)
        extra = ["x", "q", "z", "\u4e2d", "\U0001f600", "b", "c", "Z"]
        words = sorted(ref.lang_strings(f, 0, 5, cap=2000) or [], key=lambda w: (len(w), w))
        for _ in range(rng.randint(2, 7)):
            if words and rng.random() < 0.6:
                w = rng.choice(words)
                s = [rng.choice(extra) if x in (UNK, IDN) else x for x in w if not ref.flag_parse(x)]
                if rng.random() < 0.2 and s:
                    s[rng.randrange(len(s))] = rng.choice(syms + extra)
            else:
                s = [rng.choice(syms + extra[:2] if rng.random() < 0.7 else extra) for _ in range(rng.randint(0, 5))]
            if not basic and noloop and rng.random() < 0.08:      # bytes that are not UTF-8: no result promised, only safety
                b = bytes(rng.choice([0x61, 0xc3, 0xa4, 0xe2, 0x82, 0xf0, 0x9f, 0xff, 0x80, 0xed]) for _ in range(rng.randint(1, 4)))
                D["q"].append(("bytes", b, 1, -1, c.cmd(rng.choice(["lookup_s", "lookup_pairs"]), "t", 5, b.decode("utf-8", "surrogateescape"))))
                continue
            if basic:
                if "@" in "".join(s):
                    continue
                ob = int(rng.random() < 0.7)
                D["q"].append(("ginf", s, ob, -1, c.cmd("glookup_inf", "g", ob, *s)))
                lim = rng.choice([-1, -1, 1, 2])
                r = ref.lookup(f, s, obey=bool(ob))
                if r is None or len(r[0]) > 500:
                    continue
                if r[2]:
                    D["q"].append(("gcyc", s, ob, 2, c.cmd("glookup", "g", ob, 1, -1, *s)))
                else:
                    D["q"].append(("g", s, ob, lim, c.cmd("glookup", "g", ob, "-", lim, *s)))
            else:
                w = "".join(s)
                alpha = {a[0] for A in f.arcs for a in A}
                toks = ref.tokenize(w, alpha)
                if any(ref.flag_parse(x) for x in toks) or len(toks) > 7:   # the search is exponential in the length
                    continue
                D["q"].append(("inf", toks, 1, -1, c.cmd("lookup_inf", "t", *([w] if w else []))))
                r = ref.lookup(f, toks)
                if r is None or r[2] or len(r[0]) > 500:
                    continue
                lim = rng.choice([-1, -1, -1, 1, 2, 5])
                x = rng.random()
                if x < 0.3:
                    D["q"].append(("s", toks, 1, lim, c.cmd("lookup_s", "t", lim, w)))
                elif x < 0.5:
                    D["q"].append(("s", toks, 1, lim, c.cmd("lookup_fd_s", "t", lim, w)))
                elif x < 0.7:
                    D["q"].append(("s", toks, 1, lim, c.cmd(rng.choice(["lookup_v", "lookup_fd_v"]), "t", lim, *toks)))
                else:
                    D["q"].append(("p", toks, 1, lim, c.cmd("lookup_pairs", "t", lim, w)))
        D["after"] = c.cmd("gdump" if basic else "dump", "g" if basic else "t")
        return c

    def judge(self, c, out, rep):
        d = c.data
        ty = d["ty"]
        f = out[d["dump"]].fst()
        w = ty != "ol"
        def bad(k, m):
            rep.bad("%s [%s]" % (k, ty), "%s\ntransducer %r" % (m, f), c.text())
        for kind, s, ob, lim, i in d["q"]:
            r = out[i]
            if kind == "bytes":
                rep.ok((kind, s))
                if r.exc:
                    return bad("bytes: exception", "%r: %s" % (s, r.exc))
                continue
            R = ref.lookup(f, s, obey=bool(ob), unk_out=UNK if kind[0] == "g" else None)
            if R is None:
                continue
            runs, inf, loops = R
            if r.exc:
                return bad("%s: exception" % kind, "%r: %s" % (s, r.exc))
            if kind in ("inf", "ginf"):
                b = r.bool()
                rep.ok((kind, repr(s), repr(f)) if inf else None)
                rep.inc("infinite" if inf else "finite")
                if inf and not b:
                    return bad("infinite ambiguity missed", "%r" % (s,))
                if kind == "ginf" and b and not loops:   # documented: flags may make it a false positive
                    loops = (ref.lookup(f, s, obey=False) or (0, 0, True))[2]
                if b and not loops:
                    return bad("finite lookup called infinite", "%r" % (s,))
                continue
            got = r.paths() if kind in ("p", "g", "gcyc") else r.ones()
            rep.inc(kind)
            if kind == "gcyc":
                # bounded number of epsilon cycles: existing runs only
                rep.ok((kind, repr(s), repr(f)))
                for wt, p in got:
                    if not self.run_exists(f, s, ob, wt, p):
                        return bad("lookup: path does not exist", "%r: %r %r" % (s, wt, p))
                if runs and not got and lim < 0:
                    return bad("lookup: nothing found", "%r" % (s,))
                continue
            if kind in ("p", "g"):
                W = {}
                for wt, p in runs:
                    W.setdefault(tuple(x for x in p if x not in ((EPS, EPS), ('', '')) and not ref.flag_parse(x[0])), []).append(wt)
                G = [(wt, tuple(x for x in p if x not in ((EPS, EPS), ('', '')) and not ref.flag_parse(x[0]))) for wt, p in got]
                if kind == "p":   # input tape: the wildcard itself is reported for symbols matched by it
                    a = f.symbols() | f.alpha
                    W2 = {}
                    for p, ws in W.items():
                        W2.setdefault(tuple((x, y) for x, y in p), []).extend(ws)
                    G = [(wt, self.fill(p, s)) for wt, p in G]
                    W = W2
            else:
                W = {}
                for wt, p in runs:
                    W.setdefault(norm(o for i2, o in p), []).append(wt)
                G = [(wt, norm(p)) for wt, p in got]
            rep.ok((kind, lim, repr(s), repr(f)) if W or any(x not in f.symbols() for x in s) else None)
            rep.inc("results", len(got))
            for wt, p in G:
                if p not in W:
                    return bad("lookup: wrong result", "%r -> %r; expected %r" % (s, p, sorted(W)[:5]))
                if w and not any(abs(wt - x) < 2e-3 for x in W[p]):
                    return bad("lookup: wrong weight", "%r -> %r %r; expected %r" % (s, p, wt, W[p]))
                if not w and wt != 0:
                    return bad("lookup: weight in an unweighted transducer", repr(wt))
            keys = {p for wt, p in G}
            if lim >= 0:
                if len(got) > lim:
                    return bad("lookup: limit exceeded", "%r: %d > %d" % (s, len(got), lim))
                if W and not got:
                    return bad("lookup: nothing found", "%r" % (s,))
                if len(runs) <= lim and keys != set(W):
                    return bad("lookup: result missing under the limit", "%r: %r" % (s, sorted(set(W) - keys)[:4]))
            else:
                if keys != set(W):
                    return bad("lookup: result missing", "%r: %r; got %r" % (s, sorted(set(W) - keys)[:4], G[:4]))
                if w:
                    for p, ws in W.items():
                        m = min(ws)
                        if not any(q == p and abs(wt - m) < 2e-3 for wt, q in G):
                            return bad("lookup: best weight missing", "%r -> %r %r" % (s, p, m))
        g = out[d["after"]].fst()
        if ref.diff_pairs(f, g, weights=w):
            return bad("lookup changed the transducer", repr(g))

    def hang_counts(self, c, last):
        return last != "glookup"     # exponential in the number of epsilon cycles

    def fill(self, p, s):
        """Concrete input symbols in place of the wildcard the pair list may show."""
        out = []
        k = 0
        for i, o in p:
            i, o = i or EPS, o or EPS
            if i != EPS:
                i = s[k] if k < len(s) else i
                k += 1
            out.append((i, o))
        return tuple(out)

    def run_exists(self, f, s, ob, wt, p):
        al = f.symbols() | f.alpha
        cur = {(0, 0, frozenset()): {0.0}}
        for i, o in p:
            nxt = {}
            for (q, k, v), ws in cur.items():
                for a, b, x, t in f.arcs[q]:
                    fo = ref.flag_parse(a)
                    if a == EPS or fo:
                        if (a, b) != (i, o):
                            continue
                        nv = ref.flag_apply(v, fo) if fo and ob else v
                        if nv is None:
                            continue
                        key = (t, k, nv)
                    elif k < len(s):
                        y = s[k]
                        if a == y:
                            pr = (y, b)
                        elif a in (UNK, IDN) and y not in al:
                            pr = (y, y if b == IDN else b)
                        else:
                            continue
                        if pr != (i, o):
                            continue
                        key = (t, k + 1, v)
                    else:
                        continue
                    nxt.setdefault(key, set()).update(z + x for z in ws)
            cur = nxt
        return any(k == len(s) and q in f.fin and any(abs(z + f.fin[q] - wt) < 2e-3 for z in ws) for (q, k, v), ws in cur.items())

CHECK = C()
