"""C18: splitting text into symbols."""
import ref, gen
from ref import EPS
from drv import Case
from chk import Check

# characters of known grapheme class
CLS = {"\u0301": "X", "\u0308": "X", "\U0001f3fd": "X", "\u200d": "Z", "\U0001f469": "P", "\U0001f680": "P", "\u2764": "P",
       "\U0001f1eb": "R", "\U0001f1ee": "R", "\u093f": "S", "\u1100": "L", "\u1161": "V", "\u11a8": "T", "\uac00": "LV", "\uac01": "LVT",
       "\u0600": "B", "\r": "CR", "\n": "LF", "\t": "C", "\u200b": "C", "\x01": "C"}
PLAIN = ["a", "b", "c", "d", " ", ":", "\\", "@", "_", "<", ">", "0", "\u00e4", "\u20ac", "\u0915", "\u4e2d", "\U0001d11e"]
ALLCH = PLAIN + sorted(CLS)
POOLS = [["a", "b", "c"], ["a", "b", ":", " ", "\\"], ["a", "\u00e4", "\u20ac", "\U0001d11e"], PLAIN, ALLCH, ["a", "\u0301", "\u200d", "\U0001f469", "\U0001f1eb"], ["@", "_", "a", "0", "<", ">"]]

def cluster(s):
    """Length in characters of the first extended grapheme cluster (Unicode Annex 29)."""
    k = 1
    ri = 1
    while k < len(s):
        a, b = CLS.get(s[k - 1], "O"), CLS.get(s[k], "O")
        if a == "CR" and b == "LF":
            k += 1
            continue
        if a in ("CR", "LF", "C") or b in ("CR", "LF", "C"):
            break
        if b in ("X", "Z", "S") or a == "B":
            ok = True
        elif a == "L":
            ok = b in ("L", "V", "LV", "LVT")
        elif a in ("LV", "V"):
            ok = b in ("V", "T")
        elif a in ("LVT", "T"):
            ok = b == "T"
        elif a == "Z" and b == "P":
            j = k - 2
            while j >= 0 and CLS.get(s[j]) == "X":
                j -= 1
            ok = j >= 0 and CLS.get(s[j]) == "P"
        elif a == "R" and b == "R":
            ok = ri == 1
            ri += 1
            k += ok
            if not ok:
                break
            continue
        else:
            ok = False
        if not ok:
            break
        k += 1
    return k

def tokens(s, known, split):
    out = []
    k = 0
    known = sorted(known, key=lambda x: -len(x.encode()))
    while k < len(s):
        for x in known:
            if s.startswith(x, k):
                break
        else:
            x = s[k] if split else s[k:k + cluster(s[k:])]
        out.append(x)
        k += len(x)
    return out

class C(Check):
    id = "C18"
    quick = (160, 30)
    thorough = (3000, 60)
    rule = ("Random texts over pools with multibyte characters, combining marks, joiners, controls, backslashes and colons; random sets of multicharacter and skip symbols that overlap, nest and share prefixes; all tokenizer entry points, string constructors of transducers, "
            "and the strings-to-transducer tokenizer in both notations with and without spaces; also long texts and texts with invalid UTF-8. The monitor splits the text itself (longest known symbol, else one character or grapheme cluster). "
            "Non-trivial: some multicharacter or skip symbol, escape or non-ASCII character was met.")

    def text(self, rng, pool, syms, n=None):
        n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 15])
        o = ""
        for _ in range(n):
            if syms and rng.random() < 0.4:
                x = rng.choice(syms)
                o += x if rng.random() < 0.7 else x[:rng.randrange(len(x) + 1)]
            else:
                o += rng.choice(pool)
        return o

    def syms(self, rng, pool, n):
        out = []
        for _ in range(n):
            x = rng.random()
            if out and x < 0.4:
                y = rng.choice(out)
                out.append(rng.choice([y + rng.choice(pool), y[:-1] or "a", rng.choice(pool) + y, y + y]))
            else:
                out.append("".join(rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3, 4]))))
        return out

    def broken(self, rng, s):
        b = bytearray(s.encode() or b"a")
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(b) + 1)
            x = rng.random()
            if x < 0.3 and b:
                del b[min(k, len(b) - 1)]
            elif x < 0.8:
                b[k:k] = rng.choice([b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9d\x84", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xfe", b"\xf8\x88\x80\x80\x80"])
            elif b:
                b[min(k, len(b) - 1)] = rng.randrange(1, 256)
        return bytes(b).replace(b"\0", b"a").decode("utf-8", "surrogateescape")

    def gen(self, rng, k, rep):
        c = Case()
        q = c.data["q"] = []
        for _ in range(rng.choice([1, 2])):
            pool = rng.choice(POOLS)
            multi = self.syms(rng, pool, rng.choice([0, 1, 2, 3, 5]))
            skip = self.syms(rng, pool, rng.choice([0, 0, 1, 2]))
            if multi and rng.random() < 0.1:
                skip.append(rng.choice(multi))
            if rng.random() < 0.1:
                multi.append("")
            c.cmd("tok", "k", len(multi), *(multi + skip))
            S = [x for x in multi + skip if x]
            for _ in range(6):
                s = self.text(rng, pool, S)
                if rng.random() < 0.01:
                    s = self.text(rng, pool, S, 1500)
                if rng.random() < 0.15:
                    s = self.broken(rng, s)
                t = self.text(rng, pool, S) if rng.random() < 0.8 else self.broken(rng, "ab")
                sp = rng.random() < 0.5
                # <> is the epsilon of SFST
                ty = rng.choice(["tropical", "sfst", "foma"] if not any("<>" in x for x in S) else ["tropical", "foma"])
                z = rng.choice(["tok1", "tok1", "tok2", "tok3", "tokspace", "tokfst", "tokfst2", "s2f", "s2f", "s2f"])
                if z == "tok1" or z == "tok2":
                    q.append((z, multi, skip, s, None, sp, c.cmd(z, "k", s, int(sp))))
                elif z == "tok3":
                    q.append((z, multi, skip, s, t, sp, c.cmd(z, "k", s, t, int(sp))))
                elif z == "tokspace":
                    q.append((z, multi, skip, s, None, sp, c.cmd(z, s)))
                elif z == "tokfst":
                    if not s: continue
                    a = c.cmd(z, "f", ty, s, "k")
                    q.append((z, multi, skip, s, None, False, a, c.cmd("dump", "f")))
                elif z == "tokfst2":
                    if not s or not t: continue
                    a = c.cmd(z, "f", ty, s, t, "k")
                    q.append((z, multi, skip, s, t, False, a, c.cmd("dump", "f")))
                else:
                    eps = rng.choice(["@0@", "0", "@_EPSILON_SYMBOL_@", "", "eps"])
                    ms = [x for x in multi if x and " " not in x and ":" not in x and "\\" not in x and "@" not in x and "\u0600" not in x and not (eps and x.startswith(eps))]
                    pool = [x for x in pool if x != "\u0600"]
                    mode, spaces = rng.choice("sp"), rng.random() < 0.4
                    tx = self.s2f_text(rng, pool, ms, eps, mode, spaces)
                    if rng.random() < 0.07:
                        tx = self.broken(rng, tx)
                    q.append(("s2f", ms, eps, tx, mode, spaces, c.cmd("s2ftok", eps, mode, int(spaces), tx, *ms)))
        return c

    def s2f_text(self, rng, pool, ms, eps, mode, spaces):
        def sym():
            x = rng.random()
            if x < 0.3 and ms:
                return rng.choice(ms)
            if x < 0.4 and eps:
                return eps
            if x < 0.5:
                return rng.choice(["@_SPACE_@", "@_TAB_@", "@_COLON_@"])
            if x < 0.57 and ms:
                return "\\" + rng.choice(ms)
            y = rng.choice(pool)
            if x < 0.6 and y not in ":\\ " and y != eps and y not in CLS:
                return "\\" + y
            if y in ":\\" or (y == " "):
                return "\\" + y
            return y
        def many(n):
            return (" " * rng.choice([1, 1, 2]) if spaces else "").join("".join(sym() for _ in range(rng.choice([1, 1, 2]) if spaces else 1)) for _ in range(n))
        if mode == "s":
            o = many(rng.choice([0, 1, 2, 3, 5]))
            if rng.random() < 0.6:
                o += ":" + many(rng.choice([0, 1, 2, 3, 5]))
            return o
        parts = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            a = many(1)
            parts.append(a + ":" + many(1) if rng.random() < 0.5 else a)
        return (" " * rng.choice([1, 1, 2]) if spaces else "").join(parts)

    def s2f_model(self, ms, eps, tx, mode, spaces):
        """Pairs, or None when the text is malformed."""
        k = 0
        while k < len(tx) - 1:
            if tx[k] == "\\":
                k += 1
                if tx[k] == "@" or (eps and tx[k] == eps[0]):
                    return None     # what escaping them would mean is not specified
            k += 1
        known = {"\\:", "\\ ", "\\\\", "@_COLON_@", "@_TAB_@", "@_SPACE_@"} | ({eps} if eps else set()) | set(ms)
        heads = set()
        for x in ([eps] if eps else []) + ["@_SPACE_@"] + list(ms):
            heads.add("\\" + (x[:cluster(x)]))
        full = known | heads
        T = tokens(tx, full, False)
        stray = False
        U = []          # (symbol text, literal?) or ":" / " "
        if T and T[-1] == "\\":
            return None
        for t in T:
            if t == ":" or (t == " " and spaces):
                U.append(t)
            elif t == "\\":
                stray = True
            elif t == eps:
                U.append((eps if spaces else "",))
            elif t in ("@_COLON_@", "@_TAB_@", "@_SPACE_@"):
                U.append(({"C": ":", "T": "\t", "S": " "}[t[2]],))
            elif t[0] == "\\" and t in full:
                U.append((t[1:],))
            elif ":" in t or "\\" in t:
                return None
            else:
                U.append((t,))
        if spaces:
            V = []
            cur = None
            for u in U:
                if u == " " or u == ":":
                    if cur is not None:
                        V.append((cur,))
                        cur = None
                    if u == ":":
                        V.append(u)
                else:
                    cur = (cur or "") + u[0]
            if cur is not None:
                V.append((cur,))
            U = V
        e = lambda u: EPS if spaces and u[0] == eps else u[0] or EPS
        if mode == "p":
            out = []
            k = 0
            while k < len(U):
                if U[k] == ":":
                    return None
                if k + 1 < len(U) and U[k + 1] == ":":
                    if k + 2 >= len(U) or U[k + 2] == ":":
                        return None
                    out.append((e(U[k]), e(U[k + 2])))
                    k += 3
                else:
                    out.append((e(U[k]),) * 2)
                    k += 1
            return stray, out
        if U.count(":") > 1:
            return None
        if ":" in U:
            k = U.index(":")
            a, b = [e(u) for u in U[:k]], [e(u) for u in U[k + 1:]]
        else:
            a = b = [e(u) for u in U]
        m = max(len(a), len(b))
        return stray, list(zip(a + [EPS] * (m - len(a)), b + [EPS] * (m - len(b))))

    def judge(self, c, out, rep):
        def valid(s):
            try:
                s.encode("utf-8", "surrogateescape").decode()
                return True
            except UnicodeDecodeError:
                return False
        # random bytes may make characters whose grapheme class the model does not know
        modelled = lambda x: all(ord(y) < 127 and y >= " " or 0xdc80 <= ord(y) <= 0xdcff or y in ALLCH for y in x)
        for z, multi, skip, s, t, sp, *ids in c.data["q"]:
            o = out[ids[0]]
            desc = "%s multi=%r skip=%r text=%r %r %r" % (z, multi, skip, s, t, sp)
            rep.inc(z)
            if not modelled(s + (t or "")) and not (sp and z.startswith("tok") and z != "tokfst2") :
                rep.inc("unmodelled_character")
                continue
            bad = not valid(s) or (z in ("tok3", "tokfst2") and not valid(t))
            e = o.exc
            if bad:
                rep.ok(desc)
                rep.inc("invalid_utf8")
                if not e or "IncorrectUtf8Coding" not in e:
                    return rep.bad("invalid UTF-8 not rejected: " + z, "%s: %r %r" % (desc, e, o.lines), c.text())
                continue
            if z == "s2f":
                want = self.s2f_model(multi, skip, s, t, sp)
                if want is None:
                    rep.inc("malformed")
                    rep.ok()
                    continue
                stray, want = want
            else:
                M, S = [x for x in multi if x], set(skip)
                tk = lambda x: [y for y in tokens(x, M + list(S), sp) if y not in S]
                a = tk(s)
                if z in ("tok1", "tok2", "tokfst"):
                    want = [(x, x) for x in a]
                elif z == "tokspace":
                    want = [(x, x) for x in s.split(" ") if x]
                else:
                    b = tk(t)
                    m = max(len(a), len(b))
                    want = list(zip(a + [EPS] * (m - len(a)), b + [EPS] * (m - len(b))))
            if e:
                return rep.bad("exception: " + z, "%s: %s" % (desc, e), c.text())
            rep.ok(desc if want else None)
            if z in ("tokfst", "tokfst2"):
                f = ref.trim(out[ids[1]].fst())
                ps = ref.paths_pairs(f, 10000)
                got = [list(p) for p in ps]
                if not ref.is_cyclic(f) and len(got) == 1:
                    got = got[0]
                norm = lambda l: [p for p in l if p != (EPS, EPS)]
                if norm(got) != norm(want):
                    return rep.bad("wrong transducer: " + z, "%s: %r, expected %r" % (desc, got, want), c.text())
                continue
            r = o.get("a") or []
            got = [(x, x) for x in r] if z == "tok1" else [tuple(r[i:i + 2]) for i in range(0, len(r), 2)]
            if z == "s2f" and stray:    # a needless backslash may cost an epsilon
                got, want = [[[x[i] for x in l if x[i] != EPS] for i in (0, 1)] for l in (got, want)]
            if got != want:
                return rep.bad("wrong tokens: " + z + ("" if z != "s2f" else " " + t + (" spaces" if sp else "")), "%s: %r, expected %r" % (desc, got, want), c.text())

CHECK = C()
