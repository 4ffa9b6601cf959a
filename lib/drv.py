"""Runs batches of cases through the instrumented driver and parses its event log."""
import os, re, subprocess, tempfile, shutil, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ASAN = os.path.join(BUILD, "asan")
DRV = os.path.join(ASAN, "bin", "hfstdrv")

def enc(s):
    if isinstance(s, bytes):
        s = s.decode("utf-8", "surrogateescape")
    return s.replace("%", "%25").replace("\t", "%09").replace("\n", "%0A").replace("\r", "%0D").replace("\0", "%00")

def dec(s):
    if "%" not in s:
        return s
    return re.sub("%([0-9A-F]{2})", lambda m: chr(int(m.group(1), 16)), s)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3500:malloc_context_size=8:quarantine_size_mb=24:detect_odr_violation=0:"
                    "allocator_may_return_null=0:max_allocation_size_mb=2500:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
}
def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "HFST", "ASAN", "UBSAN"))}
    e.update(SAN_ENV)
    e.update(kw)
    return e

class Case:
    def __init__(self, id=None):
        self.id = id
        self.out = []
        self.n = 0
        self.data = {}
    def cmd(self, *f):
        self.out.append("\t".join(enc(str(x)) for x in f))
        self.n += 1
        return self.n - 1
    def fst(self, reg, type, f):
        self.out.append("fst\t%s\t%s" % (reg, type))
        self.out += f.lines()
        self.out.append(".")
        self.n += 1
        return self.n - 1
    def graph(self, reg, f):
        self.out.append("graph\t%s" % reg)
        self.out += f.lines()
        self.out.append(".")
        self.n += 1
        return self.n - 1
    def text(self):
        return "\n".join(["case\t%s" % self.id] + self.out + ["end"]) + "\n"

class Res:
    """What one call did."""
    __slots__ = ("cmd", "lines", "exc", "done")
    def __init__(self, cmd):
        self.cmd, self.lines, self.exc, self.done = cmd, [], None, False
    def fst(self):
        import ref
        return ref.parse(self.lines)[2]
    def dump(self):
        import ref
        return ref.parse(self.lines)
    def get(self, k):
        for l in self.lines:
            p = l.split("\t")
            if p[0] == k:
                return [dec(x) for x in p[1:]]
        return None
    def all(self, k):
        return [[dec(x) for x in l.split("\t")[1:]] for l in self.lines if l.split("\t", 1)[0] == k]
    def bool(self):
        g = self.get("b")
        return None if g is None else g[0] == "1"
    def paths(self):
        """[(weight, ((i,o),...))]"""
        out = []
        for p in self.all("p"):
            w = float(p[0])
            out.append((w, tuple(zip(p[1::2], p[2::2]))))
        return out
    def ones(self):
        return [(float(p[0]), tuple(p[1:])) for p in self.all("o")]

class Out:
    """What one case did: status ok | crash | timeout | memory | missing."""
    def __init__(self, status, res, info=""):
        self.status, self.res, self.info = status, res, info
    def __getitem__(self, i):
        return self.res[i] if i < len(self.res) else Res("?")

def parse_log(text):
    cases = {}
    cur = None
    for l in text.split("\n"):
        if l.startswith("@case\t"):
            cur = [[], False]
            cases[l[6:]] = cur
        elif l == "@end":
            if cur:
                cur[1] = True
        elif l.startswith("@\t"):
            p = l.split("\t")
            cur[0].append(Res(p[2]))
        elif cur and cur[0]:
            r = cur[0][-1]
            if l == "ok":
                r.done = True
            elif l.startswith("EXC\t"):
                r.done = True
                r.exc = l[4:]
            elif l:
                r.lines.append(l)
    return cases

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)")
def crash_key(err, rc):
    """A stable name for a crash: kind and innermost frame in hfst's own sources."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    m2 = re.search(r"(\S+?):(\d+):(\d+): runtime error: (.*)", err)
    if m2:
        kind = "UB " + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(4))[:90]
    if kind is None:
        m = re.search(r"Assertion .*failed", err)
        if m:
            kind = "assertion"
        elif "terminate called" in err:
            kind = "terminate " + (re.search(r"terminate called.*?'([^']*)'", err) or [0, "?"])[1]
        else:
            kind = "exit %s" % rc
    fr = None
    for m in FRAME.finditer(err):
        fn, path = m.group(1), m.group(2)
        if "/src/libhfst/" in path or "/src/tools/" in path or "/src/back-ends/" in path or "/src/python/" in path:
            if "sanitizer" in path:
                continue
            fn = re.sub(r"<.*", "", fn)
            fn = re.sub(r"\(.*", "", fn)
            fr = fn.split(" ")[-1]
            break
    return "%s in %s" % (kind, fr or "?")

def classify(rc, err):
    if rc == 0:
        return "ok"
    if rc in (-signal.SIGPROF, -signal.SIGKILL, -signal.SIGALRM, -signal.SIGXCPU):
        return "timeout"
    if "hard rss limit exhausted" in err or "exceeds maximum supported size" in err or "out-of-memory" in err or "allocation-size-too-big" in err or "AddressSanitizer: stack-overflow" in err:
        return "memory"
    return "crash"

def run_cases(cases, cpu=20, wall=None, drv=None):
    """{id: Out}. Restarts the driver after a crash."""
    drv = drv or DRV
    todo = list(cases)
    outs = {}
    d = tempfile.mkdtemp(prefix="hv-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        guard = 0
        while todo:
            guard += 1
            cf, lf, sd = os.path.join(d, "cases"), os.path.join(d, "log"), os.path.join(d, "s")
            os.makedirs(sd, exist_ok=True)
            with open(cf, "w", encoding="utf-8", errors="surrogateescape") as f:
                for c in todo:
                    f.write(c.text())
            open(lf, "w").close()
            ef = open(os.path.join(d, "err"), "w+b")
            try:
                p = subprocess.run([drv, cf, lf, sd], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                                   env=env(CASE_CPU=str(cpu)), timeout=wall or 3600, cwd=sd)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -signal.SIGALRM
            ef.seek(max(0, ef.seek(0, 2) - 60000))
            err = ef.read().decode("utf-8", "replace")
            ef.close()
            if rc == 77:
                raise RuntimeError("driver usage error: " + err[-500:])
            log = open(lf, encoding="utf-8", errors="surrogateescape", newline="\n").read()
            pl = parse_log(log)
            rest = []
            died = False
            for c in todo:
                r = pl.get(str(c.id))
                if r is None:
                    rest.append(c)
                elif r[1]:
                    outs[c.id] = Out("ok", r[0])
                else:
                    st = classify(rc, err)
                    died = True
                    outs[c.id] = Out("crash" if st == "ok" else st, r[0], err if st != "ok" else "exited early")
            if rest and not died:
                # died before logging anything of the next case
                c = rest.pop(0)
                outs[c.id] = Out(classify(rc, err) if rc else "missing", [], err)
            todo = rest
        return outs
    finally:
        shutil.rmtree(d, ignore_errors=True)
