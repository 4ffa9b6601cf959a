"""Check framework: seeded workload -> instrumented execution -> offline monitor -> verdict and evidence."""
import os, sys, json, time, random, hashlib, importlib, multiprocessing, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
VERIF = drv.VERIF
sys.path.insert(0, os.path.join(VERIF, "checks"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))

class Rep:
    """What one chunk of the workload observed."""
    def __init__(self):
        self.evals = 0            # oracle decisions
        self.execs = 0            # cases executed
        self.sigs = set()         # hashes of distinct nontrivial cases
        self.count = {}           # named event counters
        self.samples = []
        self.viol = {}            # key -> (message, replay text)
        self.nviol = 0
    def inc(self, name, k=1):
        self.count[name] = self.count.get(name, 0) + k
    def ok(self, sig=None):
        self.evals += 1
        if sig is not None:
            self.sigs.add(hashlib.blake2b(repr(sig).encode("utf-8", "replace"), digest_size=8).digest())
    def bad(self, key, msg, replay=""):
        self.nviol += 1
        # keep the smallest case for each key
        if key not in self.viol or len(replay) < len(self.viol[key][1]):
            self.viol[key] = (msg, replay)
    def merge(self, o):
        self.evals += o.evals
        self.execs += o.execs
        self.sigs |= o.sigs
        for k, v in o.count.items():
            self.inc(k, v)
        if len(self.samples) < 6:
            self.samples += o.samples[:2]
        self.nviol += o.nviol
        for k, v in o.viol.items():
            if k not in self.viol or (len(v[1]), v) < (len(self.viol[k][1]), self.viol[k]):
                self.viol[k] = v

class MonitorTimeout(Exception):
    pass

def _slow(*_):
    raise MonitorTimeout()

class Check:
    id = None
    level = "exploration"
    targets = ("hfstdrv",)
    flavour = "asan"
    quick = (16, 60)        # chunks, cases per chunk
    thorough = (64, 150)
    judge_limit = 40        # seconds the monitor may take for a case
    cpu = 20                # CPU seconds per case before it is inconclusive
    hang_is_violation = True
    crash_is_violation = True
    rule = ""
    assumptions = []
    def gen(self, rng, k, rep):
        """-> Case (or None)."""
        raise NotImplementedError
    def judge(self, case, out, rep):
        raise NotImplementedError
    def fixed(self):
        """Fixed cases run by chunk 0 of every run."""
        return []
    def chunk(self, seed, no, n, tier):
        rng = random.Random("%s/%s/%s" % (self.id, seed, no))
        rep = Rep()
        cases = []
        if no == 0:
            for c in self.fixed():
                c.id = "f%d" % len(cases)
                cases.append(c)
        for k in range(n):
            c = self.gen(rng, k, rep)
            if c is None:
                continue
            c.id = "%d.%d" % (no, k)
            cases.append(c)
        self.execute(cases, rep)
        return rep
    def execute(self, cases, rep):
        outs = drv.run_cases(cases, cpu=self.cpu)
        for c in cases:
            o = outs.get(c.id)
            rep.execs += 1
            if o is None:
                rep.inc("missing")
                continue
            if "probe_dies" in c.data:      # a known finding: this very call never returns or dies
                if o.status != "ok":
                    rep.bad(c.data["probe_dies"], o.status + " " + o.info[:600], c.text())
                continue
            if o.status in ("timeout", "memory"):
                last = o.res[-1].cmd if o.res else "?"
                if not (self.hang_is_violation and self.hang_counts(c, last)):
                    rep.inc("inconclusive_" + o.status)
                    continue
                # once more, alone, with three times the limit
                o2 = drv.run_cases([c], cpu=3 * self.cpu)[c.id]
                if o2.status in ("timeout", "memory"):
                    rep.inc("inconclusive_" + o2.status)
                    last = o2.res[-1].cmd if o2.res else "?"
                    rep.bad("%s in %s" % (o2.status, last), "%s twice (limit %ds CPU) in call %s" % (o2.status, 3 * self.cpu, last), c.text())
                    continue
                o = o2
            if o.status == "crash":
                last = o.res[-1].cmd if o.res else "?"
                key = drv.crash_key(o.info, "")
                rep.inc("crash")
                if self.crash_is_violation:
                    rep.bad("crash: %s [%s]" % (key, last), o.info[:1200] + " ... " + o.info[-400:], c.text())
                continue
            if o.status == "missing":
                rep.inc("missing")
                continue
            try:
                signal.alarm(self.judge_limit)
                try:
                    self.judge(c, o, rep)
                finally:
                    signal.alarm(0)
            except MonitorTimeout:
                rep.inc("inconclusive_monitor")
                if "MONITOR" in os.environ:
                    sys.stderr.write("SLOW\n" + c.text())
                continue
            except Exception as e:
                if "MONITOR" in os.environ:
                    sys.stderr.write(c.text())
                # what was logged cannot be what the calls promise: never happens on a tree where the property holds
                rep.bad("unexpected events [%s]" % type(e).__name__, traceback.format_exc()[-1500:], c.text())
                continue
            if len(rep.samples) < 2:
                rep.samples.append("\n".join(c.out)[:1500])
    def hang_counts(self, case, last):
        return True
    def finish(self, rep):
        """Last word on the merged report; may add coverage entries (dict)."""
        return {}

_CHK = None
def _work(a):
    signal.signal(signal.SIGALRM, _slow)
    try:
        return _CHK.chunk(*a)
    except Exception:
        return traceback.format_exc()

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out

def main(pid, tier, seed):
    global _CHK
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    chk = _CHK = mod.CHECK
    import build
    build.build(chk.flavour, chk.targets)
    tb = time.time()
    if hasattr(chk, "prepare"):
        chk.prepare(seed, tier)
    nch, n = chk.quick if tier == "quick" else chk.thorough
    sc = float(os.environ.get("VERIF_SCALE", "1"))
    nch = max(1, int(nch * sc))
    rep = Rep()
    jobs = [(seed, i, n, tier) for i in range(nch)]
    w = min(int(os.environ.get("VERIF_JOBS", "8")), nch)
    errs = []
    with multiprocessing.get_context("fork").Pool(w, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(_work, jobs, chunksize=1):
            if isinstance(r, str):
                errs.append(r)
            else:
                rep.merge(r)
    extra = chk.finish(rep) or {}
    known = load_known(pid)
    bad = 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    seenk = set()
    for key in sorted(rep.viol):
        msg, replay = rep.viol[key]
        k = [e for e in known if e["key"] == key]
        if k:
            if k[0]["key"] not in seenk:
                seenk.add(k[0]["key"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
            continue
        bad += 1
        h = hashlib.sha1((key + replay).encode("utf-8", "replace")).hexdigest()[:10]
        path = os.path.join(EVID, "replay", "%s-%s.txt" % (pid, h))
        with open(path, "w", errors="surrogateescape") as f:
            f.write("# property %s violated: %s\n" % (pid, key))
            for l in msg.split("\n"):
                f.write("# %s\n" % l)
            f.write("# replay a driver case: build/asan/bin/hfstdrv THISFILE LOG SCRATCHDIR; seed=%s tier=%s\n" % (seed, tier))
            f.write(replay)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s" % key)
        print("  " + msg[:1500].replace("\n", "\n  "))
        if bad >= 12:
            print("  (more violations not shown)")
            break
    cov = dict(evaluations=rep.evals, distinct_nontrivial=len(rep.sigs), rule=chk.rule, samples=rep.samples[:4],
               executions=rep.execs, events=dict(sorted(rep.count.items())))
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=int(seed), level=chk.level, coverage=cov, assumptions=list(chk.assumptions),
              wall_s=round(time.time() - t0, 1), violations=bad)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s %s seed=%s: %d executions, %d oracle decisions, %d distinct nontrivial, %d violation(s) %.1fs (build %.1fs) %s"
          % (pid, tier, seed, rep.execs, rep.evals, len(rep.sigs), bad, time.time() - t0, tb - t0,
             {k: v for k, v in rep.count.items()} if len(rep.count) < 40 else ""))
    if errs and not bad:
        sys.stderr.write(errs[0])
        sys.exit(3)
    if bad:
        sys.exit(1)
    if rep.evals == 0 or not rep.sigs:
        sys.stderr.write("nothing observed\n")
        sys.exit(3)
    sys.exit(0)

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    main(pid, tier, os.environ.get("VERIF_SEED", "1"))
