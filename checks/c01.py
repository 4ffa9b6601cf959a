"""C01: algebraic operations against the reference constructions."""
import ref, gen
from ref import EPS, UNK, IDN
from drv import Case
from chk import Check

UNARY = ["invert", "reverse", "input_project", "output_project", "repeat_star", "repeat_plus", "optionalize",
         "repeat_n", "repeat_n_minus", "repeat_n_plus", "repeat_n_to_k", "negate"]
BINARY = ["disjunct", "concatenate", "intersect", "subtract", "compose", "cross_product", "priority_union",
          "lenient_composition", "shuffle"]
STRING_LEVEL = {"compose", "cross_product", "priority_union", "lenient_composition"}
NEEDS_AUTOMATA = {"negate", "cross_product", "shuffle"}
DETERMINIZES = {"cross_product", "priority_union", "lenient_composition", "shuffle", "negate"}
STARS = {"repeat_star", "repeat_plus", "repeat_n_plus"}
TYPES = ["tropical"] * 6 + ["sfst"] * 3 + ["foma"] * 3 + ["log"]
# the log back end implements no more than this soundly (see DESIGN.md)
LOG_OPS = ["compose", "concatenate", "disjunct", "intersect", "invert", "reverse", "input_project", "output_project", "repeat_star", "repeat_plus"]

def is_automaton(f):
    return all(i == o for a in f.arcs for i, o, w, t in a) and not any(i == UNK for a in f.arcs for i, o, w, t in a)

def model(op, args, a, b, U):
    """Reference result on wildcard-free operands."""
    if op == "invert": return ref.invert(a)
    if op == "reverse": return ref.reverse(a)
    if op == "input_project": return ref.project(a, 0)
    if op == "output_project": return ref.project(a, 1)
    if op == "repeat_star": return ref.star(a)
    if op == "repeat_plus": return ref.plus(a)
    if op == "optionalize": return ref.opt(a)
    if op == "repeat_n": return ref.power(a, args[0])
    if op == "repeat_n_minus": return ref.power_minus(a, args[0])
    if op == "repeat_n_plus": return ref.concat(ref.power(a, args[0]), ref.star(a))
    if op == "repeat_n_to_k": return ref.concat(ref.power(a, args[0]), ref.power_minus(a, args[1] - args[0]))
    if op == "negate": return ref.negate(a, U)
    if op == "disjunct": return ref.union(a, b)
    if op == "concatenate": return ref.concat(a, b)
    if op == "intersect": return ref.intersect(a, b)
    if op == "subtract": return ref.subtract(a, b)
    if op == "compose": return ref.compose(a, b)
    if op == "cross_product": return ref.cross(a, b)
    if op == "shuffle": return ref.shuffle(a, b)
    if op == "priority_union": return ref.priority_union(a, b, U)
    if op == "lenient_composition": return ref.lenient(a, b, U)
    raise KeyError(op)

class C(Check):
    id = "C01"
    quick = (320, 60)
    thorough = (3000, 80)
    wild = 0.12
    rule = ("Random pairs of small transducers (1-5 states, epsilons, cycles, dead states, weights, unknown/identity symbols), chains of 1-3 random operations in each back end; "
            "after every call the result is read back and compared with the reference construction on the operands as read back before the call. "
            "Non-trivial: the reference result accepts something; distinct by operation, type and operands.")
    assumptions = ["log back end: support only (weights not compared)", "string-level operations are compared on all string pairs up to the bound (3x3), path-level ones exactly"]

    def operand(self, rng, weighted, automaton, syms):
        wild = self.wild if rng.random() < (0.9 if self.wild > 0.2 else 0.35) else 0.0
        if rng.random() < 0.15:
            return gen.rand_lexicon(rng, syms, automaton=automaton, weighted=weighted)[0]
        return gen.rand_fst(rng, syms=syms, weighted=weighted, automaton=automaton, wild=wild, cyclic=False if self.acyclic else None, eps=rng.choice([0.0, 0.2, 0.4]))

    def gen(self, rng, k, rep):
        c = Case()
        ty = rng.choice(TYPES)
        weighted = ty in ("tropical", "log") and rng.random() < 0.75
        steps = rng.choice([1, 1, 2, 3])
        syms = rng.choice(gen.POOLS)
        ops = []
        for i in range(steps):
            o = rng.choice(UNARY) if rng.random() < 0.4 else rng.choice(BINARY)
            ops.append(o)
        if ty == "log":
            ops = [rng.choice(LOG_OPS) for o in ops]
        auto = any(o in NEEDS_AUTOMATA for o in ops) and rng.random() < 0.95
        # weighted determinization of cyclic machines need not terminate
        self.acyclic = ty == "log"
        if weighted and any(o in DETERMINIZES for o in ops):
            if any(o in STARS or o == "negate" for o in ops):
                weighted = False
            else:
                self.acyclic = True
        syms2 = syms if rng.random() < 0.6 else rng.choice(gen.POOLS)
        def operand(sy):
            if ty == "log":
                return gen.rand_fst(rng, syms=sy, weighted=weighted, automaton=auto, cyclic=False, eps=rng.choice([0.0, 0.2, 0.4]))
            f = self.operand(rng, weighted, auto, sy)
            # libfoma (not part of hfst) crashes on machines whose start state is dead while some state is final
            return ref.trim(f) if ty == "foma" else f
        c.fst("a", ty, operand(syms))
        if rng.random() < 0.15:
            c.cmd("minimize" if not weighted else "remove_epsilons", "a")
        d = c.data
        d["ty"], d["steps"], d["weighted"] = ty, [], weighted
        pre = c.cmd("dump", "a")
        for j, o in enumerate(ops):
            args = []
            preb = postb = None
            if o in BINARY:
                b = "b%d" % j
                if rng.random() < 0.06:
                    c.cmd("copy", b, "a")
                else:
                    c.fst(b, ty, operand(syms2))
                preb = c.cmd("dump", b)
                cal = c.cmd(o, "a", b)
                postb = c.cmd("dump", b)
            else:
                if o in ("repeat_n", "repeat_n_minus", "repeat_n_plus"):
                    args = [rng.choice([0, 1, 2, 3])]
                elif o == "repeat_n_to_k":
                    x = rng.choice([0, 1, 2])
                    args = [x, x + rng.choice([0, 1, 2])]
                cal = c.cmd(o, "a", *args)
            post = c.cmd("dump", "a")
            d["steps"].append((o, args, pre, preb, cal, post, postb))
            pre = post
        return c

    def judge(self, c, out, rep):
        ty = c.data["ty"]
        for o, args, pre, preb, cal, post, postb in c.data["steps"]:
            A = out[pre].fst()
            B = out[preb].fst() if preb is not None else None
            rep.inc("calls_" + ty)
            e = out[cal].exc
            if e:
                legal = o in NEEDS_AUTOMATA and (not is_automaton(A) or (B is not None and not is_automaton(B)))
                # a transducer whose projection has the same paths counts as automaton; only a refusal of a real automaton is wrong
                if legal and "Automat" in e:
                    rep.inc("refused_non_automaton")
                    rep.ok()
                    return
                rep.bad("%s: exception %s [%s]" % (o, e.split("\t")[0], ty), "%s %s threw %s\nA=%r\nB=%r" % (o, args, e, A, B), c.text())
                return
            t2, _, P = out[post].dump()
            if t2 != ty:
                rep.bad("%s: type changed [%s]" % (o, ty), "%s became %s after %s" % (ty, t2, o), c.text())
                return
            if B is not None:
                B2 = out[postb].fst()
                if B2.alpha != B.alpha or sorted(map(sorted, B2.arcs)) != sorted(map(sorted, B.arcs)) or B2.fin != B.fin:
                    U = ref.universe(B, B2)
                    x = ref.diff_pairs(ref.expand(B, U), ref.expand(B2, U), weights=ty == "tropical")
                    if x or B2.alpha - ref.SPECIAL != B.alpha - ref.SPECIAL:
                        rep.bad("%s: second operand changed [%s]" % (o, ty), "%r\nbefore %r\nafter %r" % (x, B, B2), c.text())
                        return
            if o in NEEDS_AUTOMATA and (not is_automaton(A) or (B is not None and not is_automaton(B))):
                rep.inc("skipped_non_automaton")
                return
            fs = [A, P] + ([B] if B is not None else [])
            if sum(f.narcs() for f in fs) > 1500:
                rep.inc("skipped_big")
                return
            unk = any(UNK in f.symbols() for f in fs)
            U = ref.universe(*fs, fresh=3 if unk and o in STRING_LEVEL else 2)
            a = ref.trim(ref.expand(A, U))
            b = ref.trim(ref.expand(B, U)) if B is not None else None
            p = ref.trim(ref.expand(P, U))
            w = ty == "tropical"
            if max(f.narcs() for f in (a, p) + ((b,) if b is not None else ())) > 4000:
                rep.inc("skipped_big")
                return
            m = model(o, args, a, b, U)
            if m.narcs() > 60000:
                rep.inc("skipped_big")
                return
            if o in STRING_LEVEL:
                # x:y o y:x through unknown symbols: see the known finding of C04
                x = ref.diff_strs(m, p, 3, 3, weights=w, cap=20000, skip=ref.fresh_on_both_sides if unk else None)
            else:
                x = ref.diff_pairs(m, p, weights=w, cap=1500)
            rep.inc("op_" + o)
            rep.ok((o, tuple(args), ty, repr(A), repr(B)) if ref.has_pos_path(m) else None)
            if x:
                rep.bad("%s: wrong result [%s]" % (o, ty), "%s %s: witness %r: model %r, hfst %r\nA=%r\nB=%r\nresult=%r" % (o, args, x[0], x[1], x[2], A, B, P), c.text())
                return

    def hang_counts(self, c, last):
        # later steps of a chain may meet operands that blow up legitimately
        return len(c.data["steps"]) == 1

CHECK = C()
