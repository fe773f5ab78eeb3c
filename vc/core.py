"""Path exploration, obligations and solver access.

A *unit* is a Python function  unit(cx)  that builds symbolic inputs (preconditions via cx.assume), calls the real code
(loaded by loader.py) and states postconditions (cx.prove).  explore() runs it once per feasible path: every branch on a
symbolic truth value asks cx.fork, and the whole unit is re-executed with a longer decision prefix for the other side.
Nothing is bounded: lengths, values, counts are free symbols; loops over symbolic sequences are cut by invariants."""
import time, subprocess, os, tempfile
import z3

z3.set_param("smt.random_seed", 7)


class PathEnd(BaseException):
    """the path is finished (loop iteration proved, infeasible assumption...)"""


class Unsupported(BaseException):
    """the code uses something the engine has no contract for: the obligation is undecided, never violated"""


class Restart(BaseException):
    """a loop invariant candidate was dropped / a modified object discovered: explore again"""


_chain = {}          # (state, ast id) -> state : hash-consed fact lists, so that a re-executed path finds its queries again
_keep = []           # keeps the ASTs alive (their ids are the cache keys)
_answers = {}


def clear_cache():
    _chain.clear()
    _keep.clear()
    _answers.clear()


class Facts(list):
    def __init__(self, cx):
        super().__init__()
        self.cx = cx

    def append(self, f):
        super().append(f)
        self.cx.push(f)


class Cx:
    cur = None

    def push(self, f):
        k = (self.state, f.get_id())
        v = _chain.get(k)
        if v is None:
            v = _chain[k] = len(_chain) + 1
            _keep.append(f)
        self.state = v

    def cached(self, kind, formulas, compute):
        k = (kind, self.state) + tuple(f.get_id() for f in formulas)
        if k in _answers:
            return _answers[k]
        r = compute()
        _answers[k] = r
        _keep.append(list(formulas))
        return r

    def __init__(self, prefix=(), persist=None, deadline=None, timeout_ms=20000, small=None, sizes=None):
        self.sizes = sizes or {}
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # (chosen, other_side_open)
        self.state = 0
        self.pc = Facts(self)    # path condition
        self.axioms = Facts(self)  # quantified or definitional facts
        self.nfresh = 0
        self.serial = 0
        self.results = []        # (name, status, by, t, detail)
        self.persist = persist if persist is not None else {}
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.enums = []
        self.sums = []
        self.memo = {}
        self.log = None          # write log (list) when inside a cut loop iteration / comprehension
        self.binders = 0
        self.notes = set()
        self.forks = 0
        self.prefix_name = ""
        self.abstract = False    # an invariant / havoc was used on this path: countermodels may be spurious
        self.reached = set()
        self.small = small       # None: unbounded; k: lengths at most k, loops unrolled (only to find countermodels)
        self.invariants = []
        self.subs = []           # stack of nested explorations (comprehension bodies)

    # ---------------------------------------------------------------- symbols
    def name(self, base):
        self.nfresh += 1
        return f"{base}!{self.nfresh}"

    def next_serial(self):
        self.serial += 1
        return self.serial

    def int(self, base="k"):
        if self.binders:
            raise Unsupported("fresh symbol under a binder")
        return z3.Int(self.name(base))

    def bool(self, base="b"):
        if self.binders:
            raise Unsupported("fresh symbol under a binder")
        return z3.Bool(self.name(base))

    def real(self, base="r"):
        if self.binders:
            raise Unsupported("fresh symbol under a binder")
        return z3.Real(self.name(base))

    def fun(self, base, *sorts):
        if self.binders:
            raise Unsupported("fresh symbol under a binder")
        return z3.Function(self.name(base), *sorts)

    # ---------------------------------------------------------------- facts
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        if not has_quant(c):
            self.solver.add(c)

    def axiom(self, c):
        """definitional fact about a fresh symbol (conservative)"""
        self.axioms.append(c)
        if not has_quant(c):
            self.solver.add(c)

    def feasible(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget")
        return self.cached("feasible", extra, lambda: self.solver.check(*extra) != z3.unsat)

    # ---------------------------------------------------------------- forks
    def fork(self, c):
        """truth value of the z3 Bool c on this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.subs:
            return self.subs[-1].fork(self, c)
        return self._decide(c)

    def _decide(self, c):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, False))
        else:
            # known already?
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd()
            v = bool(t)
            self.trace.append((v, t and f))
            self.pos += 1
            self.forks += 1
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n=2):
        """unconstrained choice among n alternatives, explored exhaustively"""
        for k in range(n - 1):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.trace.append((v, False))
            else:
                v = True
                self.trace.append((v, True))
            self.pos += 1
            if v:
                return k
        return n - 1

    # ---------------------------------------------------------------- proving
    def entails(self, goal, timeout=4000):
        """True if the facts entail goal (used for lemmas, congruence, simplification); never an obligation"""
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not self.pc:
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget")
        extra = [f for sub in self.subs for f in sub.facts()]

        def run():
            for seed in (0, 11):
                s = ematch(timeout, seed)
                s.add(*self.pc)
                s.add(*self.axioms)
                s.add(*extra)
                s.add(*negation(g))
                r = s.check()
                if r == z3.unsat:
                    return True
                if r == z3.sat or "timeout" not in s.reason_unknown() and "canceled" not in s.reason_unknown():
                    return False
            return False
        return self.cached("entails", extra + [g], run)

    def prove(self, name, goal, detail=""):
        """obligation: must hold on this path"""
        name = self.prefix_name + name
        if not isinstance(goal, (bool, z3.BoolRef)):
            raise Unsupported(f"goal of {name} is {type(goal)}")
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.results.append((name, "proved", "simplifier", 0.0, ""))
            return True

        def run():
            for seed in (0, 11, 23):
                s = ematch(self.timeout_ms // 4, seed)
                s.add(*self.pc)
                s.add(*self.axioms)
                s.add(*negation(g))
                r = s.check()
                if r == z3.unsat:
                    return "proved", "z3", ""
                if r == z3.sat:
                    break
            if r != z3.sat:
                s = z3.Solver()
                s.set("timeout", self.timeout_ms // 2)
                s.add(*self.pc)
                s.add(*self.axioms)
                s.add(*negation(g))
                r = s.check()
            by = "z3"
            det = ""
            if r == z3.unsat:
                st = "proved"
            elif r == z3.sat:
                st = "refuted"
                det = "countermodel: " + short_model(s.model())
            else:
                st = "undecided"
                det = "z3: " + s.reason_unknown()
                if self.small is None and cvc5_unsat(s, 15):
                    st, by, det = "proved", "cvc5", ""
                else:
                    det += "; cvc5: no proof"
            return st, by, det
        st, by, det = self.cached("prove", [g], run)
        if st == "refuted" and self.abstract:
            det = "(path uses an invariant) " + det
            st = "undecided"
        self.results.append((name, st, by, time.time() - t0, det + (" " + detail if detail else "")))
        if st == "proved":
            # usable as a fact later on this path
            self.axioms.append(g)
        return st == "proved"

    def consistent(self):
        s = ematch(1500)
        s.add(*self.pc)
        s.add(*self.axioms)
        s.add(touch(0))
        return s.check() != z3.unsat

    def reach(self, name):
        self.reached.add(self.prefix_name + name)

    def induct(self, name, q, lo, hi=None):
        """proves q(lo) and q(i) -> q(i+1) for lo <= i (< hi), then assumes forall i >= lo (< =hi)"""
        i = z3.Int(self.name("ind"))
        ok = self.prove(name + " [base]", q(lo))
        rng = i >= lo if hi is None else z3.And(i >= lo, i < hi)
        ok = self.prove(name + " [step]", z3.Implies(z3.And(rng, q(i)), q(i + 1))) and ok
        if ok:
            j = z3.Int(self.name("j"))
            rng = j >= lo if hi is None else z3.And(j >= lo, j <= hi)
            self.axioms.append(z3.ForAll([j], z3.Implies(rng, q(j))))
        return ok


touch = z3.Function("touch", z3.IntSort(), z3.BoolSort())
_sk = [0]


def negation(g):
    """facts equivalent to not g; universally quantified goals are instantiated at new constants, each marked with touch(.)
    (touch occurs only as a trigger, so assuming it of the constants is conservative)"""
    marks = []

    def sk(e):
        if z3.is_quantifier(e) and e.is_forall():
            cs = []
            for k in range(e.num_vars()):
                v = z3.Const(f"sk!{e.var_name(k)}!{len(marks) + len(cs)}", e.var_sort(k))
                cs.append(v)
            marks.extend(v for v in cs if v.sort() == z3.IntSort())
            return sk(z3.substitute_vars(e.body(), *reversed(cs)))
        if z3.is_and(e):
            return z3.And(*[sk(x) for x in e.children()])
        if z3.is_implies(e):
            return z3.Implies(e.arg(0), sk(e.arg(1)))
        if z3.is_or(e):
            return z3.Or(*[sk(x) for x in e.children()])
        return e
    b = sk(g)
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and x.decl().name().split("!")[0] in ("ge", "gs", "sh", "ind"):
            marks.append(x)
        st.extend(x.children())
    return [z3.Not(b)] + [touch(v) for v in marks]


def ematch(timeout, seed=0):
    """solver that instantiates quantifiers by their patterns only: fast, and gives up instead of searching for models"""
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout))
    s.set("smt.mbqi", False)
    s.set("smt.auto_config", False)
    s.set("smt.random_seed", seed)
    return s


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def short_model(m):
    out = []
    for d in list(m.decls())[:25]:
        try:
            out.append(f"{d.name()}={str(m[d])[:60]}")
        except Exception:
            pass
    return ", ".join(out)[:900]


def cvc5_unsat(s, secs):
    txt = s.to_smt2()
    try:
        import cvc5
    except ImportError:
        return False
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write("(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info")))
        f.close()
        p = subprocess.run(["cvc5", f"--tlimit={secs * 1000}", "--full-saturate-quant", f.name], capture_output=True, text=True,
                           timeout=secs + 5)
        return p.stdout.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        os.unlink(f.name)


class Sub:
    """nested exploration of a comprehension body at a generic index"""

    def __init__(self, cx, base):
        self.cx = cx
        self.base = list(base)
        self.prefix = []
        self.start()

    def start(self):
        self.pos = 0
        self.trace = []
        self.pcs = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.solver.add(*[c for c in self.cx.pc + self.cx.axioms + self.base if not has_quant(c)])

    def facts(self):
        return self.base + self.pcs

    def fork(self, cx, c):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.trace.append((v, False))
        else:
            t = self.solver.check(c) != z3.unsat
            f = self.solver.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            v = bool(t)
            self.trace.append((v, t and f))
        self.pos += 1
        d = c if v else z3.Not(c)
        self.pcs.append(d)
        if not has_quant(d):
            self.solver.add(d)
        return v

    def run(self, body):
        """list of (condition, kind, value): kind 'ok' or 'raise'"""
        out = []
        while True:
            self.start()
            self.cx.subs.append(self)
            self.cx.binders += 1
            try:
                try:
                    r = ("ok", body())
                except PathEnd:
                    r = None
                except (Unsupported, Restart):
                    raise
                except Exception as e:
                    r = ("raise", e)
            finally:
                self.cx.subs.pop()
                self.cx.binders -= 1
            if r is not None:
                out.append((z3.And(*self.pcs) if self.pcs else z3.BoolVal(True), r[0], r[1]))
            tr = self.trace
            while tr and not (tr[-1][1]):
                tr.pop()
            if not tr:
                return out
            self.prefix = [v for v, _ in tr[:-1]] + [False]


class UnitResult:
    def __init__(self):
        self.results = {}
        self.paths = 0
        self.ends = 0
        self.reached = set()
        self.unsupported = []
        self.notes = set()
        self.crash = None
        self.consistent = 0      # complete paths whose assumptions are not contradictory (as far as the solver sees)
        self.vacuous = 0

    def add(self, name, st, by, t, det):
        o = self.results.get(name)
        rank = {"proved": 0, "undecided": 1, "refuted": 2}
        if o is None:
            self.results[name] = {"name": name, "status": st, "by": by, "t": t, "detail": det, "n": 1}
        else:
            o["t"] += t
            o["n"] += 1
            if rank[st] > rank[o["status"]]:
                o["status"], o["by"], o["detail"] = st, by, det
            elif st == "proved" and o["status"] == "proved" and by != "simplifier":
                o["by"] = by if o["by"] in ("simplifier", by) else "z3"


def explore(unit, name, seconds=60, max_paths=5000, small=None, sizes=None):
    """runs the unit over all its paths"""
    persist = {}
    clear_cache()
    deadline = time.time() + seconds
    for attempt in range(400):
        res = UnitResult()
        work = [[]]
        restart = False
        while work:
            prefix = work.pop()
            if res.paths >= max_paths or time.time() > deadline:
                res.unsupported.append("budget of the unit used up after %d paths" % res.paths)
                break
            cx = Cx(prefix, persist, deadline, small=small, sizes=sizes)
            Cx.cur = cx
            cx.prefix_name = name + ": "
            try:
                unit(cx)
                res.ends += 1
            except PathEnd:
                pass
            except Unsupported as e:
                res.unsupported.append(str(e)[:300])
            except Restart:
                restart = True
                break
            except RecursionError as e:
                res.unsupported.append("recursion")
            except Exception as e:      # an exception of the engine or one the contract does not foresee
                import traceback
                tb = traceback.format_exc().strip().splitlines()
                res.unsupported.append(f"{type(e).__name__}: {e} | " + " / ".join(x.strip() for x in tb[-7:-1])[:500])
            finally:
                Cx.cur = None
            res.paths += 1
            if cx.reached and small is None and not res.consistent and res.vacuous < 12:
                # vacuity check: the facts of a path that reached its postconditions must not entail false
                Cx.cur = cx
                try:
                    if not cx.subs and not cx.consistent():
                        res.vacuous += 1
                    else:
                        res.consistent += 1
                except Unsupported:
                    res.consistent += 1
                finally:
                    Cx.cur = None
            for r in cx.results:
                res.add(*r)
            res.reached |= cx.reached
            res.notes |= cx.notes
            tr = list(cx.trace)
            for k in range(len(prefix), len(tr)):
                if tr[k][1]:
                    work.append([v for v, _ in tr[:k]] + [not tr[k][0]])
        if not restart:
            break
    return res
