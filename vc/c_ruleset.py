"""Contracts of ruleskit/ruleset.py (and the functions of utils/rfunctions.py it calls).

Ghost state of a ruleset: its list of rules r_0..r_{k-1}, each with a condition (region E, label = its text) and an activation
vector V_u.  Invariant (default construction): the ruleset's activation is OR_u V_u; when activations are stacked, the table has
one column per rule, in their order, holding V_u.  Every operation is verified to preserve it from an arbitrary state that
satisfies it, so that it holds after any sequence of them.  Rows are unbounded; units marked bounded fix the number of rules."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import nparr as NA
from nparr import FA, Mat
import fakes
import frames
from frames import VFrame, LSeries
import c_activation as CA
import c_rule as CR
from c_rule import RW, put, snap, unchanged, num, USES, check_stats, criterion_formula, class_value, cnt
from c_activation import Ghost, guarded, must_raise, length, ghost_of, frozen, vec_is, EX
from pdfake import VIndex

RS_USES = USES + ("Rule.fit, Rule.eval and Rule.evaluate_activation are used through their contracts (discharged under C08, C09, C14, C20)",)
FIELDS = {"_rules", "features_names", "features_indexes", "_activation", "_coverage", "criterion", "train_set_size", "test_set_size",
          "stacked_activations", "stack_activation", "_rule_type", "_compute_activation"}
LABELS = ("If F3 in [a]", "If F1 in [b]", "If F2 in [c]", "If F0 in [d]", "If F4 in [e]")


class RSW(RW):
    def __init__(self, c, avail=True, fit="contract"):
        super().__init__(c, mods=("ruleskit.ruleset",))
        self.rm = c.world.get("ruleskit.ruleset")
        self.RS = self.rm.RuleSet
        self.nrule = 0
        self.made = {}
        c.memo["allow_empty"] = True
        self.contract_many()
        self.contract_label()
        self.empty_vector()
        if avail:
            self.contract_available()
        if fit == "contract":
            self.contract_fit()

    # ---------------------------------------------------------------- contracts
    def contract_many(self):
        c, A = self.c, self.A

        def many(op):
            def multi(acs, asarray=False):
                s = to_seq(acs)
                n = z3.simplify(s.n)
                if asarray is not False:
                    raise Unsupported("result of many vectors as an array")
                if z3.is_int_value(n):
                    k = n.as_long()
                    if k == 0:
                        raise fakes.deliberate(IndexError("list index out of range"))
                    if c.choose(2) == 1:
                        raise fakes.deliberate(MemoryError("Not enough memory left"))
                    gs = [self.vec(s.f(z3.IntVal(u))) for u in range(k)]
                    for g in gs[1:]:
                        if not g.n.eq(gs[0].n) and not c.fork(g.n == gs[0].n):
                            raise fakes.deliberate(ValueError("all the input array dimensions must match exactly"))
                    J = z3.Or if op == "or" else z3.And
                    return CA.mk(c, A, Ghost(c, gs[0].n, lambda i: s_(J(*[g.V(i) for g in gs]))), "any", fresh=True)
                u = z3.Int(c.name("each"))
                g = self.vec(s.f(u))
                if not c.entails(s.n >= 1):
                    raise Unsupported("possibly no vector")
                if z3.simplify(z3.substitute(g.n, (u, u + 1))).eq(g.n) is False:
                    raise Unsupported("vectors of various lengths")
                V = lambda w, i: self.vec(s.f(w)).V(i)
                J = (lambda i: EX(z3.IntVal(0), s.n, lambda w: V(w, i))) if op == "or" else \
                    (lambda i: FA(z3.IntVal(0), s.n, lambda w: V(w, i)))
                return CA.mk(c, A, Ghost(c, g.n, J, lemmas=False), "any", fresh=True)
            return staticmethod(multi)
        for op in ("or", "and"):
            if not isinstance(A.__dict__.get("multi_logical_" + op), staticmethod):
                raise Unsupported("multi_logical_" + op)
            setattr(A, "multi_logical_" + op, many(op))

        def clear(self):
            g = ghost_of(self)
            z = Ghost(c, g.n, lambda i: z3.BoolVal(False))
            put(self, "_vc_ghost", z)
            CA.relazy(c, A, self, z)
        A.clear = clear
        A.__len__ = lambda self: mkint(ghost_of(self).n)

    def vec(self, a):
        if not isinstance(a, self.A):
            raise Unsupported("activation expected")
        return ghost_of(a)

    def contract_label(self):
        c, H = self.c, self.H

        def label(o):
            return object.__getattribute__(o, "__dict__").get("_vc_label") or _u("text of a condition")
        H.__str__ = lambda self: label(self)
        H.__eq__ = lambda self, o: isinstance(o, H) and label(self) == label(o)
        H.__ne__ = lambda self, o: not (isinstance(o, H) and label(self) == label(o))
        H.__hash__ = lambda self: hash(label(self))

    def empty_vector(self):
        """Activation(np.array([])): the empty vector"""
        c, A = self.c, self.A
        init = A.__init__

        def __init__(self, activation, optimize=True, length=None, to_file=True, lasy=False):
            if isinstance(activation, Arr) and z3.is_int_value(z3.simplify(activation.n)) and z3.simplify(activation.n).as_long() == 0:
                g = Ghost(c, z3.IntVal(0), lambda i: z3.BoolVal(False))
                tmp = CA.mk(c, A, g, "any")
                for k, v in object.__getattribute__(tmp, "__dict__").items():
                    object.__setattr__(self, k, v)
                CA.relazy(c, A, self, g)
                return
            init(self, activation, optimize=optimize, length=length, to_file=to_file, lasy=lasy)
        A.__init__ = __init__

    def contract_available(self):
        c = self.c
        for K in (self.Rule, self.RS):
            if not isinstance(K.__dict__.get("activation_available"), property):
                raise Unsupported("activation_available")
        self.Rule.activation_available = property(lambda r: r._activation is not None)
        self.RS.activation_available = property(lambda r: r._activation is not None and c.fork(ghost_of(r._activation).n != 0))

    def contract_fit(self):
        c, me = self.c, self

        def stats(r, test=False):
            names = ("_criterion", "_test_set_size") if test else ("_prediction", "_std", "_zscore", "_train_set_size")
            for k in names:
                if k in object.__getattribute__(r, "__dict__"):
                    put(r, k, me.some(k))
            if not test and "_sign" in object.__getattribute__(r, "__dict__"):
                put(r, "_sign", Str(z3.Const(c.name("sign"), StrSort)))

        def flag(r):
            g = c.bool("good")
            put(r, "_good", SymBool(g))

        def fit(self, y=None, xs=None, force_if_not_good=False, **kw):
            me.calls.append(("fit", self, y, xs, kw))
            if self._fitted and xs is None:
                return
            if xs is not None:
                put(self, "_activation", CA.mk(c, me.A, me.E(self._condition, xs), "any", fresh=True))
            elif self._activation is None:
                raise fakes.deliberate(ValueError("activation must have been computed already"))
            stats(self)
            flag(self)
            put(self, "_fitted", True)

        def ev(self, y=None, xs=None, recompute_activation=False, force_if_not_good=False, **kw):
            me.calls.append(("eval", self, y, xs, kw))
            if recompute_activation and xs is not None:
                put(self, "_activation", CA.mk(c, me.A, me.E(self._condition, xs), "any", fresh=True))
            if self._activation is None:
                raise fakes.deliberate(ValueError("Must have fitted the rule before calling 'eval'"))
            stats(self, True)
            flag(self)
            put(self, "_evaluated", True)
        self.calls = []
        self.Rule.fit, self.Rule.eval = fit, ev

    def some(self, k):
        c = self.c
        if k.endswith("_size"):
            return SInt(c.int(k))
        return CR.fresh_float(c, k, inf=False)

    # ---------------------------------------------------------------- objects
    def ccond(self, u, names=None, label=None):
        """a condition about concrete features, with arbitrary bounds"""
        c = self.c
        names = names or [f"F{u}"]
        o = object.__new__(self.H)
        put(o, "_features_names", VList(list(names)))
        put(o, "_features_indexes", VList([int(x[1:]) for x in names]))
        put(o, "_bmins", VList([CR.fresh_float(c, f"lo{u}", nan=False) for _ in names]))
        put(o, "_bmaxs", VList([CR.fresh_float(c, f"hi{u}", nan=False) for _ in names]))
        put(o, "impossible", SymBool(c.bool("impossible")))
        put(o, "_vc_serial", 0)
        put(o, "_vc_label", label or LABELS[u])
        return o

    def twin(self, cond):
        """another condition, equal to this one"""
        o = object.__new__(self.H)
        for k in ("_features_names", "_features_indexes", "_bmins", "_bmaxs"):
            put(o, k, VList(list(getattr(cond, k).items)))
        put(o, "impossible", cond.impossible)
        put(o, "_vc_serial", 0)
        put(o, "_vc_label", cond._vc_label)
        put(o, "_vc_twin", cond)
        return o

    def rule(self, u, n=None, kind="reg", act=True, fitted=True, names=None, label=None, cond=None):
        """an arbitrary rule: with an activation of length n, fitted or not"""
        c = self.c
        cls = self.Reg if kind == "reg" else self.Cla
        r = cls(cond or self.ccond(u, names, label))
        d = object.__getattribute__(r, "__dict__")
        if act:
            g = Ghost(c, n, label=f"V{u}_")
            put(r, "_activation", CA.mk(c, self.A, g, "any"))
        if fitted:
            if kind == "reg":
                put(r, "_prediction", CR.fresh_float(c, f"pred{u}", inf=False))
                put(r, "_std", CR.fresh_float(c, f"std{u}", inf=False))
                put(r, "_zscore", CR.fresh_float(c, f"z{u}"))
                put(r, "_sign", Str(z3.Const(c.name("sign"), StrSort)))
            else:
                put(r, "_prediction", CR.some_prediction(c, "integer"))
            put(r, "_criterion", CR.fresh_float(c, f"crit{u}"))
            put(r, "_train_set_size", SInt(c.int("train")))
            put(r, "_fitted", True)
        return r

    def ruleset(self, rules, stack=False, kind="reg", activation=True):
        """an arbitrary ruleset holding these rules, in a state that satisfies the invariant"""
        c = self.c
        rs = self.RS()
        d = object.__getattribute__(rs, "__dict__")
        if set(d) - {"_vc_serial"} != FIELDS:
            raise Unsupported("fields of RuleSet: " + str(sorted(d)))
        if not rules:
            if stack:
                put(rs, "stack_activation", True)
            return rs
        put(rs, "_rules", VList(list(rules)))
        put(rs, "stack_activation", bool(stack))
        put(rs, "_rule_type", self.Reg if kind == "reg" else self.Cla)
        names, idx = [], []
        for r in rules:
            for x, j in zip(r._condition._features_names, r._condition._features_indexes):
                if x not in names:
                    names.append(x)
                if j not in idx:
                    idx.append(j)
        put(rs, "features_names", VList(names))
        put(rs, "features_indexes", VList(idx))
        put(rs, "_coverage", Lz(lambda: CR.fresh_float(c, "oldcov")))
        put(rs, "criterion", CR.fresh_float(c, "oldcrit"))
        put(rs, "train_set_size", SInt(c.int("oldtrain")))
        gs = [ghost_of(r._activation) for r in rules if r._activation is not None]
        if activation and gs:
            put(rs, "_activation", CA.mk(c, self.A, Ghost(c, gs[0].n, lambda i: s_(z3.Or(*[g.V(i) for g in gs]))), "any"))
            if stack:
                put(rs, "stacked_activations", VFrame([str(r._condition) for r in rules], [g.raw() for g in gs]))
        return rs


def Lz(fn):
    return fakes.Lazy(fn)


def _u(m):
    raise Unsupported(m)


# ------------------------------------------------------------------------------------------------ the invariant
def rules_of(c, rs, what):
    l = rs._rules
    if not isinstance(l, VList) or not l.conc:
        raise Unsupported("list of rules")
    return list(l.items)


def same_rules(c, rs, rules, what):
    l = rules_of(c, rs, what)
    c.prove(what + ": the rules are the right ones, in order", len(l) == len(rules) and all(a is b for a, b in zip(l, rules)))
    c.prove(what + ": the number of rules", fakes.v_len(rs) == len(rules))


def OR(c, rules):
    gs = [ghost_of(r._activation) for r in rules]
    return gs[0].n, lambda i: s_(z3.Or(*[g.V(i) for g in gs]))


def invariant(c, W, rs, what, stack=None):
    """C11 on the present rules of rs"""
    rules = rules_of(c, rs, what)
    if not rules:
        return
    if any(r._activation is None for r in rules):
        raise Unsupported("a rule without activation")
    gs = [ghost_of(r._activation) for r in rules]
    n = gs[0].n
    if any(not c.entails(g.n == n) for g in gs[1:]):
        raise PathEnd()
    a = rs._activation
    if a is None:
        c.prove(what + ": the ruleset has an activation", False)
        raise PathEnd()
    c.prove(what + ": the activation is the union of the rules' activations", vec_is(a, n, OR(c, rules)[1]))
    if any(a is r._activation for r in rules) or any(x is a for x in c.memo.get("deleted", ())):
        raise Unsupported("the ruleset shares the activation of a rule")
    e = get_enum(n, OR(c, rules)[1]).m
    c.prove(what + ": the coverage is the fraction of points some rule activates", CR.same_value(rs.ruleset_coverage, f_div(fv(SInt(e)), fv(SInt(n)))))
    raw = rs.activation
    if not isinstance(raw, Arr):
        c.prove(what + ": the activation can be read", False)
    else:
        c.prove(what + ": the activation that is read is the union", CA.same_arr(raw, ghost_of(a)))
    stack = rs.stack_activation if stack is None else stack
    if not isinstance(stack, bool):
        raise Unsupported("stack_activation")
    if stack:
        t = rs.stacked_activations
        if not isinstance(t, VFrame):
            if t is None:
                c.prove(what + ": there are stacked activations", False)
                return
            raise Unsupported("stacked activations")
        want = [r._condition._vc_label for r in rules]
        if len(set(want)) != len(want):
            return
        ok = sorted(t.labels) == sorted(want)
        c.prove(what + ": one stacked column per rule", ok)
        if ok:
            for l, g in zip(want, gs):
                x = t.col(l)
                f = frames.fcell(x)
                c.prove(what + ": each stacked column is the activation of its rule",
                        z3.And(x.n == n, FA(z3.IntVal(0), n, lambda i: z3.And(f(i).fin, f(i).val == z3.If(g.V(i), z3.RealVal(1), z3.RealVal(0))))))
            if t.labels != want:
                raise Unsupported("order of the stacked columns")


def check(c, W, rs, what, prop, rules=None):
    if prop == "C19" and rules is not None:
        same_rules(c, rs, rules, what)
    if prop == "C11":
        invariant(c, W, rs, what)


def rules_unchanged(c, rules, before, what, but=()):
    for r, b in zip(rules, before):
        unchanged(c, r, b, what, but)


# ------------------------------------------------------------------------------------------------ building and composing
def some_rules(c, W, k, n=None, first=0, **kw):
    out = []
    n = n if n is not None else length(c)
    for u in range(first, first + k):
        d = c.memo.get("dup")
        r = W.rule(u, n, cond=W.twin(W.made[d[1]]._condition) if d is not None and d[0] == u else None, **kw)
        W.made[u] = r
        out.append(r)
    return out, n


def dup(make, u, v):
    """the same unit, rule u having the same condition as rule v (and an activation of its own)"""
    def made():
        unit = make()

        def run(c):
            c.memo["dup"] = (u, v)
            unit(c)
        return run
    return made


def ctor_unit(k, stack, prop, kind="reg"):
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, k, kind=kind)
        before = [snap(r) for r in rules]
        src = VList(list(rules))
        ok, rs = guarded(c, "building a ruleset", lambda: W.RS(src, stack_activation=stack) if stack else W.RS(src))
        c.reach("returned")
        check(c, W, rs, "building", prop, rules)
        if prop == "C19":
            c.prove("building does not keep the given list", rs._rules is not src)
            c.prove("building keeps the given list as it is", len(src.items) == k and all(a is b for a, b in zip(src.items, rules)))
            c.prove("building sets the type of rules", rs.rule_type is (W.Reg if kind == "reg" else W.Cla))
            rules_unchanged(c, rules, before, "building")
        frozen(c, "building")
    return unit


def add_unit(op, k, stack, prop, m=1, ostack=False):
    """op in append, iadd rule, add rule, iadd ruleset, add ruleset"""
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, k)
        rs = W.ruleset(rules, stack)
        before = [snap(r) for r in rules]
        if op.endswith("ruleset"):
            others, _ = some_rules(c, W, m, n, k)
            other = W.ruleset(others, ostack)
        else:
            others, _ = some_rules(c, W, 1, n, k)
            other = others[0]
        b2 = [snap(r) for r in others]
        def run():
            if op == "append":
                rs.append(other)
                return rs
            if op.startswith("iadd"):
                x = rs
                x += other
                return x
            return rs + other
        ok, r = guarded(c, op, run)
        c.reach("returned")
        what = {"append": "appending", "iadd rule": "adding a rule in place", "add rule": "adding a rule", "iadd ruleset": "adding a ruleset in place",
                "add ruleset": "adding rulesets"}[op]
        if not isinstance(r, W.RS):
            c.prove(what + " gives a ruleset", False)
            raise PathEnd()
        if op == "add ruleset":
            l = rules_of(c, r, what)
            if prop == "C19":
                c.prove(what + ": every rule of either, once", len(l) == k + len(others) and all(any(x is y for y in l) for x in rules + others))
        else:
            check(c, W, r, what, "C19" if prop == "C19" else None, rules + others)
        if prop == "C11":
            if op == "add ruleset" or op == "add rule":
                invariant(c, W, rs, what + " (left operand)")
            invariant(c, W, r, what)
            if op.endswith("ruleset") and m:
                invariant(c, W, other, what + " (right operand)")
        if prop == "C19":
            if op.startswith("add"):
                c.prove(what + " gives a new ruleset", r is not rs and r is not other)
                same_rules(c, rs, rules, what + " (left operand)")
            if op.endswith("ruleset"):
                same_rules(c, other, others, what + " (right operand)")
                c.prove(what + ": the lists of rules are separate", r._rules is not other._rules)
            rules_unchanged(c, rules + others, before + b2, what)
        frozen(c, what)
    return unit


def dup_add_unit(prop="C19"):
    """adding rulesets that share rules: every distinct rule once"""
    def unit(c):
        W = RSW(c)
        n = length(c)
        a, b = W.rule(0, n), W.rule(1, n)
        twin = W.rule(2, n, names=["F1"], label=LABELS[1])
        case = c.choose(3)
        left = [a, b]
        right = [[b], [twin], [twin, a]][case]
        x, y = W.ruleset(left), W.ruleset(right)
        ok, r = guarded(c, "adding rulesets", lambda: x + y)
        c.reach("returned")
        l = rules_of(c, r, "adding")
        labs = sorted(str(q._condition._vc_label) for q in l)
        c.prove("adding rulesets gives every distinct rule once", labs == sorted(LABELS[:2]) and all(any(q is z for z in left + right) for q in l))
    return unit


def type_unit(op):
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, 1)
        rs = W.ruleset(rules)
        bad = W.rule(1, n, kind="cla")
        if op == "append":
            must_raise(c, "appending a rule of another type", lambda: rs.append(bad))
        elif op == "iadd":
            def f():
                x = rs
                x += bad
            must_raise(c, "adding a rule of another type in place", f)
        elif op == "add":
            must_raise(c, "adding a rule of another type", lambda: rs + bad)
        elif op == "iadd ruleset":
            o = W.ruleset([bad], kind="cla")

            def f():
                x = rs
                x += o
            must_raise(c, "adding a ruleset of another type in place", f)
        elif op == "build":
            must_raise(c, "building with rules of different types", lambda: W.RS(VList([rules[0], bad])))
        if op != "build":
            same_rules(c, rs, rules, "a refused addition")
    return unit


SLICES = (slice(None), slice(1, None), slice(None, 2), slice(-1, None), slice(None, None, -1), slice(0, 3, 2), slice(5, None), slice(1, 2))


def slice_unit(k, stack=False):
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, k)
        rs = W.ruleset(rules, stack)
        s = SLICES[c.choose(len(SLICES))]
        ok, r = guarded(c, "slicing", lambda: rs[s])
        c.reach("returned")
        if not isinstance(r, W.RS):
            c.prove("slicing gives a ruleset", False)
            raise PathEnd()
        same_rules(c, r, rules[s], "slicing")
        same_rules(c, rs, rules, "slicing (the sliced one)")
        for j in range(k):
            ok, x = guarded(c, "reading a rule", lambda: rs[j])
            c.prove("indexing gives the rule at that position", x is rules[j])
        ok, x = guarded(c, "reading a rule", lambda: rs[-1])
        c.prove("indexing gives the rule at that position", x is rules[-1])
    return unit


def recompute_unit(k, stack, how, prop):
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, k)
        rs = W.ruleset(rules, stack)
        before = [snap(r) for r in rules]
        xs = W.features("array")
        if how == "compute_self_activation":
            put(rs, "_activation", None if c.choose(2) else CA.mk(c, W.A, Ghost(c, label="stale"), "any"))
            ok, _ = guarded(c, how, lambda: rs.compute_self_activation())
            if stack:
                ok, _ = guarded(c, how, lambda: rs.compute_stacked_activation())
        elif how == "calc_activation":
            ok, _ = guarded(c, how, lambda: rs.calc_activation(xs))
            for r in rules:
                g = W.E(r._condition, xs)
                c.prove("recomputing gives each rule its activation on the features", vec_is(r._activation, g.n, g.V) if r._activation is not None else False)
        elif how == "evaluate":
            ok, a = guarded(c, how, lambda: rs.evaluate(xs), allow=(MemoryError,))
            c.reach("returned")
            gs = [W.E(r._condition, xs) for r in rules]
            c.prove("evaluating on features gives the union of the rules' activations there",
                    vec_is(a, xs.n, lambda i: z3.Or(*[g.V(i) for g in gs])) if isinstance(a, W.A) else False)
            rules_unchanged(c, rules, before, "evaluating on features")
        elif how == "evaluate_self_activation":
            ok, a = guarded(c, how, lambda: rs.evaluate_self_activation(xs))
            gs = [W.E(r._condition, xs) for r in rules]
            c.prove("evaluating on features gives the union of the rules' activations there",
                    vec_is(a, xs.n, lambda i: z3.Or(*[g.V(i) for g in gs])) if isinstance(a, W.A) else False)
            rules_unchanged(c, rules, before, "evaluating on features")
        c.reach("returned")
        invariant(c, W, rs, "recomputing" if not how.startswith("eval") else "evaluating on features")
        W.unmodified("recomputing")
        frozen(c, "recomputing")
    return unit


# ------------------------------------------------------------------------------------------------ sorting
def sort_unit(k, stack, reverse, prop, attr="coverage"):
    def unit(c):
        W = RSW(c)
        rules, n = some_rules(c, W, k)
        rs = W.ruleset(rules, stack)
        before = [snap(r) for r in rules]
        if attr == "criterion":
            for r in rules:
                put(r, "_criterion", CR.fresh_float(c, "crit", nan=False))
        val = [fv(getattr(r, attr)) for r in rules]
        key = {id(r): v for r, v in zip(rules, val)}
        ok, _ = guarded(c, "sorting", lambda: rs.sort(attr, reverse) if reverse else rs.sort(attr))
        c.reach("returned")
        if prop == "C11":
            invariant(c, W, rs, "sorting")
            return
        l = rules_of(c, rs, "sorting")
        c.prove("sorting keeps exactly the same rules", len(l) == k and all(any(x is y for y in l) for x in rules))
        if len(l) == k and all(id(x) in key for x in l):
            for a, b in zip(l, l[1:]):
                va, vb = key[id(a)], key[id(b)]
                if reverse:
                    va, vb = vb, va
                c.prove("sorting by an attribute orders the rules by it", f_le(va, vb))
                if [x is a for x in rules].index(True) > [x is b for x in rules].index(True):
                    c.prove("sorting keeps the order of ties", z3.Not(f_eq(va, vb)))
    return unit


NAMESETS = ((["F1"], ["F0"], ["F1"]), (["F0", "F1"], ["F2"], ["F0", "F1"]), (["F2"], ["F10"], ["F1", "F2"]), (["F1"], ["F1"]), (["F0"], ["F1", "F2"]))


def lex_lt(a, b):
    """lexicographic < of two lists of numbers"""
    if not a:
        return z3.BoolVal(False)
    return z3.Or(f_lt(a[0], b[0]), z3.And(f_eq(a[0], b[0]), lex_lt(a[1:], b[1:])))


def default_sort_unit(names, reverse, prop, stack=False):
    def unit(c):
        W = RSW(c)
        n = length(c)
        rules = [W.rule(u, n, names=nm) for u, nm in enumerate(names)]
        rs = W.ruleset(rules, stack)
        ok, _ = guarded(c, "sorting", lambda: rs.sort(reverse=reverse) if reverse else rs.sort())
        c.reach("returned")
        if prop == "C11":
            invariant(c, W, rs, "sorting")
            return
        l = rules_of(c, rs, "sorting")
        c.prove("sorting keeps exactly the same rules", len(l) == len(rules) and all(any(x is y for y in l) for x in rules))
        nm = {id(r): x for r, x in zip(rules, names)}
        if len(l) == len(rules) and all(id(x) in nm for x in l):
            for a, b in zip(l, l[1:]):
                x, y = nm[id(a)], nm[id(b)]
                c.prove("sorting puts rules about fewer features first", len(x) <= len(y))
                if len(x) == len(y):
                    c.prove("sorting orders rules about as many features by their features", str(x) <= str(y) if not reverse else str(x) >= str(y))
                    if x == y:
                        bd = lambda r: [fv(v) for v in r._condition._bmins.items + r._condition._bmaxs.items]
                        c.prove("sorting orders rules about the same features by their bounds", z3.Not(lex_lt(bd(b), bd(a))))
    return unit


# ------------------------------------------------------------------------------------------------ membership
def contains_unit(named=True):
    def unit(c):
        W = RSW(c)
        n = length(c)
        names = [["F0"], ["F1", "F0"]][c.choose(2)]
        rules = [W.rule(0, n, names=["F0"]), W.rule(1, n, names=["F1", "F0"])]
        rs = W.ruleset(rules)
        if not named:
            put(rs, "features_names", VList([]))
        other = W.rule(2, n, names=names)
        ok, r = guarded(c, "membership", lambda: W.RS.__contains__(rs, other))
        c.reach("returned")
        t = tbool(r)
        if t is None:
            raise Unsupported("result of membership")
        out = []
        for x in rules:
            if list(x._condition._features_names) != list(names):
                continue
            bd = lambda q: [fv(v) for v in q._condition._bmins.items + q._condition._bmaxs.items + [q._prediction]]
            out.append(z3.And(*[f_same(a, b) for a, b in zip(bd(x), bd(other))]))
        c.prove("a ruleset contains a rule exactly when one of its rules has the same features, bounds and prediction",
                t == (z3.Or(*out) if out else z3.BoolVal(False)))
    return unit


# ------------------------------------------------------------------------------------------------ fitting and evaluating
def run_unit(what, k, stack, prop, xkind="array", keep=False, fresh=False):
    """RuleSet.fit / eval, rule by rule (Rule.fit and Rule.eval by contract, each rule good or bad)"""
    def unit(c):
        W = RSW(c)
        W.RS.calc_criterion = abstract_criterion(c, W)
        xs = W.features(xkind) if xkind != "none" else None
        n = length(c, "n0") if xs is not None else None
        rules, n = some_rules(c, W, k, n)
        if fresh:
            for r in rules:
                put(r, "_activation", None)
                put(r, "_fitted", False)
        elif xs is None and what == "fit":
            for r in rules:
                put(r, "_fitted", False)
        rs = W.ruleset(rules, stack)
        before = [snap(r) for r in rules]
        y, Y = W.targets(xs.n if xs is not None else n, "array", missing=what == "fit")
        if what == "fit":
            ok, out = guarded(c, "fitting a ruleset", lambda: rs.fit(y=y, xs=xs) if xs is not None else rs.fit(y=y))
        else:
            kw = {"keep_new_activations": True} if keep else {}
            ok, out = guarded(c, "evaluating a ruleset", lambda: rs.eval(y=y, xs=xs, **kw))
        c.reach("returned")
        w = "fitting" if what == "fit" else "evaluating"
        good = [tbool(r._good) for r in rules]
        l = rules_of(c, rs, w)
        if prop == "C14":
            left = [j for j, r in enumerate(rules) if any(r is x for x in l)]
            c.prove(f"{w} keeps exactly the good rules", z3.And(*[g if j in left else z3.Not(g) for j, g in enumerate(good)]))
            c.prove(f"{w} keeps the rules in their order, once", len(l) == len(left) and all(a is rules[j] for a, j in zip(l, left)))
            if not isinstance(out, VList) or not out.conc:
                raise Unsupported("the rules returned")
            gone = [r for j, r in enumerate(rules) if j not in left]
            c.prove(f"{w} returns each removed rule once", len(out.items) == len(gone) and all(any(x is y for y in out.items) for x in gone))
            return
        if prop == "C11":
            invariant(c, W, rs, w)
        if prop == "C20":
            for r in l:
                if not any(r is x for x in rules):
                    raise Unsupported("other rules")
                j = [x is r for x in rules].index(True)
                if keep:
                    g = W.E(r._condition, xs)
                    c.prove("evaluating with the activations kept: each rule's activation is the one on the test data", vec_is(r._activation, g.n, g.V))
                    unchanged(c, r, before[j], "evaluating with the activations kept", ("_criterion", "_evaluated", "_activation", "_coverage", "_test_set_size", "_good", "_bad_because"))
                else:
                    unchanged(c, r, before[j], "evaluating", ("_criterion", "_evaluated", "_test_set_size", "_good", "_bad_because"))
            if l:
                invariant(c, W, rs, w)
        W.unmodified(w)
        frozen(c, w)
    return unit


def abstract_criterion(c, W):
    """calc_criterion: some number (C17); it leaves everything else (verified in ruleset_criterion_unit)"""
    real = W.RS.__dict__.get("calc_criterion")
    if real is None:
        raise Unsupported("calc_criterion")

    def calc_criterion(self, y, xs=None, weights=None, predictions=None, **kw):
        put(self, "criterion", CR.fresh_float(c, "crit"))
    return calc_criterion


def avail_unit(of, fmt):
    """activation_available, whatever the format the activation is stored in"""
    def unit(c):
        W = RSW(c, avail=False)
        n = length(c)
        r = W.rule(0, n, act=False)
        put(r, "_activation", CA.mk(c, W.A, Ghost(c, n), fmt) if fmt != "absent" else None)
        o = r
        if of == "RuleSet":
            o = W.ruleset([], False)
            put(o, "_activation", r._activation)
        ok, b = guarded(c, "activation_available", lambda: o.activation_available)
        c.reach("returned")
        t = tbool(b)
        if t is None:
            c.prove("activation_available answers yes or no", False)
            raise PathEnd()
        c.prove("the activation is available exactly when there is one", t == z3.BoolVal(fmt != "absent"))
    return unit


# ------------------------------------------------------------------------------------------------ prediction of a ruleset
def some_weights(c, W, rules, kind):
    """(argument, [FV or None per rule])  weights are positive, zero or missing"""
    if kind == "none":
        return None, [fconst(1.0)] * len(rules)
    out = []
    for u, r in enumerate(rules):
        w = CR.fresh_float(c, f"w{u}", inf=False)
        c.assume(z3.Or(w.nan, w.val >= 0))
        out.append(w)
    if kind == "attribute":
        for r, w in zip(rules, out):
            put(r, "_criterion", w)
        return "criterion", out
    labs = [r._condition._vc_label for r in rules]
    if kind == "some":
        left = [u for u in range(len(rules)) if u != c.choose(len(rules))]
        if not left:
            raise PathEnd()
        return LSeries([labs[u] for u in left], [out[u] for u in left]), [w if u in left else None for u, w in enumerate(out)]
    if kind == "reversed":
        return LSeries(labs[::-1], out[::-1]), out
    return LSeries(labs, out), out


def predict_unit(k, stacked, weights, xkind, prop="C12", missing=True):
    """RuleSet.predict, regression: the weighted mean of the active rules at every point, whatever the number of points"""
    def unit(c):
        W = RSW(c)
        W.RS.STACKED_FIT = stacked
        xs = W.features(xkind) if xkind != "none" else None
        rules, n = some_rules(c, W, k, length(c, "n0"))
        if not missing:
            for u, r in enumerate(rules):
                put(r, "_prediction", CR.fresh_float(c, f"pred{u}", inf=False, nan=False))
        rs = W.ruleset(rules, stacked)
        act0, st0 = rs._activation, rs.stacked_activations
        cols0 = list(st0.cols) if st0 is not None else []
        before = [snap(r) for r in rules]
        arg, ws = some_weights(c, W, rules, weights)
        before = [snap(r) for r in rules]
        gs = [W.E(r._condition, xs) if xs is not None else ghost_of(r._activation) for r in rules]
        N = gs[0].n
        usable = [z3.BoolVal(False) if w is None else s_(z3.And(z3.Not(w.nan), w.val != 0)) for w in ws]
        preds = [fv(r._prediction) for r in rules]
        if stacked and weights != "none":
            # at least one weighted rule is activated somewhere
            c.assume(z3.Or(*[z3.And(u, get_enum(N, g.V).m > 0) for u, g in zip(usable, gs)]))
        call = lambda: rs.predict(xs, arg) if arg is not None else (rs.predict(xs) if xs is not None else rs.predict())
        if not c.fork(z3.Or(*usable)):
            must_raise(c, "predicting without any usable weight", call)
            return
        ok, r = guarded(c, "predicting", call)
        c.reach("returned")
        if not isinstance(r, Arr) or not r.is_series:
            c.prove("predicting gives a series", False)
            raise PathEnd()
        if r.kind == "t":
            raise Unsupported("texts predicted")
        c.prove("predicting gives one value per point", r.n == N)
        f = frames.fcell(r)
        i = z3.Int(c.name("point"))
        on = [s_(z3.And(u, g.V(i), z3.Not(p.nan))) for u, g, p in zip(usable, gs, preds)]
        S = lambda xs_: z3.Sum([z3.If(o, x, z3.RealVal(0)) for o, x in zip(on, xs_)])
        wv = [z3.RealVal(0) if w is None else w.val for w in ws]
        if weights == "none":
            num, den = S([p.val for p in preds]), S([z3.RealVal(1)] * k)
        else:
            num, den = S([p.val * w for p, w in zip(preds, wv)]), S(wv)
        inside = z3.And(0 <= i, i < N)
        v = f(i)
        c.prove("the prediction is missing exactly where no usable rule is activated", z3.Implies(inside, v.nan == z3.Not(z3.Or(*on))))
        for bits in range(1, 2 ** k):
            sel = [z3.BoolVal(bool(bits >> u & 1)) for u in range(k)]
            here = z3.And(inside, *[o == t for o, t in zip(on, sel)])
            nn = z3.Sum([p.val * w if weights != "none" else p.val for u, (p, w) in enumerate(zip(preds, wv)) if bits >> u & 1])
            dd = z3.Sum([w if weights != "none" else z3.RealVal(1) for u, w in enumerate(wv) if bits >> u & 1])
            c.prove("the prediction is the weighted mean of the predictions of the active rules",
                    z3.Implies(here, z3.And(v.fin, v.val == nn / dd)))
        rules_unchanged(c, rules, before, "predicting")
        c.prove("predicting keeps the ruleset's activation", rs._activation is act0)
        c.prove("predicting keeps the stacked activations", rs.stacked_activations is st0 and (st0 is None or
                (len(st0.cols) == len(cols0) and all(a is b for a, b in zip(st0.cols, cols0)))))
        same_rules(c, rs, rules, "predicting")
        W.unmodified("predicting")
        frozen(c, "predicting")
    return unit


def vote_unit(k, stacked, weights, xkind, label):
    """RuleSet.predict, classification: the unique class with most votes at every point, else missing"""
    def unit(c):
        W = RSW(c)
        W.RS.STACKED_FIT = stacked
        xs = W.features(xkind) if xkind != "none" else None
        rules, n = some_rules(c, W, k, length(c, "n0"), kind="cla")
        for u, r in enumerate(rules):
            if label == "number":
                p = CR.fresh_float(c, f"class{u}", inf=False, nan=False)
            else:
                p = CR.some_prediction(c, label)
            if label == "text":
                c.assume(z3.And(p.t != tstr("nan"), p.t != tstr("")))
            put(r, "_prediction", p)
        rs = W.ruleset(rules, stacked, kind="cla")
        act0, st0 = rs._activation, rs.stacked_activations
        cols0 = list(st0.cols) if st0 is not None else []
        arg, ws = some_weights(c, W, rules, weights)
        before = [snap(r) for r in rules]
        gs = [W.E(r._condition, xs) if xs is not None else ghost_of(r._activation) for r in rules]
        N = gs[0].n
        usable = [z3.BoolVal(False) if w is None else s_(z3.And(z3.Not(w.nan), w.val != 0)) for w in ws]
        c.assume(z3.Or(*[z3.And(u, get_enum(N, g.V).m > 0) for u, g in zip(usable, gs)]))
        call = lambda: rs.predict(xs, arg) if arg is not None else (rs.predict(xs) if xs is not None else rs.predict())
        ok, r = guarded(c, "predicting", call)
        c.reach("returned")
        if not isinstance(r, Arr) or not r.is_series:
            if isinstance(r, Vc):
                raise Unsupported("prediction of an unknown form")
            c.prove("predicting gives a series", False)
            raise PathEnd()
        c.prove("predicting gives one value per point", r.n == N)
        i = z3.Int(c.name("point"))
        inside = z3.And(0 <= i, i < N)
        on = [s_(z3.And(u, g.V(i))) for u, g in zip(usable, gs)]
        cls = [class_value(q._prediction) for q in rules]
        wv = [z3.RealVal(0) if w is None else w.val for w in ws]
        votes = [z3.Sum([z3.If(z3.And(on[v], cls[v] == cls[u]), wv[v], z3.RealVal(0)) for v in range(k)]) for u in range(k)]
        wins = [z3.And(on[u], *[z3.Or(z3.Not(on[v]), cls[u] == cls[v], votes[v] < votes[u]) for v in range(k) if v != u]) for u in range(k)]
        gone = frames.missing(r)(i)
        c.prove("the prediction is missing exactly where no rule is activated or classes tie", z3.Implies(inside, gone == z3.Not(z3.Or(*wins))))
        for u in range(k):
            if r.kind == "t":
                if cls[u].sort() != StrSort:
                    c.prove("the classes predicted are those of the rules", z3.Not(z3.And(inside, wins[u])))
                    continue
                v = r.f(i).t == cls[u]
            else:
                if cls[u].sort() == StrSort:
                    c.prove("the classes predicted are those of the rules", z3.Not(z3.And(inside, wins[u])))
                    continue
                x = frames.fcell(r)(i)
                v = z3.And(x.fin, x.val == (z3.ToReal(cls[u]) if cls[u].sort() == z3.IntSort() else cls[u]))
            c.prove("the prediction is the class with most votes among the active rules", z3.Implies(z3.And(inside, wins[u]), v))
        rules_unchanged(c, rules, before, "predicting")
        c.prove("predicting keeps the ruleset's activation", rs._activation is act0)
        c.prove("predicting keeps the stacked activations", rs.stacked_activations is st0 and (st0 is None or
                (len(st0.cols) == len(cols0) and all(a is b for a, b in zip(st0.cols, cols0)))))
        same_rules(c, rs, rules, "predicting")
        W.unmodified("predicting")
        frozen(c, "predicting")
    return unit


# ------------------------------------------------------------------------------------------------ criteria
def abstract_predict(c, W, series, seen):
    """predict by contract (C12): some series of one value per point"""
    if W.RS.__dict__.get("predict") is None:
        raise Unsupported("predict")

    def predict(self, xs=None, weights=None):
        seen.append((xs, weights))
        return series
    W.RS.predict = predict


def ruleset_criterion_unit(method, ykind, given):
    """RuleSet.calc_criterion: the formula on the ruleset's own prediction"""
    def unit(c):
        W = RSW(c)
        kw = {} if method is None else {"criterion_method": method}
        xs = W.features("array") if given == "features" else None
        rules, n0 = some_rules(c, W, 2, length(c, "n0"))
        rs = W.ruleset(rules)
        act0 = rs._activation
        before = [snap(r) for r in rules]
        n = xs.n if xs is not None else n0
        f = CR.fresh_cells(c, "p", 1, inf=False)
        p = Arr(n, f, "f", NA.FLOAT)
        p.is_series, p.index = True, VIndex(n)
        y, Y = W.targets(n, ykind, missing=False)
        seen = []
        abstract_predict(c, W, p, seen)
        ws = LSeries([r._condition._vc_label for r in rules], [CR.fresh_float(c, "w", inf=False) for r in rules]) if given == "weights" else None
        if given == "prediction":
            call = lambda: rs.calc_criterion(y, predictions=p, **kw)
        elif given == "features":
            call = lambda: rs.calc_criterion(y, xs=xs, **kw)
        elif given == "weights":
            call = lambda: rs.calc_criterion(y, weights=ws, **kw)
        else:
            call = lambda: rs.calc_criterion(y, **kw)
        ok, _ = guarded(c, "criterion of a ruleset", call)
        c.reach("returned")
        if given == "prediction":
            c.prove("the criterion of a given prediction uses that prediction", not seen)
        else:
            if not seen:
                raise Unsupported("the prediction is not taken from predict")
            c.prove("the criterion uses the ruleset's prediction on the given features and weights", all(a is xs and b is ws for a, b in seen))
        v = num(rs.criterion) if is_num(rs.criterion) else None
        if v is None:
            if isinstance(rs.criterion, Vc):
                raise Unsupported("criterion of an unknown form")
            c.prove("there is a criterion", False)
            raise PathEnd()
        P = lambda i: z3.Not(f(i).nan)
        k = get_enum(n, lambda i: s_(P(i))).m
        if c.fork(k > 0):
            c.prove("the criterion is given by its formula over the known predictions", f_same(v, criterion_formula(c, method, n, P, Y, f)))
        else:
            c.prove("the criterion is missing when nothing is predicted", v.nan)
        rules_unchanged(c, rules, before, "the criterion of a ruleset")
        c.prove("the criterion of a ruleset keeps its activation", rs._activation is act0)
        W.unmodified("the criterion of a ruleset")
        frozen(c, "the criterion of a ruleset")
    return unit


def stacked_criterions_unit(method, ykind, k):
    """RuleSet.calc_criterions: the formula in every column"""
    def unit(c):
        W = RSW(c)
        kw = {} if method is None else {"criterion_method": method}
        rules, n = some_rules(c, W, k, length(c, "n", 1))
        rs = W.ruleset(rules, True)
        before = [snap(r) for r in rules]
        y, Y = W.targets(n, ykind, missing=False)
        preds = LSeries([r._condition._vc_label for r in rules], [r._prediction for r in rules])
        ok, r = guarded(c, "criterion of stacked predictions", lambda: rs.calc_criterions(y, predictions=preds, **kw))
        c.reach("returned")
        columns_criterion(c, W, rs, rules, r, method, n, [ghost_of(q._activation).V for q in rules], Y)
        rules_unchanged(c, rules, before, "the criterion of stacked predictions")
        W.unmodified("the criterion of stacked predictions")
        frozen(c, "the criterion of stacked predictions")
    return unit


def columns_criterion(c, W, rs, rules, r, method, n, Vs, Y):
    if not isinstance(r, LSeries):
        if isinstance(r, Vc):
            raise Unsupported("criterions of an unknown form")
        c.prove("there is one criterion per rule", False)
        raise PathEnd()
    want = [q._condition._vc_label for q in rules]
    c.prove("there is one criterion per rule, in order", list(r.labels) == want)
    if list(r.labels) != want:
        raise PathEnd()
    for q, v, V in zip(rules, r.vals, Vs):
        one_criterion(c, "the criterion of a column of stacked predictions", q, v, method, n, V, Y)


def one_criterion(c, what, q, v, method, n, V, Y):
    v = num(v) if is_num(v) else None
    if v is None:
        c.prove(what + " is a number", False)
        raise PathEnd()
    pv = fv(q._prediction)
    P = lambda i: z3.And(V(i), z3.Not(pv.nan))
    m = get_enum(n, lambda i: s_(P(i))).m
    if c.fork(m > 0):
        c.prove(what + " is given by its formula over the known predictions", f_same(v, criterion_formula(c, method, n, P, Y, lambda i: pv)))
    else:
        c.prove(what + " is missing when nothing is predicted", v.nan)


# ------------------------------------------------------------------------------------------------ stacked fitting and evaluating
def some_flag(c, W):
    """check_thresholds by contract (C14): it may only turn a good rule into a bad one"""
    if W.Rule.__dict__.get("check_thresholds") is None:
        raise Unsupported("check_thresholds")

    def check_thresholds(self, attribute=None):
        put(self, "_good", SymBool(z3.And(tbool(self._good), c.bool("good"))))
    W.Rule.check_thresholds = check_thresholds


def some_stats(c, W):
    """calc_predictions, calc_stds, calc_signs, calc_zscores, calc_criterions by contract: some value per rule (C21, C17)"""
    def series(self, a):
        out = []
        for r in rules_of(c, self, "stacked"):
            out.append(Str(z3.Const(c.name("nsign"), StrSort)) if a == "sign" else CR.fresh_float(c, "n" + a, inf=a in ("zscore", "criterion")))
        return LSeries([r._condition._vc_label for r in rules_of(c, self, "stacked")], out)
    for a in list(STAT_ARGS) + ["criterion"]:
        if W.RS.__dict__.get(f"calc_{a}s") is None:
            raise Unsupported(f"calc_{a}s")
    W.RS.calc_predictions = lambda self, y, stacked_activations=None: series(self, "prediction")
    W.RS.calc_stds = lambda self, y, stacked_activations=None: series(self, "std")
    W.RS.calc_signs = lambda self, predictions=None: series(self, "sign")
    W.RS.calc_zscores = lambda self, y, predictions=None, nones=None, horizon=1: series(self, "zscore")
    W.RS.calc_criterions = lambda self, y, predictions=None, stacked_activations=None, **kwargs: series(self, "criterion")


def stacked_fit_unit(k, ykind, missing, prop, xkind="array", stack=False, flags=False, fresh=False):
    def unit(c):
        W = RSW(c, fit="real")
        W.RS.STACKED_FIT = True
        if flags:
            some_flag(c, W)
            some_stats(c, W)
        xs = W.features(xkind) if xkind != "none" else None
        n0 = length(c, "n0", 1)
        n = xs.n if xs is not None else n0
        if xs is not None:
            c.assume(xs.n >= 1)
        rules, n0 = some_rules(c, W, k, n0)
        for r in rules:
            if fresh:
                put(r, "_activation", None)
            if xs is None or fresh:
                put(r, "_fitted", False)
        rs = W.ruleset(rules, stack)
        y, Y = W.targets(n, ykind, missing=missing)
        ok, out = guarded(c, "fitting a ruleset in stacked mode", lambda: rs.fit(y=y, xs=xs) if xs is not None else rs.fit(y=y))
        c.reach("returned")
        what = "stacked fitting"
        if prop == "C21":
            if isinstance(out, VList) and out.conc and out.items:
                c.prove("stacked fitting without thresholds keeps every rule", False)
            for r in [rules[c.choose(k)]]:
                g = W.E(r._condition, xs) if xs is not None else ghost_of(r._activation)
                check_stats(c, r, n, g.V, Y, z3.IntVal(1), what)
                c.prove("stacked fitting marks each rule as fitted", tbool(r._fitted))
                if r._activation is not None:
                    c.prove("stacked fitting gives each rule its activation", vec_is(r._activation, g.n, g.V))
                else:
                    c.prove("stacked fitting gives each rule its activation", False)
        elif prop == "C14":
            kept(c, rs, rules, out, what)
        elif prop == "C11":
            invariant(c, W, rs, what)
        W.unmodified(what)
        frozen(c, what)
    return unit


def stat_unit(which, k, ykind):
    """calc_predictions, calc_stds, calc_signs, calc_zscores: the statistics of every column"""
    def unit(c):
        W = RSW(c)
        W.RS.STACKED_FIT = True
        rules, n = some_rules(c, W, k, length(c, "n", 1))
        rs = W.ruleset(rules, True)
        labs = [r._condition._vc_label for r in rules]
        before = [snap(r) for r in rules]
        y, Y = W.targets(n, ykind)
        if ykind == "series":
            rs.stacked_activations.index = y.index
        ps = [CR.fresh_float(c, f"p{u}", inf=False) for u in range(k)]
        h = c.int("horizon")
        c.assume(h >= 1)
        what = {"prediction": "the stacked predictions", "std": "the stacked standard deviations", "sign": "the stacked signs", "zscore": "the stacked z-scores"}[which]
        call = {"prediction": lambda: rs.calc_predictions(y), "std": lambda: rs.calc_stds(y), "sign": lambda: rs.calc_signs(LSeries(labs, ps)),
                "zscore": lambda: rs.calc_zscores(y, predictions=LSeries(labs, ps), horizon=SInt(h))}[which]
        ok, r = guarded(c, what, call)
        c.reach("returned")
        if not isinstance(r, LSeries):
            if isinstance(r, Vc):
                raise Unsupported(what + " of an unknown form")
            c.prove(what + ": a series", False)
            raise PathEnd()
        c.prove(what + ": one value per rule, in order", list(r.labels) == labs)
        if list(r.labels) != labs:
            raise PathEnd()
        u = c.choose(k)
        v, V = r.vals[u], ghost_of(rules[u]._activation).V
        P = CR.known(V, Y)
        if which == "sign":
            if not isinstance(v, str):
                if isinstance(v, Vc):
                    raise Unsupported("sign")
                c.prove("the sign is '+' or '-'", False)
                raise PathEnd()
            c.prove("the sign is '-' exactly for negative predictions", z3.BoolVal(v == "-") == z3.And(z3.Not(ps[u].nan), ps[u].val < 0))
            c.prove("the sign is '+' or '-'", v in ("+", "-"))
        else:
            x = num(v) if is_num(v) else None
            if x is None:
                c.prove(what + ": numbers", False)
                raise PathEnd()
            if which == "prediction":
                m, kk = CR.sel_mean(n, P, Y)
                c.prove("the prediction is the mean of the known activated targets", z3.If(kk > 0, f_same(x, m), x.nan))
            elif which == "std":
                sd, kk = CR.sel_std(n, P, Y, 1)
                if c.fork(kk >= 2):
                    c.prove("the standard deviation is that of the known activated targets", f_same(x, sd))
            else:
                ones = get_enum(n, lambda i: s_(V(i))).m
                kn = lambda i: z3.Not(Y(i).nan)
                sdy, _ = CR.sel_std(n, kn, Y, 0)
                my, _ = CR.sel_mean(n, kn, Y)
                p = ps[u]
                z = f_div(abs(p - my), f_mul(NA.fsqrt(f_div(fv(SInt(h)), fv(SInt(ones)))), sdy))
                if c.fork(z3.And(z3.Not(p.nan), cnt(n, kn) > 0, sdy.val > 0, ones > 0)):
                    c.prove("the z-score follows its formula", f_same(x, z))
        rules_unchanged(c, rules, before, what)
        W.unmodified(what)
        frozen(c, what)
    return unit


STAT_ARGS = {"prediction": ["y", "stacked_activations"], "std": ["y", "stacked_activations"], "sign": ["predictions"],
             "zscore": ["y", "predictions", "nones", "horizon"]}


def modular_fit_unit(k, ykind, xkind="array", fresh=False, kind="reg"):
    """RuleSet.fit in stacked mode, the calc_* methods by contract (stat_unit): each rule receives the value of its own column"""
    def unit(c):
        W = RSW(c, fit="real")
        W.RS.STACKED_FIT = True
        cla, K = kind == "cla", W.Cla if kind == "cla" else W.Reg
        for a in ("prediction",) if cla else STAT_ARGS:
            real = W.RS.__dict__.get(f"calc_{a}s")
            if real is None:
                raise Unsupported(f"calc_{a}s")
        if list(K.attributes_from_train_set) != ["train_set_size", "prediction"] + ([] if cla else ["std", "sign", "zscore"]):
            raise Unsupported("attributes of rules")
        xs = W.features(xkind) if xkind != "none" else None
        if xs is not None:
            c.assume(xs.n >= 1)
        rules, n0 = some_rules(c, W, k, length(c, "n0", 1), kind=kind)
        n = xs.n if xs is not None else n0
        for r in rules:
            if fresh:
                put(r, "_activation", None)
            if xs is None or fresh:
                put(r, "_fitted", False)
        rs = W.ruleset(rules, kind=kind)
        labs = [r._condition._vc_label for r in rules]
        gs = [W.E(r._condition, xs) if xs is not None else ghost_of(r._activation) for r in rules]
        y, Y = CR.class_targets(c, W, n, ykind) if cla else W.targets(n, ykind)
        vals = {"prediction": [CR.fresh_float(c, f"np{u}", inf=False) for u in range(k)], "std": [CR.fresh_float(c, f"ns{u}", inf=False) for u in range(k)],
                "sign": [Str(z3.Const(c.name("nsign"), StrSort)) for u in range(k)], "zscore": [CR.fresh_float(c, f"nz{u}") for u in range(k)]}
        if cla:
            vals = {"prediction": [CR.some_prediction(c, "text" if ykind.startswith("text") else "integer") for u in range(k)]}
        seen = []

        def stacked_ok(self):
            t = self.stacked_activations
            if not isinstance(t, VFrame):
                raise Unsupported("stacked activations")
            c.prove("stacked fitting: the statistics use one column per rule", list(t.labels) == labs)
            if list(t.labels) != labs:
                raise PathEnd()
            for l, g in zip(labs, gs):
                f = frames.fcell(t.col(l))
                c.prove("stacked fitting: the statistics use the activation of each rule", z3.And(t.col(l).n == n,
                        FA(z3.IntVal(0), n, lambda i: z3.And(f(i).fin, f(i).val == z3.If(g.V(i), z3.RealVal(1), z3.RealVal(0))))))

        def targets_ok(t):
            c.prove("stacked fitting: the statistics use the given targets", t is y)

        def preds_ok(p):
            if p is None:
                return
            if not isinstance(p, LSeries):
                raise Unsupported("predictions")
            c.prove("stacked fitting: signs and z-scores use the new predictions", list(p.labels) == labs and all(a is b for a, b in zip(p.vals, vals["prediction"])))

        def calc_predictions(self, y, stacked_activations=None):
            if stacked_activations is not None:
                raise Unsupported("given activations")
            stacked_ok(self), targets_ok(y), seen.append("prediction")
            return LSeries(labs, list(vals["prediction"]))

        def calc_stds(self, y, stacked_activations=None):
            if stacked_activations is not None:
                raise Unsupported("given activations")
            stacked_ok(self), targets_ok(y), seen.append("std")
            return LSeries(labs, list(vals["std"]))

        def calc_signs(self, predictions=None):
            if predictions is None:
                raise Unsupported("signs of the predictions of the rules")
            preds_ok(predictions), seen.append("sign")
            return LSeries(labs, list(vals["sign"]))

        def calc_zscores(self, y, predictions=None, nones=None, horizon=1):
            if nones is not None or horizon != 1:
                raise Unsupported("z-scores with given counts")
            for r, g in zip(rules, gs):
                c.prove("stacked fitting: the z-scores use the activation of each rule", vec_is(r._activation, g.n, g.V) if r._activation is not None else False)
            targets_ok(y), preds_ok(predictions), seen.append("zscore")
            return LSeries(labs, list(vals["zscore"]))
        for f in (calc_predictions,) if cla else (calc_predictions, calc_stds, calc_signs, calc_zscores):
            setattr(W.RS, f.__name__, f)
        ok, out = guarded(c, "fitting a ruleset in stacked mode", lambda: rs.fit(y=y, xs=xs) if xs is not None else rs.fit(y=y))
        c.reach("returned")
        if sorted(set(seen)) != sorted(vals):
            raise Unsupported("statistics taken from elsewhere")
        what = "stacked fitting"
        for u, r in enumerate(rules):
            for a in vals:
                c.prove(f"{what}: each rule gets the {a} of its column", CR.value_same(object.__getattribute__(r, "__dict__").get("_" + a), vals[a][u]))
            c.prove(f"{what}: the train size is the number of targets", CR.same_value(r.train_set_size, fv(SInt(n))))
            c.prove("stacked fitting marks each rule as fitted", tbool(r._fitted))
            c.prove("stacked fitting gives each rule its activation", vec_is(r._activation, gs[u].n, gs[u].V) if r._activation is not None else False)
        same_rules(c, rs, rules, "stacked fitting without thresholds")
        W.unmodified(what)
        frozen(c, what)
    return unit


# ------------------------------------------------------------------------------------------------ stacked classification
def class_rules(c, W, k, ykind):
    text = ykind.startswith("text")
    rules, n = some_rules(c, W, k, length(c, "n", 1), kind="cla")
    for r in rules:
        p = CR.some_prediction(c, "text" if text else "integer" if ykind == "int array" else "number")
        if not text:
            c.assume(fv(p).fin)
        put(r, "_prediction", p)
        c.assume(ghost_of(r._activation).ones.m >= 1)
    return rules, n


def per_rule(c, what, r, labs):
    if not isinstance(r, LSeries):
        if isinstance(r, Vc):
            raise Unsupported(what + " of an unknown form")
        c.prove(what + ": a series", False)
        raise PathEnd()
    c.prove(what + ": one value per rule, in order", list(r.labels) == labs)
    if list(r.labels) != labs:
        raise PathEnd()


def class_stat_unit(which, k, ykind):
    """calc_predictions, calc_criterions of classification rules: the most frequent class, the success rate of every column"""
    def unit(c):
        import classtable
        W = RSW(c)
        W.RS.STACKED_FIT = True
        rules, n = class_rules(c, W, k, ykind)
        rs = W.ruleset(rules, True, kind="cla")
        labs = [r._condition._vc_label for r in rules]
        before = [snap(r) for r in rules]
        y, Y = CR.class_targets(c, W, n, ykind)
        if ykind.endswith("series"):
            rs.stacked_activations.index = y.index
        y0 = y.f
        what = "the stacked " + which + "s of classification rules"
        preds = LSeries(labs, [r._prediction for r in rules])
        ok, r = guarded(c, what, (lambda: rs.calc_predictions(y)) if which == "prediction" else lambda: rs.calc_criterions(y, predictions=preds))
        c.reach("returned")
        per_rule(c, what, r, labs)
        u = c.choose(k)
        v, V = r.vals[u], ghost_of(rules[u]._activation).V
        if which == "prediction":
            t = CR.class_value(v)
            if t is None or t.sort() != Y(z3.IntVal(0)).sort():
                c.prove("stacked fitting: the prediction is one of the classes", False)
                raise PathEnd()
            F = classtable.tally(n, lambda i: s_(z3.Not(V(i))), Y)
            o = z3.Const(c.name("class"), t.sort())
            c.prove("stacked fitting: the prediction is one of the classes", F(t) >= 1)
            c.prove("stacked fitting: no class is more frequent than the prediction", F(o) <= F(t))
            c.prove("stacked fitting: no smaller class is as frequent as the prediction", z3.Implies(F(o) == F(t), z3.Not(CR.lt_value(o, t))))
        else:
            x = num(v) if is_num(v) else None
            if x is None:
                c.prove(what + ": numbers", False)
                raise PathEnd()
            p = CR.class_value(rules[u]._prediction)
            c.prove("stacked evaluation: the criterion is the fraction of activated rows whose target is the prediction", f_same(x, CR.class_criterion(n, V, Y, p)))
        c.prove(what + ": the targets are not modified", y.f is y0)
        rules_unchanged(c, rules, before, what)
        frozen(c, what)
    return unit


def kept(c, rs, rules, out, w):
    good = [tbool(r._good) for r in rules]
    l = rules_of(c, rs, w)
    left = [j for j, r in enumerate(rules) if any(r is x for x in l)]
    c.prove(f"{w} keeps exactly the good rules", z3.And(*[g if j in left else z3.Not(g) for j, g in enumerate(good)]))
    c.prove(f"{w} keeps the rules in their order, once", len(l) == len(left) and all(a is rules[j] for a, j in zip(l, left)))
    if not isinstance(out, VList) or not out.conc:
        raise Unsupported("the rules returned")
    gone = [r for j, r in enumerate(rules) if j not in left]
    c.prove(f"{w} returns each removed rule once", len(out.items) == len(gone) and all(any(x is y for y in out.items) for x in gone))


def stacked_eval_unit(k, ykind, prop, keep=False, xkind="array", stack=False, flags=False, kind="reg"):
    def unit(c):
        W = RSW(c, fit="real")
        W.RS.STACKED_FIT = True
        W.RS.calc_criterion = abstract_criterion(c, W)
        if flags:
            some_flag(c, W)
            some_stats(c, W)
        xs = W.features(xkind) if xkind != "none" else None
        if xs is not None:
            c.assume(xs.n >= 1)
        rules, n0 = some_rules(c, W, k, length(c, "n0", 1)) if kind == "reg" else class_rules(c, W, k, ykind)
        n = xs.n if xs is not None else n0
        rs = W.ruleset(rules, stack, kind=kind)
        before = [snap(r) for r in rules]
        y, Y = W.targets(n, ykind, missing=False) if kind == "reg" else CR.class_targets(c, W, n, ykind)
        kw = {"keep_new_activations": True} if keep else {}
        ok, out = guarded(c, "evaluating a ruleset in stacked mode", lambda: rs.eval(y=y, xs=xs, **kw) if xs is not None else rs.eval(y=y, **kw))
        c.reach("returned")
        what = "stacked evaluating"
        if prop == "C14":
            kept(c, rs, rules, out, what)
        elif prop == "C11":
            invariant(c, W, rs, what)
        else:
            for j, r in enumerate(rules):
                g = W.E(r._condition, xs) if xs is not None else before[j][1]
                if kind == "cla":
                    p, x = CR.class_value(r._prediction), num(r.criterion) if is_num(r.criterion) else None
                    if x is None:
                        c.prove("stacked evaluating: there is a criterion", False)
                        raise PathEnd()
                    if c.fork(g.ones.m > 0):
                        c.prove("stacked evaluating: the criterion is the fraction of activated rows whose target is the prediction",
                                f_same(x, CR.class_criterion(n, g.V, Y, p)))
                else:
                    one_criterion(c, "stacked evaluating: the criterion", r, r.criterion, "mse_norm", n, g.V, Y)
                if keep and xs is not None:
                    c.prove("evaluating with the activations kept: each rule's activation is the one on the test data",
                            vec_is(r._activation, g.n, g.V) if r._activation is not None else False)
                    unchanged(c, r, before[j], what, ("_criterion", "_evaluated", "_activation", "_coverage", "_test_set_size", "_good", "_bad_because"))
                else:
                    unchanged(c, r, before[j], what, ("_criterion", "_evaluated", "_test_set_size", "_good", "_bad_because"))
        W.unmodified(what)
        frozen(c, what)
    return unit


def units(prop):
    from main import Unit
    out = []
    S = "ruleskit/ruleset.py: RuleSet."

    def U(name, make, fns, w=3, bounded=None, **kw):
        out.append(Unit(name, make, [S + f for f in fns], w, bounded=bounded, assumptions=RS_USES, **kw))
    rows = "rows unbounded; number of rules "
    if prop in ("C11", "C19"):
        for k in (1, 2, 3):
            for st in (False, True):
                if st and prop == "C19":
                    continue
                s = ", stacked" if st else ""
                U(f"RuleSet.__init__, {k} rules{s}", lambda k=k, st=st: ctor_unit(k, st, prop), ["__init__", "append", "__iadd__", "compute_self_activation",
                  "evaluate_self_activation", "compute_stacked_activation"], bounded=rows + str(k))
                for op in ("append", "iadd rule", "add rule"):
                    U(f"RuleSet {op}, to {k} rules{s}", lambda k=k, st=st, op=op: add_unit(op, k, st, prop), ["append", "__iadd__", "__add__",
                      "_update_activation", "_update_stacked_activation"], bounded=rows + str(k))
        for k in (0, 1, 2):
            for m in (0, 1, 2):
                if k + m == 0:
                    continue
                for st in ((False, False), (True, False), (True, True), (False, True)) if prop == "C11" else ((False, False),):
                    for op in ("iadd ruleset", "add ruleset"):
                        U(f"RuleSet {op}, {k} and {m} rules{', left stacked' if st[0] else ''}{', right stacked' if st[1] else ''}",
                          lambda k=k, m=m, st=st, op=op: add_unit(op, k, st[0], prop, m, st[1]), ["__iadd__", "__add__", "_update_activation",
                          "_update_stacked_activation"], bounded=rows + f"{k} and {m}")
        for st in (False, True) if prop == "C11" else (False,):
            for op in ("append", "iadd rule"):
                U(f"RuleSet {op}, to no rule{', stacked' if st else ''}", lambda st=st, op=op: add_unit(op, 0, st, prop), ["append", "__iadd__"], bounded=rows + "0")
            for k in (1, 2, 3):
                for rev in (False, True):
                    for attr in ("coverage", "criterion") if prop == "C19" else ("coverage",):
                        U(f"RuleSet.sort by {attr}, {k} rules{', descending' if rev else ''}{', stacked' if st else ''}",
                          lambda k=k, st=st, rev=rev, attr=attr: sort_unit(k, st, rev, prop, attr), ["sort"], bounded=rows + str(k))
            for nm in NAMESETS:
                for rev in (False, True):
                    U(f"RuleSet.sort by default, features {nm}{', reversed' if rev else ''}{', stacked' if st else ''}",
                      lambda nm=nm, rev=rev, st=st: default_sort_unit(nm, rev, prop, st), ["sort"], bounded=f"rules about the features {nm}, any bounds")
    if prop in ("C11", "C19"):
        D = ", the last with the condition of the first"
        for k in (2, 3):
            U(f"RuleSet.__init__, {k} rules{D}", lambda k=k: dup(lambda: ctor_unit(k, False, prop), k - 1, 0)(), ["__init__", "__iadd__"], bounded=rows + str(k))
        for k in (1, 2):
            for op in ("append", "iadd rule", "add rule"):
                U(f"RuleSet {op}, to {k} rules{D}", lambda k=k, op=op: dup(lambda: add_unit(op, k, False, prop), k, 0)(), ["append", "__iadd__", "__add__"],
                  bounded=rows + str(k))
        for k, m in ((1, 1), (2, 1), (1, 2)):
            for op in ("iadd ruleset", "add ruleset") if prop == "C11" else ("iadd ruleset",):
                U(f"RuleSet {op}, {k} and {m} rules{D}", lambda k=k, m=m, op=op: dup(lambda: add_unit(op, k, False, prop, m), k + m - 1, 0)(),
                  ["__iadd__", "__add__"], bounded=rows + f"{k} and {m}")
        for rev in (False, True):
            U(f"RuleSet.sort by coverage, 3 rules{', descending' if rev else ''}{D}", lambda rev=rev: dup(lambda: sort_unit(3, False, rev, prop), 2, 0)(), ["sort"],
              bounded=rows + "3")
        if prop == "C11":
            for how in ("compute_self_activation", "calc_activation", "evaluate", "evaluate_self_activation"):
                U(f"RuleSet.{how}, 3 rules{D}", lambda how=how: dup(lambda: recompute_unit(3, False, how, prop), 2, 0)(), [how], bounded=rows + "3")
    if prop in ("C11", "C14", "C20"):
        D = ", the last with the condition of the first"
        if prop != "C20":
            for fr in (False, True):
                U(f"RuleSet.fit, 3 {'new ' if fr else ''}rules{D}", lambda fr=fr: dup(lambda: run_unit("fit", 3, False, prop, fresh=fr), 2, 0)(), ["fit"], 5, bounded=rows + "3")
        for keep in (False, True):
            U(f"RuleSet.eval, 3 rules, activations {'kept' if keep else 'not kept'}{D}",
              lambda keep=keep: dup(lambda: run_unit("eval", 3, False, prop, keep=keep), 2, 0)(), ["eval"], 5, bounded=rows + "3")
    if prop == "C12":
        D = ", the last with the condition of the first"
        for xk in ("none", "array"):
            U(f"RuleSet.predict, 3 rules, weights: none, features: {xk}{D}", lambda xk=xk: dup(lambda: predict_unit(3, False, "none", xk), 2, 0)(),
              ["predict", "_calc_prediction_unstacked"], 5, bounded=rows + "3")
    if prop == "C19":
        U("RuleSet.__add__, rulesets sharing rules", dup_add_unit, ["__add__"], bounded="at most 2 rules each")
        for op in ("append", "iadd", "add", "iadd ruleset", "build"):
            U(f"RuleSet rejects a rule of another type: {op}", lambda op=op: type_unit(op), ["__iadd__", "append", "__add__"], 1, bounded=rows + "1")
        for k in (1, 2, 3):
            U(f"RuleSet.__getitem__, {k} rules", lambda k=k: slice_unit(k), ["__getitem__"], bounded=rows + str(k))
        for nm in (True, False):
            U(f"RuleSet.__contains__, by {'name' if nm else 'position'}", lambda nm=nm: contains_unit(nm), ["__contains__"], bounded="2 rules about given features, any bounds")
    if prop == "C11":
        for of in ("Rule", "RuleSet"):
            for fmt in ("raw", "bitarray", "integer", "compressed_str", "compressed_array", "file", "lazy", "absent"):
                out.append(Unit(f"{of}.activation_available, {fmt}", lambda of=of, fmt=fmt: avail_unit(of, fmt),
                                [f"ruleskit/rule{'set' if of == 'RuleSet' else ''}.py: {of}.activation_available"], 1))
        for k in (1, 2, 3):
            for st in (False, True):
                for how in ("compute_self_activation", "calc_activation", "evaluate", "evaluate_self_activation"):
                    U(f"RuleSet.{how}, {k} rules{', stacked' if st else ''}", lambda k=k, st=st, how=how: recompute_unit(k, st, how, prop), [how], bounded=rows + str(k))
    if prop == "C13":
        for k in (1, 2, 3):
            for st in (False, True):
                for wk in ("none",) if st else ("none", "series", "some", "attribute"):
                    for xk in ("none", "array"):
                        for lab in ("integer", "number", "text"):
                            if wk in ("some", "attribute") and (k != 2 or xk == "array" or lab == "number") or k == 3 and lab == "number" \
                                    or k == 3 and wk != "none" and xk == "array":
                                continue
                            U(f"RuleSet.predict, {k} rules, classes: {lab}, weights: {wk}, features: {xk}{', stacked' if st else ''}",
                              lambda k=k, st=st, wk=wk, xk=xk, lab=lab: vote_unit(k, st, wk, xk, lab),
                              ["predict", "_calc_prediction_stacked", "_calc_prediction_unstacked"], 5, bounded=rows + str(k))
    if prop == "C12":
        for k in (1, 2, 3):
            for st in (False, True):
                for wk in ("none", "series", "some", "reversed", "attribute"):
                    for xk in ("none", "array"):
                        if (k == 3 or xk == "array") and wk in ("reversed", "attribute") or k == 1 and wk == "some" \
                                or k == 3 and wk != "none" and (st or xk == "array" or wk == "some"):
                            continue
                        U(f"RuleSet.predict, {k} rules, weights: {wk}, features: {xk}{', stacked' if st else ''}",
                          lambda k=k, st=st, wk=wk, xk=xk: predict_unit(k, st, wk, xk), ["predict", "_calc_prediction_stacked", "_calc_prediction_unstacked"],
                          5, bounded=rows + str(k))
    if prop == "C17":
        for m in CR.METHODS:
            for yk in ("array", "series"):
                for given in ("nothing", "features", "weights", "prediction"):
                    if yk == "series" and given not in ("nothing",):
                        continue
                    U(f"RuleSet.calc_criterion, {m or 'default'}, targets {yk}, given {given}", lambda m=m, yk=yk, given=given: ruleset_criterion_unit(m, yk, given),
                      ["calc_criterion"], 5, bounded=rows + "2 (their prediction is arbitrary)")
                for k in (1, 2):
                    U(f"RuleSet.calc_criterions, {m or 'default'}, targets {yk}, {k} rules", lambda m=m, yk=yk, k=k: stacked_criterions_unit(m, yk, k),
                      ["calc_criterions"], 5, bounded=rows + str(k))
    stats = ["calc_predictions", "calc_stds", "calc_signs", "calc_zscores", "calc_train_set_sizes", "compute_stacked_activation", "calc_activation"]
    if prop == "C21":
        for k in (1, 2, 3):
            for yk in ("array", "series"):
                for which in STAT_ARGS:
                    if which == "sign" and yk == "series":
                        continue
                    U(f"RuleSet.calc_{which}s, {k} rules, targets {yk}", lambda k=k, yk=yk, which=which: stat_unit(which, k, yk), [f"calc_{which}s"], 8, bounded=rows + str(k))
        for yk in ("array", "series"):
            for xk, fr in (("array", False), ("array", True), ("none", False)):
                for k in (1, 2, 3):
                    U(f"RuleSet.fit, stacked mode, {k} {'new ' if fr else ''}rules, targets {yk}, features {xk}",
                      lambda k=k, yk=yk, xk=xk, fr=fr: modular_fit_unit(k, yk, xk, fr), ["fit"] + stats, 6, bounded=rows + str(k))
                if xk == "array" or yk == "array":
                    U(f"RuleSet.fit, stacked mode, whole, 1 {'new ' if fr else ''}rule, targets {yk}, features {xk}",
                      lambda yk=yk, xk=xk, fr=fr: stacked_fit_unit(1, yk, True, prop, xk, False, False, fr), ["fit"] + stats, 9, bounded=rows + "1")
    if prop == "C21":
        for k in (1, 2):
            for yk in ("text", "text series", "float", "int array", "series"):
                for which in ("prediction", "criterion"):
                    U(f"RuleSet.calc_{which}s, {k} classification rules, targets {yk}", lambda k=k, yk=yk, which=which: class_stat_unit(which, k, yk),
                      [f"calc_{which}s"], 6, bounded=rows + str(k))
                for xk, fr in (("array", False), ("array", True), ("none", False)):
                    if yk in ("text", "series"):
                        U(f"RuleSet.fit, stacked mode, {k} {'new ' if fr else ''}classification rules, targets {yk}, features {xk}",
                          lambda k=k, yk=yk, xk=xk, fr=fr: modular_fit_unit(k, yk, xk, fr, "cla"), ["fit", "calc_train_set_sizes"], 6, bounded=rows + str(k))
                for xk in ("array", "none"):
                    for keep in (False, True):
                        if yk in ("text", "text series", "int array"):
                            U(f"RuleSet.eval, stacked mode, {k} classification rules, targets {yk}, features {xk}, activations {'kept' if keep else 'not kept'}",
                              lambda k=k, yk=yk, xk=xk, keep=keep: stacked_eval_unit(k, yk, prop, keep, xk, kind="cla"),
                              ["eval", "calc_criterions", "evaluate_stacked_activations"], 6, bounded=rows + str(k))
    if prop in ("C14", "C11"):
        for k in (1, 2) if prop == "C21" else (1, 2, 3):
            for xk in ("array", "none"):
                for st in (False, True) if prop == "C11" else (False,):
                    U(f"RuleSet.fit, stacked mode, {k} rules, features {xk}{', stacked' if st else ''}",
                      lambda k=k, xk=xk, st=st: stacked_fit_unit(k, "array", True, prop, xk, st, True), ["fit"] + stats, 6, bounded=rows + str(k))
    if prop in ("C21", "C14", "C11"):
        for k in (1, 2) if prop == "C21" else (1, 2, 3):
            for yk in ("array", "series") if prop == "C21" else ("array",):
                for xk in ("array", "none"):
                    for keep in (False, True):
                        for st in (False, True) if prop == "C11" else (False,):
                            U(f"RuleSet.eval, stacked mode, {k} rules, targets {yk}, features {xk}, activations {'kept' if keep else 'not kept'}{', stacked' if st else ''}",
                              lambda k=k, yk=yk, xk=xk, keep=keep, st=st: stacked_eval_unit(k, yk, prop, keep, xk, st, prop != "C21"),
                              ["eval", "calc_criterions", "calc_test_set_sizes", "evaluate_stacked_activations"], 6, bounded=rows + str(k))
    if prop in ("C11", "C14", "C20"):
        for k in (1, 2, 3):
            for st in (False, True) if prop == "C11" else (False,):
                s = ", stacked" if st else ""
                if prop != "C20":
                    for fr in (False, True):
                        U(f"RuleSet.fit, {k} {'new ' if fr else ''}rules{s}", lambda k=k, st=st, fr=fr: run_unit("fit", k, st, prop, fresh=fr), ["fit"], 5, bounded=rows + str(k))
                    U(f"RuleSet.fit without features, {k} rules{s}", lambda k=k, st=st: run_unit("fit", k, st, prop, xkind="none"), ["fit"], 5, bounded=rows + str(k))
                for keep in (False, True):
                    U(f"RuleSet.eval, {k} rules, activations {'kept' if keep else 'not kept'}{s}", lambda k=k, st=st, keep=keep: run_unit("eval", k, st, prop, keep=keep),
                      ["eval"], 5, bounded=rows + str(k))
    return out
