"""Contracts of ruleskit/rule.py (and the functions of utils/rfunctions.py a rule calls).

Ghost state of a rule: its condition's region, given by E(xs), the 0/1 vector of the rows of xs that meet it, and the vector V of
its stored activation.  Activation and condition are used through their contracts (verified under C01-C07)."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import nparr as NA
from nparr import FA, Mat
import fakes
import loader
import c_activation as CA
import c_condition as CC
from c_activation import Ghost, guarded, must_raise, length, ghost_of, frozen, vec_is
from pdfake import FeatFrame, VIndex

USES = ("Activation's readers, constructor and operators are used through their contracts (discharged under C01, C02, C03, C04)",
        "HyperrectangleCondition.evaluate is used through its contract (discharged under C05)")


class RW:
    """the repository's modules with Activation and HyperrectangleCondition replaced by their contracts"""

    def __init__(self, c, mods=("ruleskit.rule",), ruleset=False):
        self.c = c
        w = loader.World(fakes)
        c.fs = fakes.FS(c)
        c.world = w
        for m in mods:
            w.get(m)
        self.m = w.get("ruleskit.rule")
        self.A = w.get("ruleskit.activation").Activation
        self.H = w.get("ruleskit.condition").HyperrectangleCondition
        self.fn = w.get("ruleskit.utils.rfunctions")
        self.Reg, self.Cla, self.Rule = self.m.RegressionRule, self.m.ClassificationRule, self.m.Rule
        CA.contract_readers(c, self.A)
        CA.contract_ctor(c, self.A)
        CA.contract_ops(c, self.A)
        self.contract_act()
        self.contract_cond()
        self.evals = {}
        self.inputs = []

    def contract_act(self):
        c, A = self.c, self.A

        def get_correlation(self, other):
            g, h = ghost_of(self), ghost_of(other)
            if not g.n.eq(h.n) and not c.fork(g.n == h.n):
                raise fakes.deliberate(ValueError("Both vectors must have the same length"))
            k = get_enum(g.n, lambda i: s_(g.V(i) == h.V(i))).m
            return f_div(fv(SInt(k)), fv(SInt(g.n)))

        def __contains__(self, other):
            g, h = ghost_of(self), ghost_of(other)
            if not g.n.eq(h.n) and not c.fork(g.n == h.n):
                raise fakes.deliberate(ValueError("Activations have different lengths."))
            b = c.bool("contained")
            c.assume(b == FA(z3.IntVal(0), g.n, lambda i: z3.Implies(h.V(i), g.V(i))))
            return c.fork(b)
        A.get_correlation, A.__contains__ = get_correlation, __contains__

        if "__bool__" not in A.__dict__:        # truth value of an object with a length
            A.__bool__ = lambda self: c.fork(ghost_of(self).n != 0)

        def delete(self):
            c.memo.setdefault("deleted", []).append(self)
        A.delete = delete

    def contract_cond(self):
        c, H, me = self.c, self.H, self

        def evaluate(self, xs):
            g = me.E(self, xs)
            return Arr(g.n, lambda i: b2i(g.V(i)), "i", NA.INT64, (0, 1))
        H.evaluate = evaluate

    def E(self, cond, xs):
        """the rows of xs that meet the condition"""
        cond = object.__getattribute__(cond, "__dict__").get("_vc_twin", cond)
        k = (id(cond), id(xs))
        if k not in self.evals:
            if not isinstance(xs, (Mat, FeatFrame)):
                raise Unsupported("condition evaluated on " + type(xs).__name__)
            self.evals[k] = (Ghost(self.c, xs.n, label="E"), cond, xs)
        return self.evals[k][0]

    # ---------------------------------------------------------------- objects
    def cond(self, label=""):
        box = CC.Box(self.c, label)
        box.distinct()
        o = CC.mk(self.c, self.H, box)
        return o

    def act(self, n=None, label="V"):
        g = Ghost(self.c, n, label=label)
        return CA.mk(self.c, self.A, g, "any")

    def features(self, kind="array", lo=1, label=""):
        c = self.c
        n = length(c, "n" + label, lo)
        m = length(c, "m" + label, 1)
        f = fresh_cells(c, "x" + label, 2)
        if kind == "array":
            xs = Mat(n, m, f, "f", NA.FLOAT)
            orig = xs.f
            self.inputs.append(lambda: z3.BoolVal(xs.f is orig))
            return xs
        nm = c.fun("colname", I, StrSort)
        wh = c.fun("colpos", StrSort, I)
        i = z3.Int(c.name("cn"))
        c.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), wh(nm(i)) == i), patterns=[nm(i)]))
        return FeatFrame(n, m, lambda j: nm(j), lambda t, r: f(r, wh(t)), lambda t: wh(t))

    def targets(self, n, kind="array", missing=True, label="y", inf=False):
        c = self.c
        f = fresh_cells(c, label, 1, nan=missing, inf=inf)
        if kind in ("array", "series"):
            y = Arr(n, f, "f", NA.FLOAT)
            if kind == "series":
                y.is_series, y.index = True, VIndex(n, False, "rows of " + label)
        elif kind == "int array":
            g = c.fun(label, I, I)
            y = Arr(n, lambda i: g(i), "i", NA.INT64)
            f = lambda i: freal(z3.ToReal(g(i)))
        f0 = y.f
        self.inputs.append(lambda: z3.BoolVal(True) if y.f is f0 else
                           FA(z3.IntVal(0), n, lambda i: f_same(NA.cast_cell(y.f(i), y.kind, "f"), NA.cast_cell(f0(i), y.kind, "f"))))
        return y, f

    def unmodified(self, what):
        self.c.prove(what + " does not modify the features and targets", z3.And(*[p() for p in self.inputs] or [z3.BoolVal(True)]))


def fresh_cells(c, label, arity, nan=True, inf=True):
    ss = [I] * arity
    v = c.fun(label, *ss, R)
    F = z3.BoolVal(False)
    q = c.fun(label + "_nan", *ss, B) if nan else None
    p = c.fun(label + "_pinf", *ss, B) if inf else None
    m = c.fun(label + "_ninf", *ss, B) if inf else None

    def f(*a):
        x = q(*a) if nan else F
        y = z3.And(p(*a), z3.Not(x)) if inf else F
        z = z3.And(m(*a), z3.Not(x), z3.Not(y)) if inf else F
        return FV(x, y, z, v(*a))
    return f


def num(x):
    """a number (or None, which reads as missing)"""
    if x is None:
        return None
    if not is_num(x):
        raise Unsupported(f"number expected, got {type(x).__name__}")
    return fv(x)


def same_value(x, t):
    """x is the number t (both may be missing)"""
    v = num(x)
    if v is None:
        return z3.BoolVal(False)
    return f_same(v, t)


# ------------------------------------------------------------------------------------------------ the formulas
def cnt(n, P):
    """number of rows with P"""
    if z3.is_true(z3.simplify(P(z3.Int("cnt_i")))):
        return n
    return get_enum(n, lambda i: s_(P(i))).m


def sel_mean(n, P, y):
    """(mean of y over the rows i with P(i), number of them), y finite there"""
    k = cnt(n, P)
    s = get_sum(n, lambda i: z3.If(P(i), y(i).val, z3.RealVal(0)))
    return f_div(freal(s), fv(SInt(k))), k


def sel_std(n, P, y, ddof):
    m, k = sel_mean(n, P, y)
    s = get_sum(n, lambda i: z3.If(P(i), (y(i).val - m.val) * (y(i).val - m.val), z3.RealVal(0)))
    return NA.fsqrt(f_div(freal(s), fv(SInt(z3.simplify(k - ddof))))), k


def known(V, y):
    return lambda i: z3.And(V(i), z3.Not(y(i).nan))


# ------------------------------------------------------------------------------------------------ C08
def fit_unit(ykind, xkind):
    def unit(c):
        W = RW(c)
        cond = W.cond()
        xs = W.features(xkind)
        y, Y = W.targets(xs.n, ykind)
        rule = W.Reg(cond)
        h = c.int("horizon")
        c.assume(h >= 1)
        ok, r = guarded(c, "fitting a rule", lambda: rule.fit(y=y, xs=xs, horizon=SInt(h)))
        c.reach("returned")
        check_fit(c, W, rule, cond, xs, Y, h, "fitted")
        W.unmodified("fitting")
        frozen(c, "fitting")
    return unit


def check_fit(c, W, rule, cond, xs, Y, h, what):
    n = xs.n
    g = W.E(cond, xs)
    a = rule._activation
    if a is None:
        c.prove(f"{what}: there is an activation", False)
        raise PathEnd()
    c.prove(f"{what}: the activation is the condition evaluated on the features", vec_is(a, n, g.V))
    c.prove(f"{what}: the condition is the rule's", rule._condition is cond)
    check_stats(c, rule, n, g.V, Y, h, what)
    c.prove(f"{what}: coverage is the fraction of activated rows",
            same_value(rule.coverage, f_div(fv(SInt(g.ones.m)), fv(SInt(n)))))


def check_stats(c, rule, n, V, Y, h, what):
    P = known(V, Y)
    m, k = sel_mean(n, P, Y)
    pred = num(rule.prediction)
    if pred is None:
        c.prove(f"{what}: there is a prediction", False)
        raise PathEnd()
    c.prove(f"{what}: the prediction is the mean of the known activated targets",
            z3.If(k > 0, f_same(pred, m), pred.nan))
    sd, k = sel_std(n, P, Y, 1)
    if c.fork(k >= 2):
        c.prove(f"{what}: the standard deviation is that of the known activated targets", same_value(rule.std, sd))
    s = rule.sign
    if not isinstance(s, str):
        c.prove(f"{what}: the sign is '+' or '-'", False)
    else:
        c.prove(f"{what}: the sign is '-' exactly for negative predictions", z3.BoolVal(s == "-") == z3.And(k > 0, m.val < 0))
        c.prove(f"{what}: the sign is '+' or '-'", s in ("+", "-"))
    c.prove(f"{what}: the train size is the number of targets", same_value(rule.train_set_size, fv(SInt(n))))
    ones = get_enum(n, lambda i: s_(V(i))).m
    if c.fork(k > 0):
        sdy, _ = sel_std(n, lambda i: z3.Not(Y(i).nan), Y, 0)
        my, _ = sel_mean(n, lambda i: z3.Not(Y(i).nan), Y)
        z = f_div(abs(m - my), f_mul(NA.fsqrt(f_div(fv(SInt(h)), fv(SInt(ones)))), sdy))
        if c.fork(sdy.val > 0):
            c.prove(f"{what}: the z-score follows its formula", same_value(rule.zscore, z))


# ------------------------------------------------------------------------------------------------ frames
SKIP = ("_time_", "_vc_")


def snap(rule):
    """the fields of a rule (profiling times aside) and the vector of its activation"""
    d = {k: v for k, v in object.__getattribute__(rule, "__dict__").items() if not k.startswith(SKIP)}
    a = d.get("_activation")
    return d, (None if a is None else ghost_of(a))


def value_same(a, b):
    if a is b:
        return z3.BoolVal(True)
    if a is None or b is None:
        return z3.BoolVal(False)
    if is_num(a) and is_num(b):
        return f_same(fv(a), fv(b))
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return tstr(a) == tstr(b)
    if isinstance(a, (str, Str)) != isinstance(b, (str, Str)) and (is_num(a) or is_num(b)):
        return z3.BoolVal(False)
    raise Unsupported("comparison of field values")


def unchanged(c, rule, before, what, but=()):
    d0, g0 = before
    d1, g1 = snap(rule)
    for k in sorted(set(d0) | set(d1)):
        if k in but or k == "_activation":
            continue
        if k not in d0 or k not in d1:
            raise Unsupported(f"field {k} of the rule appears or disappears")
        c.prove(f"{what}: {k.strip('_')} is unchanged", value_same(d0[k], d1[k]))
    if "_activation" not in but:
        if (g0 is None) != (g1 is None):
            c.prove(f"{what}: the activation is unchanged", False)
        elif g0 is not None:
            c.prove(f"{what}: the activation is unchanged", z3.And(g0.n == g1.n, FA(z3.IntVal(0), g0.n, lambda i: g0.V(i) == g1.V(i))))
            c.prove(f"{what}: the activation's data are kept", not any(x is rule._activation for x in c.memo.get("deleted", ())))


def put(o, k, v):
    object.__setattr__(o, k, v)


def some_prediction(c, kind):
    if kind == "number":
        return fresh_float(c, "pred", inf=False)
    if kind == "integer":
        return SInt(c.int("pred"))
    return Str(z3.Const(c.name("pred"), StrSort))


def fitted_reg(c, W, n=None, label="", pred=None, none=False):
    """an arbitrary fitted regression rule"""
    r = W.Reg(W.cond(label), W.act(n, "V" + label))
    put(r, "_prediction", pred if pred is not None else fresh_float(c, "pred" + label, inf=False))
    put(r, "_std", fresh_float(c, "std" + label, inf=False))
    put(r, "_zscore", fresh_float(c, "z" + label))
    put(r, "_sign", "+" if c.choose(2) == 0 else "-")
    put(r, "_train_set_size", SInt(c.int("train" + label)))
    put(r, "_criterion", fresh_float(c, "crit" + label))
    put(r, "_coverage", fresh_float(c, "cov" + label))
    put(r, "_fitted", True)
    return r


# ------------------------------------------------------------------------------------------------ C10
def predict_unit(kind, xkind):
    def unit(c):
        W = RW(c)
        p = some_prediction(c, kind)
        cls = W.Cla if kind in ("text", "integer") else W.Reg
        rule = cls(W.cond(), W.act() if xkind != "none" and c.choose(2) == 0 or xkind == "none" else None)
        put(rule, "_prediction", p)
        if kind == "text":
            c.assume(p.t != tstr("nan"))
        xs = None if xkind == "none" else W.features(xkind)
        g = ghost_of(rule._activation) if xs is None else W.E(rule._condition, xs)
        before = snap(rule)
        ok, r = guarded(c, "predicting", lambda: rule.predict(xs) if xs is not None else rule.predict())
        c.reach("returned")
        if not isinstance(r, Arr):
            c.prove("predict returns a vector", False)
            raise PathEnd()
        c.prove("predict returns one entry per row", r.n == g.n)
        if kind == "text":
            if r.kind != "t":
                c.prove("predict returns texts", False)
                raise PathEnd()
            nan = tstr("nan")
            miss = lambda i: z3.Or(r.f(i).nan, r.f(i).t == nan)
            c.prove("predict: activated rows get the prediction", FA(z3.IntVal(0), g.n, lambda i: z3.Implies(g.V(i), r.f(i).eq(p))))
            c.prove("predict: other rows are missing ('nan')", FA(z3.IntVal(0), g.n, lambda i: z3.Implies(z3.Not(g.V(i)), miss(i))))
        else:
            v = fv(p)
            cell = lambda i: NA.cast_cell(r.f(i), r.kind, "f")
            c.prove("predict: activated rows get the prediction", FA(z3.IntVal(0), g.n, lambda i: z3.Implies(g.V(i), f_same(cell(i), v))))
            c.prove("predict: other rows are missing", FA(z3.IntVal(0), g.n, lambda i: z3.Implies(z3.Not(g.V(i)), cell(i).nan)))
        if xkind == "table":
            c.prove("predict on a table returns a series with its index", z3.BoolVal(r.is_series and r.index is not None and r.index.same(xs.ix)))
        else:
            c.prove("predict returns an array", not r.is_series)
        unchanged(c, rule, before, "predict")
        W.unmodified("predict")
        frozen(c, "predict")
    return unit


def predict_none_unit():
    def unit(c):
        W = RW(c)
        rule = W.Reg(W.cond())
        put(rule, "_prediction", some_prediction(c, "number"))
        must_raise(c, "predicting with neither activation nor features", lambda: rule.predict())
    return unit


# ------------------------------------------------------------------------------------------------ C02, C04, C06, C07 (rules)
def rule_corr_unit(same):
    def unit(c):
        W = RW(c)
        a = fitted_reg(c, W, label="1")
        b = fitted_reg(c, W, n=ghost_of(a._activation).n if same else None, label="2")
        g, h = ghost_of(a._activation), ghost_of(b._activation)
        p, q = fv(a._prediction), fv(b._prediction)
        for x in (p, q):
            c.assume(z3.And(x.fin, x.val != 0))
        if not same:
            c.assume(g.n != h.n)
            must_raise(c, "correlation of rules of different lengths", lambda: a.get_correlation(b))
            return
        s0, s1 = snap(a), snap(b)
        ok, r = guarded(c, "correlation of two rules", lambda: a.get_correlation(b))
        c.reach("returned")
        k = get_enum(g.n, lambda i: s_(g.V(i) == h.V(i))).m
        f = f_div(fv(SInt(k)), fv(SInt(g.n)))
        neg = (p.val < 0) != (q.val < 0)
        c.prove("correlation of two rules is the signed fraction of agreeing points",
                z3.If(neg, f_same(fv(r), f_neg(f)), f_same(fv(r), f)))
        unchanged(c, a, s0, "correlation")
        unchanged(c, b, s1, "correlation (other)")
    return unit


def rule_contains_unit(case):
    def unit(c):
        W = RW(c)
        a1 = W.act(label="V")
        a2 = W.act(ghost_of(a1).n, label="W")
        a = W.Reg(W.cond("1"), a1 if case != "no container" else None)
        b = W.Reg(W.cond("2"), a2 if case != "no contained" else None)
        s0, s1 = snap(a), snap(b)
        ok, r = guarded(c, "containment of rules", lambda: W.Reg.__contains__(a, b))
        c.reach("returned")
        t = tbool(r)
        if t is None:
            raise Unsupported("result of containment")
        g, h = ghost_of(a1), ghost_of(a2)
        if case == "both":
            c.prove("a rule is contained exactly when its activation is", t == FA(z3.IntVal(0), g.n, lambda i: z3.Implies(h.V(i), g.V(i))))
        else:
            c.prove("a rule is not contained when an activation is missing", z3.Not(t))
        unchanged(c, a, s0, "containment")
        unchanged(c, b, s1, "containment (contained)")
    return unit


def rule_and_unit():
    def unit(c):
        W = RW(c)
        seen = []

        def cand(self, other):
            r = object.__new__(W.H)
            for k, v in object.__getattribute__(self, "__dict__").items():
                object.__setattr__(r, k, v)
            object.__setattr__(r, "_vc_and", (self, other))
            return r
        W.H.__and__ = cand
        a1 = W.act(label="V")
        a2 = W.act(ghost_of(a1).n, label="W")
        cls = (W.Reg, W.Cla)[c.choose(2)]
        a, b = cls(W.cond("1"), a1), cls(W.cond("2"), a2)
        s0, s1 = snap(a), snap(b)
        ok, r = guarded(c, "conjunction of rules", lambda: a & b)
        c.reach("returned")
        if not isinstance(r, cls):
            c.prove("the conjunction of two rules is a rule of their type", False)
            raise PathEnd()
        w = object.__getattribute__(r._condition, "__dict__").get("_vc_and") if r._condition is not None else None
        c.prove("the conjunction of rules has the conjunction of their conditions",
                w is not None and {id(w[0]), id(w[1])} == {id(a._condition), id(b._condition)})
        g, h = ghost_of(a1), ghost_of(a2)
        if r._activation is None:
            c.prove("the conjunction of rules has the pointwise AND of their activations", False)
        else:
            c.prove("the conjunction of rules has the pointwise AND of their activations", vec_is(r._activation, g.n, lambda i: z3.And(g.V(i), h.V(i))))
        unchanged(c, a, s0, "conjunction of rules")
        unchanged(c, b, s1, "conjunction of rules (other)")
    return unit


def rule_eq_unit(what):
    def unit(c):
        W = RW(c)
        a, b = W.Reg(W.cond("1")), W.Reg(W.cond("2"))
        put(a, "_prediction", some_prediction(c, "number"))
        put(b, "_prediction", some_prediction(c, "number"))
        b1, b2 = a._condition._vc_box, b._condition._vc_box
        same = CC.same_region(b1, b2)
        if what == "eq":
            ok, r = guarded(c, "comparing rules", lambda: W.Reg.__eq__(a, b))
            t = tbool(r)
            if t is None:
                raise Unsupported("result of ==")
            c.reach("returned")
            c.prove("rules are equal exactly when their conditions have the same (name, minimum, maximum) triples", t == same)
        else:
            c.assume(same)
            ok, h = guarded(c, "hash of a rule", lambda: (fakes.v_hash(a), fakes.v_hash(b)))
            c.reach("returned")
            c.prove("equal rules have equal hashes", ti(h[0]) == ti(h[1]))
    return unit


# ------------------------------------------------------------------------------------------------ C17
METHODS = ("mse", "mse_norm", "mae", "mae_norm", "aae", None)


def criterion_formula(c, method, n, P, Y, pred):
    """over the rows with P: pred(i), Y(i) finite"""
    e = (lambda i: pred(i).val - Y(i).val)
    k = cnt(n, P)
    ab = lambda t: z3.If(t >= 0, t, -t)
    N = fv(SInt(n))
    tot = lambda f: freal(get_sum(n, f))
    msq = f_div(tot(lambda i: z3.If(P(i), e(i) * e(i), z3.RealVal(0))), fv(SInt(k)))
    mab = f_div(tot(lambda i: z3.If(P(i), ab(e(i)), z3.RealVal(0))), fv(SInt(k)))
    my = f_div(tot(lambda i: Y(i).val), N)
    if method in ("mse_norm", None):
        return f_div(msq, f_div(tot(lambda i: (my.val - Y(i).val) * (my.val - Y(i).val)), N))
    if method == "mse":
        return msq
    if method == "mae":
        return mab
    if method == "mae_norm":
        return f_div(mab, f_div(tot(lambda i: ab(my.val - Y(i).val)), N))
    med = fakes.np_median(Arr(n, Y, "f", NA.FLOAT))
    return f_div(mab, f_div(tot(lambda i: ab(Y(i).val - med.val)), N))


def criterion_unit(method, ykind, of):
    def unit(c):
        W = RW(c)
        kw = {} if method is None else {"criterion_method": method}
        if of == "function":
            n = length(c, "n", 1)
            y, Y = W.targets(n, ykind, missing=False)
            f = fresh_cells(c, "p", 1, inf=False)
            p = Arr(n, f, "f", NA.FLOAT)
            p.is_series, p.index = True, VIndex(n)
            ok, r = guarded(c, "criterion", lambda: W.fn.calc_regression_criterion(p, y, **kw))
            P = lambda i: z3.Not(f(i).nan)
            pred = f
        else:
            rule = fitted_reg(c, W)
            g = ghost_of(rule._activation)
            n = g.n
            y, Y = W.targets(n, ykind, missing=False)
            pv = rule._prediction
            before = snap(rule)
            ok, _ = guarded(c, "criterion of a rule", lambda: rule.calc_criterion(y, **kw))
            r = rule.criterion
            P = lambda i: z3.And(g.V(i), z3.Not(pv.nan))
            pred = lambda i: pv
            unchanged(c, rule, before, "computing the criterion", ("_criterion",))
        c.reach("returned")
        k = get_enum(n, lambda i: s_(P(i))).m
        if r is None:
            c.prove("there is a criterion", False)
            raise PathEnd()
        v = num(r)
        if c.fork(k > 0):
            c.prove("the criterion is given by its formula over the known predictions", f_same(v, criterion_formula(c, method, n, P, Y, pred)))
        else:
            c.prove("the criterion is missing when nothing is predicted", v.nan)
        W.unmodified("the criterion")
    return unit


def criterion_bad_unit(case):
    def unit(c):
        W = RW(c)
        n = length(c, "n", 1)
        k = n
        if case == "length":
            k = length(c, "k", 1)
            c.assume(k != n)
        y, Y = W.targets(k, ("array", "series")[c.choose(2)], missing=False)
        f = fresh_cells(c, "p", 1, inf=False)
        p = Arr(n, f, "f", NA.FLOAT)
        p.is_series, p.index = True, VIndex(n)
        if case == "length":
            m = METHODS[c.choose(len(METHODS) - 1)]
            must_raise(c, "criterion of vectors of different lengths", lambda: W.fn.calc_regression_criterion(p, y, criterion_method=m))
        else:
            must_raise(c, "unknown criterion", lambda: W.fn.calc_regression_criterion(p, y, criterion_method="rmse"))
    return unit


# ------------------------------------------------------------------------------------------------ C20 (rules)
def eval_unit(xkind, recompute, kind="regression"):
    def unit(c):
        W = RW(c)
        if kind == "regression":
            rule = fitted_reg(c, W)
        cond = rule._condition
        xs = W.features(xkind)
        y, Y = W.targets(xs.n, "array", missing=False)
        before = snap(rule)
        pv = rule._prediction
        ok, _ = guarded(c, "evaluating a rule", lambda: rule.eval(y=y, xs=xs, recompute_activation=recompute))
        c.reach("returned")
        g = W.E(cond, xs)
        if recompute:
            a = rule._activation
            c.prove("evaluating with the activations kept: the activation is the one on the test data",
                    vec_is(a, g.n, g.V) if a is not None else False)
            unchanged(c, rule, before, "evaluating with the activations kept", ("_criterion", "_evaluated", "_activation", "_coverage", "_test_set_size"))
        else:
            unchanged(c, rule, before, "evaluating", ("_criterion", "_evaluated", "_test_set_size"))
        P = lambda i: z3.And(g.V(i), z3.Not(pv.nan))
        k = get_enum(g.n, lambda i: s_(P(i))).m
        v = num(rule.criterion)
        if v is None:
            c.prove("evaluating sets the criterion", False)
        elif c.fork(k > 0):
            c.prove("evaluating: the criterion is that of the test data",
                    f_same(v, criterion_formula(c, "mse_norm", g.n, P, Y, lambda i: pv)))
        W.unmodified("evaluating")
        frozen(c, "evaluating")
    return unit


# ------------------------------------------------------------------------------------------------ C09
def class_targets(c, W, n, kind):
    """targets without missing entries; Y(i): the value as a term"""
    import classfake
    if kind in ("text", "text series"):
        f = c.fun("y", I, StrSort)
        y = Arr(n, lambda i: TV(z3.BoolVal(False), f(i)), "t", NA.TextDType(None) if kind == "text" else NA.OBJTEXT)
        if kind == "text series":
            y.is_series, y.index = True, VIndex(n, False, "rows of y")
        return y, f
    y, Y = W.targets(n, "array" if kind == "float" else kind, missing=False)
    return y, (lambda i: Y(i).val)


def class_value(v):
    """the value of a class as a term"""
    import classfake
    if v is None or not (is_num(v) or isinstance(v, (Str, str))):
        return None
    return classfake.key_term(v)


def lt_value(a, b):
    if a.sort() == StrSort:
        return tbool(Str(a) < Str(b))
    return a < b


def shares_of(c, n, V, y):
    """the counter of the activated targets (ghost)"""
    import classfake
    k = Arr(n, lambda i: V(i), "b", NA.BOOL, (0, 1))
    return classfake.Counter(fakes.np_extract(k, y))


def class_fit_unit(ykind, xkind, part):
    def unit(c):
        W = RW(c)
        cond = W.cond()
        xs = W.features(xkind)
        y, Y = class_targets(c, W, xs.n, ykind)
        y0 = y.f
        rule = W.Cla(cond)
        g = W.E(cond, xs)
        c.assume(g.ones.m >= 1)
        ok, _ = guarded(c, "fitting a classification rule", lambda: rule.fit(y=y, xs=xs))
        c.reach("returned")
        a = rule._activation
        n = xs.n
        c.prove("fitted: the activation is the condition evaluated on the features", vec_is(a, n, g.V) if a is not None else False)
        C = shares_of(c, n, g.V, y)
        m = g.ones.m
        t = rule._prediction
        if part == "shares":
            if not isinstance(t, Mat):
                raise Unsupported("the table of classes")
            width = z3.simplify(t.m)
            if not (z3.is_int_value(width) and width.as_long() == 2):
                c.prove("fitted: classes with their fractions", False)
                raise PathEnd()
            cls = lambda i: t.f(i, z3.IntVal(0))
            clt = lambda i: class_cell(cls(i), t.kind)
            c.prove("fitted: one row per class", t.n == C.K)
            i, j = c.int("row"), c.int("row2")
            inr = lambda q: z3.And(0 <= q, q < t.n)
            c.prove("fitted: the rows are about distinct classes", z3.Implies(z3.And(inr(i), inr(j), clt(i) == clt(j)), i == j))
            c.prove("fitted: the rows are about classes of activated targets", z3.Implies(inr(i), C.member(clt(i))))
            fr = share_cell(c, t.f(i, z3.IntVal(1)), t.kind)
            want = f_div(fv(SInt(C.cnt(C.kpos(clt(i))))), fv(SInt(m)))
            c.prove("fitted: each class comes with the fraction of activated rows of that class", z3.Implies(inr(i), f_same(fr, want)))
        else:
            ok, p = guarded(c, "reading the prediction", lambda: rule.prediction)
            v = class_value(p)
            if v is None:
                c.prove("fitted: there is a prediction", False)
                raise PathEnd()
            if v.sort() != Y(z3.IntVal(0)).sort():
                c.prove("fitted: the prediction is one of the classes", False)
                raise PathEnd()
            c.prove("fitted: the prediction is one of the classes", C.member(v))
            j = c.int("key")
            kv = class_value(C.key(j))
            inr = z3.And(0 <= j, j < C.K)
            perm_hint(c, C.K, j)
            c.prove("fitted: no class is more frequent than the prediction", z3.Implies(inr, C.cnt(j) <= C.cnt(C.kpos(v))))
            c.prove("fitted: no smaller class is as frequent as the prediction",
                    z3.Implies(z3.And(inr, C.cnt(j) == C.cnt(C.kpos(v))), z3.Not(lt_value(kv, v))))
        c.prove("fitting does not modify the targets", y.f is y0)
        frozen(c, "fitting")
    return unit


def perm_hint(c, n, j):
    """instances at j of the axioms of the sorting permutations of 0..n-1"""
    for n2, _, _, p in c.memo.get("perms", []):
        q = c.memo["perminv"][p.name()]
        c.axiom(z3.Implies(z3.And(0 <= j, j < n2), z3.And(0 <= q(j), q(j) < n2, p(q(j)) == j)))


def class_cell(x, kind):
    return x.t if kind == "t" else NA.cast_cell(x, kind, "f").val


def share_cell(c, x, kind):
    import classfake
    return classfake.read_number(Str(x.t)) if kind == "t" else NA.cast_cell(x, kind, "f")


def fitted_cla(c, W, n=None, label="", pred="integer", act=True):
    r = W.Cla(W.cond(label), W.act(n, "V" + label) if act else None)
    put(r, "_prediction", some_prediction(c, pred))
    put(r, "_train_set_size", SInt(c.int("train" + label)))
    put(r, "_criterion", fresh_float(c, "crit" + label))
    put(r, "_coverage", fresh_float(c, "cov" + label))
    put(r, "_fitted", True)
    return r


def class_criterion(n, V, Y, p):
    k = cnt(n, V)
    good = cnt(n, lambda i: z3.And(V(i), Y(i) == p))
    return f_div(fv(SInt(good)), fv(SInt(k)))


def class_criterion_unit(ykind):
    def unit(c):
        W = RW(c)
        text = ykind.startswith("text")
        rule = fitted_cla(c, W, pred="text" if text else "integer" if ykind == "int array" else "number")
        p = class_value(rule._prediction)
        if not text:
            c.assume(fv(rule._prediction).fin)
        g = ghost_of(rule._activation)
        y, Y = class_targets(c, W, g.n, ykind)
        before = snap(rule)
        c.assume(g.ones.m >= 1)
        ok, _ = guarded(c, "criterion of a classification rule", lambda: rule.calc_criterion(y))
        c.reach("returned")
        v = num(rule.criterion)
        if v is None:
            c.prove("there is a criterion", False)
            raise PathEnd()
        c.prove("the criterion is the fraction of activated rows whose target is the prediction",
                f_same(v, class_criterion(g.n, g.V, Y, p)))
        unchanged(c, rule, before, "computing the criterion", ("_criterion",))
    return unit


def class_eval_unit(xkind, recompute, ykind="text"):
    def unit(c):
        W = RW(c)
        text = ykind.startswith("text")
        rule = fitted_cla(c, W, pred="text" if text else "integer")
        p = class_value(rule._prediction)
        xs = W.features(xkind)
        y, Y = class_targets(c, W, xs.n, ykind)
        before = snap(rule)
        ok, _ = guarded(c, "evaluating a classification rule", lambda: rule.eval(y=y, xs=xs, recompute_activation=recompute))
        c.reach("returned")
        g = W.E(rule._condition, xs)
        if recompute:
            a = rule._activation
            c.prove("evaluating with the activations kept: the activation is the one on the test data",
                    vec_is(a, g.n, g.V) if a is not None else False)
            unchanged(c, rule, before, "evaluating with the activations kept", ("_criterion", "_evaluated", "_activation", "_coverage", "_test_set_size"))
        else:
            unchanged(c, rule, before, "evaluating", ("_criterion", "_evaluated", "_test_set_size"))
        if c.fork(g.ones.m > 0):
            v = num(rule.criterion)
            c.prove("evaluating: the criterion is that of the test data",
                    f_same(v, class_criterion(g.n, g.V, Y, p)) if v is not None else False)
        W.unmodified("evaluating")
        frozen(c, "evaluating")
    return unit


def units(prop):
    from main import Unit
    out = []
    if prop == "C09":
        R_, F_ = "ruleskit/rule.py: ", "ruleskit/utils/rfunctions.py: "
        ff = [R_ + "Rule.fit", R_ + "Rule.calc_activation", R_ + "ClassificationRule.calc_prediction", F_ + "class_probabilities"]
        for yk in ("int array", "float", "text", "text series"):
            for xk in ("array", "table") if yk in ("text", "int array") else ("array",):
                for part in ("shares", "prediction"):
                    out.append(Unit(f"ClassificationRule.fit, features {xk}, targets {yk}: {part}",
                                    lambda yk=yk, xk=xk, part=part: class_fit_unit(yk, xk, part),
                                    ff + ([R_ + "ClassificationRule.prediction"] if part == "prediction" else []), 8, assumptions=USES))
            out.append(Unit(f"ClassificationRule.calc_criterion, targets {yk}", lambda yk=yk: class_criterion_unit(yk),
                            [R_ + "ClassificationRule.calc_criterion", F_ + "calc_classification_criterion", F_ + "success_rate"], 4, assumptions=USES))
    if prop == "C20":
        for xk in ("array", "table"):
            for rec in (False, True):
                for yk in ("int array", "text"):
                    out.append(Unit(f"ClassificationRule.eval, features {xk}, targets {yk}, activations {'kept' if rec else 'not kept'}",
                                    lambda xk=xk, rec=rec, yk=yk: class_eval_unit(xk, rec, yk),
                                    ["ruleskit/rule.py: Rule.eval", "ruleskit/rule.py: ClassificationRule.calc_criterion"], 5, assumptions=USES))
    R_ = "ruleskit/rule.py: "
    F_ = "ruleskit/utils/rfunctions.py: "
    if prop == "C08":
        for xk in ("array", "table"):
            for yk in ("array", "series", "int array"):
                out.append(Unit(f"RegressionRule.fit, features {xk}, targets {yk}", lambda xk=xk, yk=yk: fit_unit(yk, xk),
                                [R_ + "Rule.fit", R_ + "Rule.calc_activation", R_ + "Rule.evaluate_activation", R_ + "Rule.coverage",
                                 R_ + "RegressionRule.calc_prediction", R_ + "RegressionRule.calc_std", R_ + "RegressionRule.calc_sign",
                                 R_ + "RegressionRule.calc_zscore", R_ + "Rule.calc_train_set_size", F_ + "conditional_mean",
                                 F_ + "conditional_std", F_ + "calc_zscore_external"], 10, assumptions=USES))
    pf = [R_ + "Rule.predict", R_ + "Rule.evaluate_activation", R_ + "Rule.activation"]
    if prop == "C10":
        for k in ("number", "integer", "text"):
            for xk in ("none", "array", "table"):
                out.append(Unit(f"Rule.predict, {k}, features {xk}", lambda k=k, xk=xk: predict_unit(k, xk), pf, 3, assumptions=USES))
        out.append(Unit("Rule.predict, nothing to predict on", predict_none_unit, pf, 1))
    if prop == "C02":
        for same in (True, False):
            out.append(Unit(f"Rule.get_correlation, {'same length' if same else 'different lengths'}", lambda same=same: rule_corr_unit(same),
                            [R_ + "Rule.get_correlation"], 2, assumptions=USES))
    if prop == "C04":
        for case in ("both", "no container", "no contained"):
            out.append(Unit(f"Rule.__contains__, {case}", lambda case=case: rule_contains_unit(case), [R_ + "Rule.__contains__"], 2,
                            assumptions=USES))
    if prop == "C06":
        out.append(Unit("Rule.__and__", rule_and_unit, [R_ + "Rule.__and__"], 2, assumptions=USES))
    if prop == "C07":
        for w in ("eq", "hash"):
            out.append(Unit(f"Rule.__{w}__", lambda w=w: rule_eq_unit(w), [R_ + f"Rule.__{w}__", R_ + "Rule.to_hash"], 2, assumptions=USES))
    if prop == "C17":
        cf = [F_ + x for x in ("calc_regression_criterion", "mse_function", "mse_norm", "mae_function", "mae_norm", "aae_function")]
        for m in METHODS:
            for yk in ("array", "series"):
                out.append(Unit(f"calc_regression_criterion, {m or 'default'}, targets {yk}", lambda m=m, yk=yk: criterion_unit(m, yk, "function"),
                                cf, 5))
                out.append(Unit(f"RegressionRule.calc_criterion, {m or 'default'}, targets {yk}", lambda m=m, yk=yk: criterion_unit(m, yk, "rule"),
                                cf + [R_ + "RegressionRule.calc_criterion", R_ + "Rule.calc_prediction_vector"], 5, assumptions=USES))
        for case in ("length", "method"):
            out.append(Unit(f"calc_regression_criterion rejects: {case}", lambda case=case: criterion_bad_unit(case), cf, 2))
    if prop == "C20":
        for xk in ("array", "table"):
            for rec in (False, True):
                out.append(Unit(f"RegressionRule.eval, features {xk}, activations {'kept' if rec else 'not kept'}",
                                lambda xk=xk, rec=rec: eval_unit(xk, rec), [R_ + "Rule.eval", R_ + "RegressionRule.calc_criterion"], 5, assumptions=USES))
    return out
