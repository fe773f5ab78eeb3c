"""Contracts of ruleskit/thresholds.py and of the flagging of rules (C14)."""
import itertools
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import nparr as NA
from nparr import FA
import fakes
import c_rule as CR
from c_rule import RW, put, fresh_float, num, snap, unchanged, USES
from c_activation import guarded, must_raise, length, ghost_of, frozen

QS = ("min", "max", "equal", "different")
SUBSETS = [s for k in range(0, 5) for s in itertools.combinations(QS, k)]
ARGS = {"abs": abs, "sqrt": fakes.m_sqrt, "exp": fakes.m_exp, "log": fakes.m_log}


def breaks(v, L):
    """the known number v breaks one of the limits L (kind -> number)"""
    t = {"min": lambda b: f_lt(v, b), "max": lambda b: f_lt(b, v),
         "equal": lambda b: z3.Not(f_eq(v, b)), "different": lambda b: f_eq(v, b)}
    return z3.Or(*[t[q](fv(b)) for q, b in L.items()] or [z3.BoolVal(False)])


def f_lt(a, b):
    r = a < b
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


def f_eq(a, b):
    r = a == b
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


def new_thresholds(W, limits):
    m = W.c.world.get("ruleskit.thresholds")
    t = object.__new__(m.Thresholds)
    object.__setattr__(t, "limits", limits)
    object.__setattr__(t, "path", None)
    return t


def known_float(c, label):
    return FV(z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), c.real(label))


def call_unit(subset, arg, named, vkind):
    """Thresholds.__call__ on one attribute"""
    def unit(c):
        W = RW(c)
        rule = CR.fitted_reg(c, W)
        attr = "prediction"
        if vkind == "none":
            v = None
        elif vkind == "integer":
            v = SInt(c.int("v"))
        else:
            v = fresh_float(c, "v", nan="equal" not in subset)
        put(rule, "_prediction", v)
        names = ("std", "zscore", "train_set_size", "criterion")
        lim, L = {}, {}
        for k, q in enumerate(subset):
            if named and (k % 2 == 0 or named in ("all", "unknown")):
                lim[q] = names[k]
                if named == "unknown" and k < 2:
                    put(rule, "_" + names[k], None)
                    continue
                x = known_float(c, "lim") if names[k] != "train_set_size" else SInt(c.int("lim"), np=named == "unknown")
                put(rule, "_" + names[k], x)
            else:
                x = known_float(c, "lim") if k % 2 else SInt(c.int("lim"))
                lim[q] = x
            L[q] = fv(x)
        if arg:
            lim["arg"] = arg
        t = new_thresholds(W, {attr: lim})
        if arg in ("sqrt", "log") and v is not None:
            c.assume(z3.And(fv(v).fin, fv(v).val > 0))
        before = snap(rule)
        lim0 = dict(lim)
        for key, exp in ((attr, True), ("zscore", False)):
            ok, r = guarded(c, "checking a limit", lambda: t(key, rule))
            c.reach("returned " + key)
            b = tbool(r)
            if b is None:
                c.prove("checking a limit answers yes or no", False)
                raise PathEnd()
            if not exp or v is None:
                c.prove("an attribute without a limit or without a value is accepted", b)
            else:
                w = fv(v) if not arg else fv(ARGS[arg](v))
                c.prove("a value is accepted exactly when it respects its limits", b == z3.Not(breaks(w, L)))
        unchanged(c, rule, before, "checking a limit")
        c.prove("checking a limit keeps the limits", list(t.limits) == [attr] and dict_same(t.limits[attr], lim0))
    return unit


def dict_same(a, b):
    return isinstance(a, dict) and list(a) == list(b) and all(a[k] is b[k] or (isinstance(a[k], (str, float, int)) and a[k] == b[k]) for k in a)


def unknown_arg_unit():
    def unit(c):
        W = RW(c)
        rule = CR.fitted_reg(c, W)
        t = new_thresholds(W, {"prediction": {"min": known_float(c, "lim"), "arg": "cosh"}})
        must_raise(c, "an unknown transformation", lambda: t("prediction", rule))
    return unit


class PathLike:
    """a path whose file holds a table of limits"""
    _vc_frozen = True

    def __init__(self, limits, exists):
        self.limits, self.exists = limits, exists

    def is_file(self):
        return self.exists


class Readable(PathLike):
    def read(self):
        return self.limits


def init_unit(case, readable, exists=True):
    def unit(c):
        W = RW(c)
        m = W.c.world.get("ruleskit.thresholds")
        lim = {"prediction": {"max": known_float(c, "m")}}
        if case == "coverage without minimum":
            lim["coverage"] = {"max": known_float(c, "x")}
        elif case == "coverage with minimum":
            lim["coverage"] = {"min": known_float(c, "x")}
        ref = {k: dict(v) for k, v in lim.items()}
        p = (Readable if readable else PathLike)(lim, exists)
        if not readable:
            # contract of open and json.load: the table stored in the file (trusted)
            class F:
                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False

            def v_open(q, *a, **k):
                if q is not p:
                    raise Unsupported("open")
                return F()
            m.open, m.load = v_open, (lambda f: lim)
        ok, t = guarded(c, "reading limits", lambda: m.Thresholds(p))
        c.reach("returned")
        if not exists:
            c.prove("without a file there is no limit", dict_same(t.limits, {}))
            return
        if case == "no coverage":
            ref["coverage"] = {"min": 0.05}
        elif case == "coverage without minimum":
            ref["coverage"]["min"] = 0.05
        c.prove("the limits are those of the file, with a minimal coverage of 5% by default",
                list(sorted(t.limits)) == sorted(ref) and all(sorted(t.limits[k]) == sorted(ref[k]) and
                                                              all(t.limits[k][q] is ref[k][q] or t.limits[k][q] == ref[k][q] for q in ref[k])
                                                              for k in ref))
    return unit


LIM_SETS = {"coverage": ("coverage",), "prediction": ("prediction",), "std": ("std",), "zscore": ("zscore",), "train size": ("train_set_size",),
            "coverage and prediction": ("coverage", "prediction"), "std and train size": ("std", "train_set_size"), "criterion": ("criterion",)}


def mk_limits(c, attrs, qs=("min", "max")):
    lim = {}
    for a in attrs:
        d = {}
        for q in qs:
            d[q] = known_float(c, f"{a}_{q}")
        lim[a] = d
    return lim


def value_of(rule, a):
    return getattr(rule, a)


def offends(rule, limits):
    """one of the limited attributes of the rule has a known value out of its limits (in its present state)"""
    out = [z3.BoolVal(False)]
    for a, lim in limits.items():
        v = value_of(rule, a)
        if v is None:
            continue
        v = num(v)
        out.append(z3.And(z3.Not(v.nan), breaks(v, {q: fv(x) for q, x in lim.items()})))
    return z3.Or(*out)


def install(c, W, rule, lims, whose):
    own, glob = None, None
    if whose in ("own", "own over global"):
        own = lims
    if whose == "global":
        glob = lims
    if whose == "own over global":
        glob = mk_limits(c, ("coverage", "prediction", "zscore"), ("min",))
    if own is not None:
        put(rule, "_thresholds", new_thresholds(W, own))
    if glob is not None:
        W.Rule.THRESHOLDS = new_thresholds(W, glob)
    return lims if whose != "none" else {}


def any_number(c, label):
    return lambda *a, **k: fresh_float(c, label)


def abstract_statistics(c, W):
    """the statistics return some number (their values are the subject of C08, C09 and C17)"""
    for nm in ("conditional_mean", "conditional_std", "calc_regression_criterion"):
        if hasattr(W.fn, nm):
            setattr(W.fn, nm, any_number(c, nm))
    for m in (W.fn, W.m):
        if hasattr(m, "calc_zscore_external"):
            m.calc_zscore_external = any_number(c, "zscore")


def flag_fit_unit(attrs, whose, force=False):
    def unit(c):
        W = RW(c)
        abstract_statistics(c, W)
        rule = W.Reg(W.cond())
        xs = W.features("array")
        y, Y = W.targets(xs.n, "array")
        L = install(c, W, rule, mk_limits(c, attrs), whose)
        ok, _ = guarded(c, "fitting a rule", lambda: rule.fit(y=y, xs=xs, force_if_not_good=force))
        c.reach("returned")
        flag(c, rule, L, "a fitted rule")
    return unit


def flag(c, rule, L, what):
    t = tbool(rule.good)
    if t is None:
        c.prove(f"{what} has a flag", False)
        raise PathEnd()
    c.prove(f"{what} is flagged bad exactly when it breaks a limit", z3.Not(t) == offends(rule, L))


def flag_eval_unit(attrs, whose, recompute=False):
    def unit(c):
        W = RW(c)
        abstract_statistics(c, W)
        rule = CR.fitted_reg(c, W)
        xs = W.features("array")
        y, Y = W.targets(xs.n, "array", missing=False)
        L = install(c, W, rule, mk_limits(c, attrs), whose)
        c.assume(z3.Not(offends(rule, {a: l for a, l in L.items() if a != "criterion"})))     # a rule fitted under these limits
        ok, _ = guarded(c, "evaluating a rule", lambda: rule.eval(y=y, xs=xs, recompute_activation=recompute))
        c.reach("returned")
        flag(c, rule, L, "an evaluated rule")
    return unit


def check_unit(attr, whose):
    """check_thresholds: one attribute, or all of them"""
    def unit(c):
        W = RW(c)
        rule = CR.fitted_reg(c, W)
        L = install(c, W, rule, mk_limits(c, ("coverage", "prediction", "std"), ("min", "max")), whose)
        before = snap(rule)
        ok, _ = guarded(c, "checking the limits", lambda: rule.check_thresholds(attr) if attr else rule.check_thresholds())
        c.reach("returned")
        t = tbool(rule.good)
        M = {a: l for a, l in L.items() if attr is None or a == attr}
        c.prove("checking the limits flags exactly the rules that break one", z3.Not(t) == offends(rule, M))
        unchanged(c, rule, before, "checking the limits", ("_good", "_bad_because", "_coverage"))
    return unit


def units(prop):
    from main import Unit
    out = []
    if prop != "C14":
        return out
    T_, R_ = "ruleskit/thresholds.py: ", "ruleskit/rule.py: "
    for s in SUBSETS:
        out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s) or 'none'}", lambda s=s: call_unit(s, None, None, "float"), [T_ + "Thresholds.__call__"], 2))
    for s in (("min",), ("max", "different"), ("equal",), ("min", "max", "equal", "different")):
        out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s)} by name", lambda s=s: call_unit(s, None, "all", "float"), [T_ + "Thresholds.__call__"], 2))
        out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s)} by name, some unknown", lambda s=s: call_unit(s, None, "unknown", "float"), [T_ + "Thresholds.__call__"], 2))
        out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s)}, integer, some by name", lambda s=s: call_unit(s, None, "some", "integer"), [T_ + "Thresholds.__call__"], 2))
        out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s)}, no value", lambda s=s: call_unit(s, None, None, "none"), [T_ + "Thresholds.__call__"], 2))
        for a in ARGS:
            out.append(Unit(f"Thresholds.__call__, limits {'+'.join(s)} of {a}", lambda s=s, a=a: call_unit(s, a, None, "float"), [T_ + "Thresholds.__call__"], 2))
    out.append(Unit("Thresholds.__call__, unknown transformation", unknown_arg_unit, [T_ + "Thresholds.__call__"], 1))
    for case in ("no coverage", "coverage without minimum", "coverage with minimum"):
        for rd in (True, False):
            out.append(Unit(f"Thresholds.__init__, {case}, {'readable path' if rd else 'file'}", lambda case=case, rd=rd: init_unit(case, rd),
                            [T_ + "Thresholds.__init__"], 1, assumptions=("json.load gives the table stored in the file",)))
    out.append(Unit("Thresholds.__init__, no file", lambda: init_unit("no coverage", False, False), [T_ + "Thresholds.__init__"], 1))
    cf = [R_ + "Rule.check_thresholds", R_ + "Rule.thresholds", R_ + "Rule.good"]
    for w in ("own", "global", "own over global", "none"):
        for a in (None, "prediction", "coverage"):
            out.append(Unit(f"Rule.check_thresholds({a or ''}), limits {w}", lambda a=a, w=w: check_unit(a, w), cf, 2, assumptions=USES))
        for nm in (LIM_SETS if w in ("own", "global") else ("coverage and prediction",)):
            if nm == "criterion":
                continue
            out.append(Unit(f"Rule.fit flags, limits {w} on {nm}", lambda nm=nm, w=w: flag_fit_unit(LIM_SETS[nm], w), cf + [R_ + "Rule.fit"], 3, assumptions=USES))
        for nm in ("criterion", "coverage and prediction"):
            for rec in (False, True):
                out.append(Unit(f"Rule.eval flags, limits {w} on {nm}, activations {'kept' if rec else 'not kept'}",
                                lambda nm=nm, w=w, rec=rec: flag_eval_unit(LIM_SETS[nm], w, rec), cf + [R_ + "Rule.eval"], 3, assumptions=USES))
    out.append(Unit("Rule.fit flags, forced, limits own", lambda: flag_fit_unit(("coverage", "std"), "own", True), cf + [R_ + "Rule.fit"], 3, assumptions=USES))
    return out
