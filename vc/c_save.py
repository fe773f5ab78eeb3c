"""Contracts of RuleSet.save, to_df, rule_to_series, load and series_to_rule (C15).

A ruleset of fitted and evaluated rules is saved and loaded back by the real code; the file is a table of texts (tablefake.py).
Precondition: text predictions are not empty, are not written like a number and are no Python literal; rules are not named like the
ruleset's own rows.  Number of rules fixed (1, 2); number of features, their names, positions and bounds (infinite ones included),
statistics (missing and infinite ones included), names of rules and activations arbitrary."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import fakes
import c_activation as CA
import c_rule as CR
import c_condition as CC
from c_rule import put, same_value, num
from c_activation import Ghost, guarded, length, ghost_of
from c_ruleset import RSW, RS_USES, Lz
from main import Unit

ROWS = ("ruleset coverage", "ruleset criterion", "ruleset train set size", "ruleset test set size")


class SW(RSW):
    def __init__(self, c):
        self.c = c
        super().__init__(c)

    def contract_label(self):
        pass

    def box(self, u):
        c = self.c
        b = CC.Box(c, str(u))
        b.distinct()
        return CC.mk(c, self.H, b), b

    def contract_names(self):
        """the names of the features of a ruleset (not part of the property)"""
        def traverse(o, tree_types=None):
            if isinstance(o, VList) and o.conc and all(isinstance(x, VList) for x in o.items):
                s = Seq.of([])
                for x in o.items:
                    s = s.concat(x.as_seq())
                return VList(None, s)
            raise Unsupported("traverse")
        if self.c.small is None:
            self.rm.traverse = traverse


def text(c, base):
    t = Str(z3.Const(c.name(base), StrSort))
    c.assume(z3.Function("str_nonempty", StrSort, B)(t.t))
    return t


def same_thing(a, b):
    """the same value: number or text"""
    if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
        return tstr(a) == tstr(b)
    if isinstance(a, SymText) or isinstance(b, SymText):
        if isinstance(a, SymText) and len(a.pieces) == 1 and isinstance(a.pieces[0], Val):
            a = a.pieces[0].v
        if isinstance(b, SymText) and len(b.pieces) == 1 and isinstance(b.pieces[0], Val):
            b = b.pieces[0].v
        if isinstance(a, (str, Str, SymText)) and isinstance(b, (str, Str, SymText)):
            return tbool(a == b)
        return z3.BoolVal(False)
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
        return z3.BoolVal(False)
    x = num(a)
    return z3.BoolVal(False) if x is None else same_value(b, x)


def lists(l):
    if isinstance(l, VList):
        return l.as_seq()
    raise Unsupported("list of a loaded rule")


def save_unit(kind, k, pred="number", named=(), act=True, full=False):
    def f(c):
        W = SW(c)
        stats = [f"{x}{u}" for u in (range(k) if k == 1 else (k - 1,)) for x in ("pred", "std", "z", "crit", "cov")] + ["rscov", "rscrit"]
        if kind != "reg":
            stats = [x for x in stats if x[:3] not in ("std", "pre") and x[0] != "z"]
        odd = None if full else stats[c.choose(len(stats))]

        def fl(x, inf=True):
            """a statistic: any number; in a unit that is not full, at most one is NaN or infinite"""
            return fresh_float(c, x, inf=inf) if odd in (None, x) else fresh_float(c, x, finite=True)
        c.memo["no literals"] = True
        CC.contract_ctor(c, c.world.get("ruleskit.condition"), W.H)
        W.contract_names()
        n = length(c, "n", 1)
        cls = W.Reg if kind == "reg" else W.Cla
        rules, want = [], []
        for u in range(k):
            cond, box = W.box(u)
            r = cls(cond)
            if act:
                put(r, "_activation", CA.mk(c, W.A, Ghost(c, n, label=f"V{u}_"), "any"))
            else:
                put(r, "_coverage", fl(f"cov{u}"))
            if kind == "reg":
                put(r, "_prediction", fl(f"pred{u}"))
                put(r, "_std", fl(f"std{u}"))
                put(r, "_zscore", fl(f"z{u}"))
                put(r, "_sign", ("-", "+")[c.choose(2)] if pred == "number" else None)
            elif pred == "label":
                p = text(c, f"pred{u}")
                for l in ("nan", "inf", "-inf"):
                    c.assume(p.t != tstr(l))
                put(r, "_prediction", p)
            else:
                put(r, "_prediction", CR.some_prediction(c, pred))
            put(r, "_criterion", fl(f"crit{u}"))
            put(r, "_train_set_size", SInt(c.int("train")))
            put(r, "_test_set_size", SInt(c.int("test")))
            put(r, "_fitted", True)
            put(r, "_evaluated", True)
            nm = None
            if u in named:
                nm = text(c, f"name{u}")
                for l in ROWS:
                    c.assume(nm.t != tstr(l))
                put(r, "_name", nm)
            rules.append(r)
            want.append({"box": box, "prediction": r._prediction, "criterion": r._criterion, "std": getattr(r, "_std", None) if kind == "reg" else None,
                         "zscore": r._zscore if kind == "reg" else None, "coverage": r.coverage, "name": nm})
        rs = W.RS()
        put(rs, "_rules", VList(list(rules)))
        put(rs, "_rule_type", cls)
        cov, crit = fl("rscov"), fl("rscrit")
        tr, te = SInt(c.int("rstrain")), SInt(c.int("rstest"))
        put(rs, "_coverage", cov)
        put(rs, "criterion", crit)
        put(rs, "train_set_size", tr)
        put(rs, "test_set_size", te)
        if act:
            gs = [ghost_of(r._activation) for r in rules]
            put(rs, "_activation", CA.mk(c, W.A, Ghost(c, n, lambda i: s_(z3.Or(*[g.V(i) for g in gs]))), "any"))
            cov = fv(rs.ruleset_coverage)
        ok, _ = guarded(c, "saving a ruleset", lambda: rs.save("rules.csv"))
        if not ok:
            return
        for u, (r, w) in enumerate(zip(rules, want)):
            c.prove("saving leaves the rules as they were", z3.And(same_thing(r._prediction, w["prediction"]), same_thing(r._criterion, w["criterion"]),
                                                                    same_thing(r.coverage, w["coverage"])))
            if w["name"] is None:
                w["name"] = r._name
                if w["name"] is None:
                    raise Unsupported("name of a saved rule")
        q = W.RS()
        ok, _ = guarded(c, "loading a ruleset", lambda: q.load("rules.csv"))
        if not ok:
            return
        l = q._rules
        if not isinstance(l, VList) or not l.conc:
            raise Unsupported("rules loaded")
        c.prove("as many rules are loaded as were saved", len(l.items) == len(rules))
        if len(l.items) != len(rules):
            return
        for r, w in zip(l.items, want):
            c.prove("a loaded rule has the type of the saved one", type(r) is cls)
            if type(r) is not cls:
                return
            for a in ("prediction", "coverage", "criterion") + (("std", "zscore") if kind == "reg" else ()):
                c.prove(f"a loaded rule has the {a} of the saved one", same_thing(w[a], getattr(r, a)))
            c.prove("a loaded rule has the name of the saved one", same_thing(w["name"], r._name))
            c.prove("a loaded rule counts as fitted", r._fitted is True)
            cd, w0 = r._condition, w["box"]
            N, X, lo, hi = (lists(getattr(cd, k)) for k in ("_features_names", "_features_indexes", "_bmins", "_bmaxs"))
            c.prove("a loaded rule has as many features as the saved one", z3.And(*[x.n == w0.d for x in (N, X, lo, hi)]))
            i = c.int("feature")

            def at(j):
                return z3.And(0 <= j, j < w0.d, same_thing(Str(w0.N(i)), N.f(j)), same_thing(SInt(w0.X(i)), X.f(j)),
                              same_thing(w0.lo(i), lo.f(j)), same_thing(w0.hi(i), hi.f(j)))
            where = [at(i)] + [at(q(i)) for q in c.memo.get("perminv", {}).values()]
            d = z3.simplify(w0.d)
            if z3.is_int_value(d):
                where = [at(z3.IntVal(j)) for j in range(d.as_long())]
            c.prove("a loaded condition has each feature of the saved one, at its position and with its bounds",
                    z3.Implies(z3.And(0 <= i, i < w0.d), z3.Or(*where)))
        c.prove("the loaded ruleset has the coverage of the saved one", same_thing(cov, q._coverage))
        c.prove("the loaded ruleset has the criterion of the saved one", same_thing(crit, q.criterion))
        c.prove("the loaded ruleset has the train set size of the saved one", same_thing(tr, q.train_set_size))
        c.prove("the loaded ruleset has the test set size of the saved one", same_thing(te, q.test_set_size))
        c.prove("the loaded ruleset is about the type of its rules", q._rule_type is cls)
        c.reach("loaded")
    return f


def units(prop):
    out = []
    if prop != "C15":
        return out
    fns = ["ruleskit.ruleset.RuleSet." + x for x in ("save", "to_df", "rule_to_series", "load", "series_to_rule")]

    def U(name, make, w=5, bounded=None):
        out.append(Unit(name, make, fns, w, bounded=bounded, assumptions=RS_USES))
    for k in (1, 2):
        b = f"any values and features; number of rules {k}"
        for named in ((), (0,)) + (((k - 1,),) if k > 1 else ()):
            nm = f", rule {named[0]} named" if named else ""
            for act in (True, False) if k == 1 else (True,):
                a = "" if act else ", without activation"
                full = k == 1 and not named and not act
                U(f"save and load, {k} regression rules{nm}{a}", lambda k=k, named=named, act=act, full=full: save_unit("reg", k, "number", named, act, full), 4 + 3 * k, b)
                for p in ("integer", "number", "label"):
                    if k > 2 and p == "integer":
                        continue
                    U(f"save and load, {k} classification rules, predictions: {p}{nm}{a}",
                      lambda k=k, named=named, act=act, p=p, full=full: save_unit("cla", k, p, named, act, full), 4 + 3 * k, b)
    return out
