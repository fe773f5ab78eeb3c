"""Contracts of ruleskit/condition.py.

Ghost state of a hyperrectangle condition: d features; feature i has name N(i), position X(i), bounds lo(i) <= / > hi(i) (no NaN).
Class invariant: the four parallel lists hold N, X, lo, hi; names are distinct, positions are distinct;
impossible <=> some lo(i) > hi(i)."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import nparr as NA
from nparr import FA, Mat
import fakes
import loader
import pdfake
from pdfake import FeatFrame
from c_activation import guarded, must_raise, length

FIELDS = {"_features_indexes", "impossible", "_bmins", "_bmaxs", "_features_names"}


def world(c):
    w = loader.World(fakes)
    c.fs = fakes.FS(c)
    m = w.get("ruleskit.condition")
    c.world = w
    H = m.HyperrectangleCondition
    # the fields the constructor writes
    probe = H([0], [0.0], [1.0])
    if set(object.__getattribute__(probe, "__dict__")) - {"_vc_serial"} != FIELDS:
        raise Unsupported("fields of HyperrectangleCondition: " + str(sorted(object.__getattribute__(probe, "__dict__"))))
    return m, H


def bound_fun(c, label):
    """numbers without NaN"""
    p, q, v = c.fun(label + "_pinf", I, B), c.fun(label + "_ninf", I, B), c.fun(label, I, R)
    return lambda i: FV(z3.BoolVal(False), p(i), z3.And(q(i), z3.Not(p(i))), v(i))


class Box:
    """d features"""

    def __init__(self, c, label="", d=None, lo=1):
        self.c = c
        self.d = d if d is not None else length(c, "d" + label, lo)
        X, N = c.fun("X" + label, I, I), c.fun("N" + label, I, StrSort)
        self.X, self.N = (lambda i: X(i)), (lambda i: N(i))
        self.lo, self.hi = bound_fun(c, "lo" + label), bound_fun(c, "hi" + label)

    def distinct(self, names=True, indexes=True):
        c = self.c
        d = z3.simplify(self.d)
        if z3.is_int_value(d):
            k = range(d.as_long())
            for i in k:
                for j in range(i):
                    if indexes:
                        c.assume(self.X(z3.IntVal(i)) != self.X(z3.IntVal(j)))
                    if names:
                        c.assume(self.N(z3.IntVal(i)) != self.N(z3.IntVal(j)))
            return
        i = z3.Int(c.name("bx"))
        inr = z3.And(0 <= i, i < self.d)
        if indexes:
            iX = c.fun("posX", I, I)
            c.axiom(z3.ForAll([i], z3.Implies(inr, iX(self.X(i)) == i), patterns=[self.X(i)]))
            self.iX = lambda t: iX(t)
        if names:
            iN = c.fun("posN", StrSort, I)
            c.axiom(z3.ForAll([i], z3.Implies(inr, iN(self.N(i)) == i), patterns=[self.N(i)]))
            self.iN = lambda t: iN(t)

    def nonneg(self):
        self.each(lambda i: self.X(i) >= 0)

    def each(self, p):
        self.c.assume(FA(z3.IntVal(0), self.d, p))

    def lists(self):
        d = self.d
        L = lambda f, inv=None: VList(None, Seq(d, f, inv))
        iN, iX = getattr(self, "iN", None), getattr(self, "iX", None)

        def find(g, F, term):
            def inv(x):
                t = term(x)
                p = g(t)
                return z3.And(0 <= p, p < d, F(p) == t), p
            return inv if g is not None else None
        n = L(lambda i: Str(self.N(i)), find(iN, self.N, tstr))
        x = L(lambda i: SInt(self.X(i)), find(iX, self.X, ti))
        return {"features_indexes": x, "bmins": L(self.lo), "bmaxs": L(self.hi), "features_names": n}

    def inverted(self):
        return z3.Not(FA(z3.IntVal(0), self.d, lambda i: z3.Not(tbool_(self.lo(i) > self.hi(i)))))

    def holds(self, cell):
        """every feature finite and within its bounds; cell(i) is the value of feature i"""
        return FA(z3.IntVal(0), self.d, lambda i: inside(cell(i), self.lo(i), self.hi(i)))


def tbool_(x):
    return tbool(x)


def inside(v, lo, hi):
    return s_(z3.And(v.fin, f_le(lo, v), f_le(v, hi)))


def mk(c, H, box):
    """an arbitrary condition satisfying the class invariant"""
    o = object.__new__(H)
    l = box.lists()
    put = lambda k, v: object.__setattr__(o, k, v)
    put("_features_indexes", l["features_indexes"])
    put("_features_names", l["features_names"])
    put("_bmins", l["bmins"])
    put("_bmaxs", l["bmaxs"])
    put("_vc_serial", 0)
    t = c.bool("impossible")
    c.assume(t == box.inverted())
    put("impossible", SymBool(t))
    put("_vc_box", box)
    c.memo.setdefault("conds", []).append((o, {k: (v, v.items and list(v.items), v.seq) for k, v in l.items()}))
    return o


def lists_are(o, box):
    """the lists of the condition hold the ghost, as z3 Bool"""
    d = object.__getattribute__(o, "__dict__")
    out = []
    for k, f in (("_features_indexes", lambda i: SInt(box.X(i))), ("_features_names", lambda i: Str(box.N(i))),
                 ("_bmins", box.lo), ("_bmaxs", box.hi)):
        v = d.get(k)
        if not isinstance(v, VList):
            raise Unsupported(f"{k} is {type(v).__name__}")
        s = v.as_seq()
        out.append(s.n == box.d)
        out.append(FA(z3.IntVal(0), box.d, lambda i, s=s, f=f: veq_num(s.f(i), f(i))))
    return z3.And(*out)


def veq_num(a, b):
    if is_num(a) and is_num(b):
        return f_eq(fv(a), fv(b))
    return veq(a, b)


def inv(c, o, box, what):
    d = object.__getattribute__(o, "__dict__")
    for k in d:
        if k not in FIELDS and not k.startswith("_vc_"):
            raise Unsupported(f"field {k} of the condition is unknown to the invariant")
    c.prove(what + " [features, names and bounds]", lists_are(o, box))
    t = tbool(d.get("impossible"))
    if t is None:
        raise Unsupported("impossible flag")
    c.prove(what + " [impossible flag]", t == box.inverted())


# ------------------------------------------------------------------------------------------------ evaluate
def eval_invariants(n, box, cell):
    """candidates: an array variable is the conjunction over the features read so far of some of the three tests"""
    tests = {"ge": lambda i, r: f_le(box.lo(i), cell(i, r)), "le": lambda i, r: f_le(cell(i, r), box.hi(i)),
             "finite": lambda i, r: cell(i, r).fin}
    names = list(tests)

    def prov(loop, env, k):
        out = {}
        for nm, v in env.items():
            if not (isinstance(v, Arr) and (v.kind == "b" or v.kind == "i" and is01(v))):
                continue
            if nm not in loop.names and not any(m[0] == "var" and m[1] == nm for m in loop.st["mods"]):
                continue
            b = (lambda j, v=v: v.f(j)) if v.kind == "b" else (lambda j, v=v: bitof(v, j))
            for mask in range(1, 8):
                sel = [names[u] for u in range(3) if mask >> u & 1]
                body = lambda i, r: z3.And(*[tests[x](i, r) for x in sel])
                out[f"{nm} = all features so far: {' and '.join(sel)}"] = z3.And(
                    v.n == n, FA(z3.IntVal(0), n, lambda r: b(r) == FA(z3.IntVal(0), k, lambda i: body(i, r))))
                if loop.st.get("peel"):
                    full = lambda r: z3.And(*[tests[x](z3.IntVal(0), r) for x in names])
                    out[f"{nm} = all features so far: {' and '.join(sel)}; first feature: all tests"] = z3.And(
                        v.n == n, FA(z3.IntVal(0), n, lambda r: b(r) == z3.And(full(r), FA(z3.IntVal(0), k, lambda i: body(i, r)))))
                out[f"{nm} = some feature so far fails: {' and '.join(sel)}"] = z3.And(
                    v.n == n, FA(z3.IntVal(0), n, lambda r: b(r) == z3.Not(FA(z3.IntVal(0), k, lambda i: body(i, r)))))
        return out
    return prov


def table(c, box, kind):
    """(features, value of feature i in row r, all features present)"""
    n, m = length(c, "n", 0), length(c, "m", 1)
    nan, pi, ni, v = (c.fun("x_nan", I, I, B), c.fun("x_pinf", I, I, B), c.fun("x_ninf", I, I, B), c.fun("x", I, I, R))

    def cell(r, j):
        return FV(nan(r, j), z3.And(pi(r, j), z3.Not(nan(r, j))), z3.And(ni(r, j), z3.Not(pi(r, j)), z3.Not(nan(r, j))), v(r, j))
    if kind == "array":
        xs = Mat(n, m, cell, "f", NA.FLOAT)
        return xs, n, (lambda i, r: cell(r, box.X(i))), FA(z3.IntVal(0), box.d, lambda i: box.X(i) < m)
    if kind == "int array":
        xs = Mat(n, m, lambda r, j: iv(r, j), "i", NA.INT64)
        raise Unsupported("int")
    nm, wh = c.fun("colname", I, StrSort), c.fun("colpos", StrSort, I)
    if z3.is_int_value(z3.simplify(m)):
        mm = z3.simplify(m).as_long()
        for j in range(mm):
            c.assume(wh(nm(z3.IntVal(j))) == j)
    else:
        j = z3.Int("col_j")
        c.axiom(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), wh(nm(j)) == j), patterns=[nm(j)]))
    s = z3.Const("col_s", StrSort)
    # a name that is not a column has no position
    c.axiom(z3.ForAll([s], z3.Or(wh(s) < 0, wh(s) >= m, nm(wh(s)) == s), patterns=[wh(s)]))
    xs = FeatFrame(n, m, lambda j: nm(j), lambda s, r: cell(r, wh(s)), lambda s: wh(s))
    return xs, n, (lambda i, r: cell(r, wh(box.N(i)))), FA(z3.IntVal(0), box.d, lambda i: xs.has(box.N(i)))


def evaluate_unit(kind, case):
    def unit(c):
        m, H = world(c)
        box = Box(c)
        box.distinct()
        box.nonneg()
        o = mk(c, H, box)
        xs, n, cell, present = table(c, box, kind)
        if case == "impossible":
            c.assume(box.inverted())
        else:
            c.assume(z3.Not(box.inverted()))
            c.assume(present if case == "present" else z3.Not(present))
        c.invariants.append(eval_invariants(n, box, cell))
        if case == "absent":
            must_raise(c, f"evaluation ({kind}) when a feature is absent", lambda: o.evaluate(xs))
            inv(c, o, box, "evaluation leaves the condition unchanged")
            return
        ok, r = guarded(c, f"evaluation ({kind})", lambda: o.evaluate(xs))
        c.reach("returned")
        if not isinstance(r, Arr) or r.is_series:
            if isinstance(r, Vc) and not isinstance(r, Arr):
                raise Unsupported(f"result {type(r).__name__}")
            c.prove("evaluation gives an array", False)
            raise PathEnd()
        want = (lambda j: box.holds(lambda i: cell(i, j))) if case == "present" else (lambda j: z3.BoolVal(False))
        if r.kind == "f":
            one, zero = (lambda j: z3.And(r.f(j).fin, r.f(j).val == 1)), (lambda j: z3.And(r.f(j).fin, r.f(j).val == 0))
        elif r.kind == "b":
            one, zero = (lambda j: r.f(j)), (lambda j: z3.Not(r.f(j)))
        elif is01(r):
            one, zero = (lambda j: bitof(r, j)), (lambda j: z3.Not(bitof(r, j)))
        else:
            one, zero = (lambda j: r.f(j) == 1), (lambda j: r.f(j) == 0)
        c.prove(f"evaluation ({kind}): one entry per row", r.n == n)
        if case == "impossible":
            c.prove(f"evaluation ({kind}): a condition with an inverted interval is met nowhere", FA(z3.IntVal(0), n, zero))
        else:
            c.prove(f"evaluation ({kind}): 1 exactly where every feature is finite and within its closed interval",
                    FA(z3.IntVal(0), n, lambda j: z3.And(one(j) == want(j), z3.Or(one(j), zero(j)))))
        inv(c, o, box, "evaluation leaves the condition unchanged")
    return unit


# ------------------------------------------------------------------------------------------------ constructor and sort
def free_sort(c, H, order):
    H.SORT_ACCORDING_TO = order


def fields(o):
    d = object.__getattribute__(o, "__dict__")
    for k in d:
        if k not in FIELDS and not k.startswith("_vc_"):
            raise Unsupported(f"field {k} of the condition is unknown to the invariant")
    out = []
    for k in ("_features_names", "_features_indexes", "_bmins", "_bmaxs"):
        v = d.get(k)
        if not isinstance(v, VList):
            raise Unsupported(f"{k} is {type(v).__name__}")
        out.append(v)
    return out


def feature_eq(vals, box, j):
    n, x, lo, hi = vals
    return z3.And(veq(n, Str(box.N(j))), veq_num(x, SInt(box.X(j))), veq_num(lo, box.lo(j)), veq_num(hi, box.hi(j)))


def witnessed(c, name, d, goal):
    """forall j < d exists i < d: goal(i, j); the witness is one of the sorting permutations, or j itself"""
    if z3.is_int_value(z3.simplify(d)):
        n = z3.simplify(d).as_long()
        return c.prove(name, z3.And(*[z3.Or(*[goal(z3.IntVal(i), z3.IntVal(j)) for i in range(n)]) for j in range(n)])
                       if n else True)
    ws = [lambda j: j] + [(lambda j, q=q: q(j)) for q in c.memo.get("perminv", {}).values()]
    for w in ws:
        g = FA(z3.IntVal(0), d, lambda j: z3.And(0 <= w(j), w(j) < d, goal(w(j), j)))
        if c.entails(g):
            return c.prove(name, g)
    i = z3.Int(c.name("ex"))
    return c.prove(name, FA(z3.IntVal(0), d, lambda j: z3.Exists([i], z3.And(0 <= i, i < d, goal(i, j)))))


def holds_box(c, o, box, what, order=None):
    """the condition o has the features of box, each once and attached to its own data, in ascending order"""
    ls = fields(o)
    ss = [l.as_seq() for l in ls]
    for k, s in zip(("names", "positions", "minima", "maxima"), ss):
        c.prove(what + f" [number of {k}]", s.n == box.d)
    witnessed(c, what + " [every feature keeps its name, position, minimum and maximum]", box.d,
              lambda i, j: feature_eq([s.f(i) for s in ss], box, j))
    if order is not None:
        s = ss[1 if order == "index" else 0]
        c.prove(what + f" [ascending by {order}]", pairs(box.d, lambda i, j: tbool(s.f(i) < s.f(j))))
    t = tbool(object.__getattribute__(o, "__dict__").get("impossible"))
    if t is None:
        raise Unsupported("impossible flag")
    c.prove(what + " [impossible exactly when a minimum exceeds its maximum]", t == box.inverted())


def pairs(d, p):
    d = z3.simplify(d)
    if z3.is_int_value(d):
        n = d.as_long()
        return z3.And(*[p(z3.IntVal(i), z3.IntVal(j)) for j in range(n) for i in range(j)]) if n > 1 else z3.BoolVal(True)
    i, j = z3.Ints("pi pj")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < d), p(i, j)))


def not_shared(c, o, given, what):
    """each list of the object is a list given for it, or a new one of its own"""
    ls = fields(o)
    names = ("features_names", "features_indexes", "bmins", "bmaxs")
    ok = all(l is given.get(k) or not any(l is g for g in given.values()) for k, l in zip(names, ls))
    ok = ok and len({id(l) for l in ls}) == 4
    c.prove(what + " [lists are not mixed up]", ok)


def ctor_unit(order, sort, names="given", indexes="given"):
    def unit(c):
        m, H = world(c)
        free_sort(c, H, order)
        box = Box(c)
        if names == "omitted":
            X = box.X
            box.N = lambda i: strX(c, X(i))
        if indexes == "omitted":
            box.X = lambda i: i
        box.distinct(names=names != "omitted", indexes=indexes != "omitted")
        l = box.lists()
        if names == "omitted":
            l["features_names"] = None
        if indexes == "omitted":
            l["features_indexes"] = None
        kw = dict(l)
        if not sort:
            kw["sort"] = False
        ok, o = guarded(c, "building a condition", lambda: H(**kw))
        c.reach("returned")
        holds_box(c, o, box, "a new condition", order if sort else None)
        if not sort and names == "given" and indexes == "given":
            c.prove("a condition built unsorted keeps the given order", lists_are(o, box))
        not_shared(c, o, {k: v for k, v in l.items() if v is not None}, "a new condition")
    return unit


def strX(c, t):
    """the name X_<t> as an opaque string"""
    raise Unsupported("default names")


def reject_unit(case):
    def unit(c):
        m, H = world(c)
        H.SORT_ACCORDING_TO = ("index", "name")[c.choose(2)]
        box = Box(c, lo=0)
        if case.startswith("dup"):
            box.distinct(names=case != "duplicated names", indexes=case != "duplicated positions")
            F = box.X if case == "duplicated positions" else box.N
            a, b = c.int("dup_a"), c.int("dup_b")
            c.assume(z3.And(0 <= a, a < b, b < box.d))
            if z3.is_int_value(z3.simplify(box.d)):
                n = z3.simplify(box.d).as_long()
                c.assume(z3.Or(*[F(z3.IntVal(i)) == F(z3.IntVal(j)) for j in range(n) for i in range(j)]) if n > 1 else False)
            else:
                c.assume(F(a) == F(b))
            l = box.lists()
        else:
            box.distinct()
            l = box.lists()
            d2 = length(c, "e", 0)
            c.assume(d2 != box.d)
            which = {"names": "features_names", "positions": "features_indexes", "minima": "bmins", "maxima": "bmaxs"}[case]
            old = l[which].as_seq()
            b2 = Box(c, "2", d2)
            b2.distinct()
            l[which] = b2.lists()[which]
        must_raise(c, f"building a condition with {case if case.startswith('dup') else 'a different number of ' + case}", lambda: H(**l))
    return unit


def sort_unit(order):
    def unit(c):
        m, H = world(c)
        free_sort(c, H, order)
        box = Box(c)
        box.distinct()
        o = mk(c, H, box)
        ok, r = guarded(c, "sorting a condition", lambda: o.sort())
        c.reach("returned")
        holds_box(c, o, box, "a sorted condition", order)
    return unit


def setter_unit(which):
    def unit(c):
        m, H = world(c)
        box = Box(c)
        box.distinct()
        o = mk(c, H, box)
        f = bound_fun(c, "new")
        new = VList(None, Seq(box.d, f))
        ok, r = guarded(c, f"setting {which}", lambda: setattr(o, which, new))
        c.reach("returned")
        if which == "bmins":
            box.lo = f
        else:
            box.hi = f
        inv(c, o, box, f"setting {which}")
    return unit


def setter_len_unit(which):
    def unit(c):
        m, H = world(c)
        box = Box(c)
        box.distinct()
        o = mk(c, H, box)
        d2 = length(c, "e", 0)
        c.assume(d2 != box.d)
        f = bound_fun(c, "new")
        must_raise(c, f"setting a different number of {which}", lambda: setattr(o, which, VList(None, Seq(d2, f))))
    return unit


# ------------------------------------------------------------------------------------------------ conjunction
def contract_ctor(c, m, H):
    """HyperrectangleCondition(...) as verified by ctor_unit and reject_unit: rejects lists of different lengths and duplicates;
    otherwise the object holds the given features, each attached to its own data, in some order; each list is the given one
    or a new one"""
    if c.small is not None:
        return

    def __init__(self, features_indexes=None, bmins=None, bmaxs=None, features_names=None, empty=False, sort=True):
        if empty or any(not isinstance(x, VList) for x in (features_indexes, bmins, bmaxs, features_names)):
            raise Unsupported("constructor arguments")
        ls = [x.as_seq() for x in (features_names, features_indexes, bmins, bmaxs)]
        d = ls[1].n
        for s in ls:
            if not s.n.eq(d) and not c.entails(s.n == d) and not c.fork(s.n == d):
                raise fakes.deliberate(ValueError("lists of different sizes"))
        for s in ls[:2]:
            g = pairs(d, lambda i, j: z3.Not(veq(s.f(i), s.f(j))))
            if not c.entails(g) and not c.fork(g):
                raise fakes.deliberate(m.DuplicatedFeatures())
        put = lambda k, v: object.__setattr__(self, k, v)
        put("_vc_serial", c.next_serial())
        if c.choose(2) == 0:
            new = [features_names, features_indexes, bmins, bmaxs]
        else:
            p, q = c.fun("order", I, I), c.fun("orderinv", I, I)
            i = z3.Int(c.name("oi"))
            inr = lambda x: z3.And(0 <= x, x < d)
            c.axiom(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i)), patterns=[p(i)]))
            c.axiom(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q(i)), p(q(i)) == i)), patterns=[q(i)]))
            c.memo.setdefault("perminv", {})[p.name()] = q

            def mkl(s):
                inv = None
                if s.inv is not None:
                    def inv(x):
                        r = s.inv(x)
                        return None if r is None else (r[0], q(r[1]))
                return VList(None, Seq(d, lambda i: s.f(p(i)), inv))
            new = [mkl(s) for s in ls]
        for k, v in zip(("_features_names", "_features_indexes", "_bmins", "_bmaxs"), new):
            put(k, v)
        put("impossible", mkbool(z3.Not(FA(z3.IntVal(0), d, lambda i: z3.Not(tbool(ls[2].f(i) > ls[3].f(i)))))))
    H.__init__ = __init__


def scatter_invariants(loop, env, k):
    """lists written through a list of distinct positions: written where a position was already visited, else as before"""
    out = {}
    lists = {nm: v.as_seq() for nm, v in env.items() if isinstance(v, VList)}
    P = {nm: s for nm, s in lists.items() if s.inv is not None and isinstance(elem(s), (SInt, int))}
    h0 = loop.held0
    for nm, v in env.items():
        if not hasattr(type(v), "_vc_hooked") or isinstance(v, type):
            continue
        for a in ("_bmins", "_bmaxs"):
            l = object.__getattribute__(v, "__dict__").get(a)
            if not isinstance(l, VList):
                continue
            s = l.as_seq()
            base = h0[nm, a] if h0 is not None else s
            out[f"{nm}.{a} keeps its length"] = s.n == base.n
            for pn, ps in P.items():
                def seen(j, ps=ps):
                    r = ps.inv(mkint(j))
                    return (z3.And(r[0], r[1] < k), r[1])
                out[f"{nm}.{a}: positions not in {pn} so far are unchanged"] = FA(
                    z3.IntVal(0), s.n, lambda j: z3.Or(seen(j)[0], f_eq(fv(s.f(j)), fv(base.f(j)))))
                for vn, vs in lists.items():
                    if not isinstance(elem(vs), (FV, float)):
                        continue
                    out[f"{nm}.{a}: positions in {pn} so far hold {vn}"] = FA(
                        z3.IntVal(0), s.n, lambda j: z3.Implies(seen(j)[0], f_eq(fv(s.f(j)), fv(vs.f(seen(j)[1])))))
    return out


def elem(s):
    c = Cx.cur
    c.nfresh += 1
    n = z3.simplify(s.n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return None
    return s.f(z3.Int(f"el!{c.nfresh}"))


def result_box(c, o):
    ls = [l.as_seq() for l in fields(o)]
    b = object.__new__(Box)
    b.c, b.d = c, ls[0].n
    b.N, b.X, b.lo, b.hi = (lambda i: tstr(ls[0].f(i))), (lambda i: ti(ls[1].f(i))), (lambda i: fv(ls[2].f(i))), (lambda i: fv(ls[3].f(i)))
    b.ns = [s.n for s in ls]
    return b


def agree(b1, b2):
    """shared features have one position, and features with one position have one name"""
    i, j = z3.Ints("ag_i ag_j")
    body = lambda i, j: (b1.N(i) == b2.N(j)) == (b1.X(i) == b2.X(j))
    d1, d2 = z3.simplify(b1.d), z3.simplify(b2.d)
    if z3.is_int_value(d1) and z3.is_int_value(d2):
        return z3.And(*[body(z3.IntVal(u), z3.IntVal(v)) for u in range(d1.as_long()) for v in range(d2.as_long())] or [z3.BoolVal(True)])
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < b1.d, 0 <= j, j < b2.d), body(i, j)),
                     patterns=[z3.MultiPattern(b1.N(i), b2.N(j)), z3.MultiPattern(b1.X(i), b2.X(j))])


AND_SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]


def and_unit(case):
    def unit(c):
        m, H = world(c)
        H.SORT_ACCORDING_TO = ("index", "name")[c.choose(2)] if c.small is not None else "index"
        b1, b2 = Box(c, "1"), Box(c, "2")
        b1.distinct()
        b2.distinct()
        a, b = mk(c, H, b1), mk(c, H, b2)
        contract_ctor(c, m, H)
        c.invariants.append(scatter_invariants)
        if case != "agree":
            i, j = c.int("i1"), c.int("i2")
            c.assume(z3.And(0 <= i, i < b1.d, 0 <= j, j < b2.d))
            same_n, same_x = b1.N(i) == b2.N(j), b1.X(i) == b2.X(j)
            c.assume(z3.And(same_n, z3.Not(same_x)) if case == "positions differ" else z3.And(same_x, z3.Not(same_n)))
            must_raise(c, f"conjunction when {case}", lambda: a & b)
        else:
            c.assume(agree(b1, b2))
            ok, r = guarded(c, "conjunction", lambda: a & b)
            c.reach("returned")
            if not isinstance(r, H):
                c.prove("the conjunction is a condition", False)
                raise PathEnd()
            rb = result_box(c, r)
            c.prove("conjunction: lists of one length", z3.And(*[n == rb.ns[0] for n in rb.ns]))
            val = [c.fun("val" + x, StrSort, B) for x in ("_nan", "_pinf", "_ninf")] + [c.fun("val", StrSort, R)]
            v = lambda s: FV(*[f(s) for f in val])
            inb = lambda box: FA(z3.IntVal(0), box.d, lambda i: inside(v(box.N(i)), box.lo(i), box.hi(i)))
            I1, I2, IR = inb(b1), inb(b2), inb(rb)
            c.prove("conjunction: met where both are met", z3.Implies(z3.And(I1, I2), IR))
            c.prove("conjunction: not met where the first is not", z3.Implies(IR, I1))
            c.prove("conjunction: not met where the second is not", z3.Implies(IR, I2))
            c.prove("conjunction: features are distinct", pairs(rb.d, lambda i, j: z3.And(rb.N(i) != rb.N(j), rb.X(i) != rb.X(j))))
            c.prove("conjunction: every feature comes with its name and position from an operand",
                    FA(z3.IntVal(0), rb.d, lambda i: z3.Or(has(c, b1, rb.N(i), rb.X(i)), has(c, b2, rb.N(i), rb.X(i)))))
            for bb, w in ((b1, "first"), (b2, "second")):
                covers(c, f"conjunction: every feature of the {w} operand is there with its position", r, rb, bb)
            t = tbool(object.__getattribute__(r, "__dict__").get("impossible"))
            c.prove("conjunction: impossible exactly when an interval is inverted", t == rb.inverted())
        inv(c, a, b1, "conjunction leaves the first operand unchanged")
        inv(c, b, b2, "conjunction leaves the second operand unchanged")
    return unit


def has(c, box, n, x):
    if hasattr(box, "iN"):
        p = box.iN(n)
        return z3.And(0 <= p, p < box.d, box.N(p) == n, box.X(p) == x)
    d = z3.simplify(box.d).as_long()
    return z3.Or(*[z3.And(box.N(z3.IntVal(k)) == n, box.X(z3.IntVal(k)) == x) for k in range(d)] or [z3.BoolVal(False)])


def covers(c, name, o, rb, bb):
    s = fields(o)[0].as_seq()

    def goal(j):
        if s.inv is not None:
            r = s.inv(Str(bb.N(j)))
            return z3.And(r[0], 0 <= r[1], r[1] < rb.d, rb.N(r[1]) == bb.N(j), rb.X(r[1]) == bb.X(j))
        d = z3.simplify(rb.d)
        if z3.is_int_value(d):
            return z3.Or(*[z3.And(rb.N(z3.IntVal(k)) == bb.N(j), rb.X(z3.IntVal(k)) == bb.X(j)) for k in range(d.as_long())])
        i = z3.Int(c.name("ex"))
        return z3.Exists([i], z3.And(0 <= i, i < rb.d, rb.N(i) == bb.N(j), rb.X(i) == bb.X(j)))
    c.prove(name, FA(z3.IntVal(0), bb.d, goal))


# ------------------------------------------------------------------------------------------------ equality and hash
def same_region(b1, b2):
    i, j = z3.Ints("sr_i sr_j")

    def tri(a, u, b, v):
        return z3.And(a.N(u) == b.N(v), f_eq(a.lo(u), b.lo(v)), f_eq(a.hi(u), b.hi(v)))

    def sub(a, b):
        da, db = z3.simplify(a.d), z3.simplify(b.d)
        if z3.is_int_value(da) and z3.is_int_value(db):
            return z3.And(*[z3.Or(*[tri(a, z3.IntVal(u), b, z3.IntVal(v)) for v in range(db.as_long())] or [z3.BoolVal(False)])
                            for u in range(da.as_long())] or [z3.BoolVal(True)])
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.d), z3.Exists([j], z3.And(0 <= j, j < b.d, tri(a, i, b, j)))))
    return z3.And(sub(b1, b2), sub(b2, b1))


def eq_unit(what):
    def unit(c):
        m, H = world(c)
        b1, b2 = Box(c, "1"), Box(c, "2")
        b1.distinct()
        b2.distinct()
        a, b = mk(c, H, b1), mk(c, H, b2)
        if what == "eq":
            ok, r = guarded(c, "comparing conditions", lambda: H.__eq__(a, b))
            t = tbool(r)
            if t is None:
                raise Unsupported("result of ==")
            c.reach("returned")
            c.prove("conditions are equal exactly when they have the same (name, minimum, maximum) triples", t == same_region(b1, b2))
        else:
            c.assume(same_region(b1, b2))
            ok, h = guarded(c, "hash of a condition", lambda: (fakes.v_hash(a), fakes.v_hash(b)))
            c.reach("returned")
            c.prove("equal conditions have equal hashes", ti(h[0]) == ti(h[1]))
        inv(c, a, b1, "comparison leaves the condition unchanged")
        inv(c, b, b2, "comparison leaves the other condition unchanged")
    return unit


# ------------------------------------------------------------------------------------------------ registry
def units(prop):
    from main import Unit
    out = []
    fn = lambda *n: ["ruleskit/condition.py: HyperrectangleCondition." + x for x in n]
    if prop == "C05":
        for kind in ("array", "table"):
            for case in ("present", "absent", "impossible"):
                out.append(Unit(f"HyperrectangleCondition.evaluate, {kind}, features {case}" if case != "impossible" else
                                f"HyperrectangleCondition.evaluate, {kind}, inverted interval",
                                lambda kind=kind, case=case: evaluate_unit(kind, case), fn("evaluate"), 5))
    if prop in ("C05", "C06", "C07"):
        for order in ("index", "name"):
            for sort in (True, False):
                for ix in ("given", "omitted"):
                    out.append(Unit(f"HyperrectangleCondition(...), order by {order}, sort={sort}, positions {ix}",
                                    lambda order=order, sort=sort, ix=ix: ctor_unit(order, sort, indexes=ix),
                                    fn("__init__", "sort"), 5))
    if prop in ("C05", "C06"):
        for which in ("bmins", "bmaxs"):
            out.append(Unit(f"HyperrectangleCondition.{which} setter", lambda which=which: setter_unit(which), fn(which), 5))
            out.append(Unit(f"HyperrectangleCondition.{which} setter, other length", lambda which=which: setter_len_unit(which),
                            fn(which), 5))
    if prop == "C06":
        for case in ("agree", "positions differ", "names differ"):
            for d1, d2 in AND_SIZES:
                out.append(Unit(f"HyperrectangleCondition.__and__ ({d1} and {d2} features), {case}", lambda case=case: and_unit(case),
                                fn("__and__"), 20 + d1 * d2, sizes={"d1": d1, "d2": d2}))
    if prop == "C07":
        for case in ("duplicated names", "duplicated positions", "names", "positions", "minima", "maxima"):
            out.append(Unit(f"HyperrectangleCondition(...) rejects: {case}", lambda case=case: reject_unit(case), fn("__init__"), 5))
        for order in ("index", "name"):
            out.append(Unit(f"HyperrectangleCondition.sort, by {order}", lambda order=order: sort_unit(order), fn("sort"), 5))
        out.append(Unit("HyperrectangleCondition.__eq__", lambda: eq_unit("eq"), fn("__eq__", "to_hash"), 5))
        out.append(Unit("HyperrectangleCondition.__hash__", lambda: eq_unit("hash"), fn("__hash__", "to_hash"), 5))
    return out
