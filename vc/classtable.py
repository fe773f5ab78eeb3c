"""Contracts of Series.value_counts applied to every column of a frame, and of the frame of counts (classes as index, one column per
rule) the repository builds with it: only statements about an arbitrary class, no bound on the number of classes or of rows."""
import z3
from core import Cx, Unsupported
from values import *
import nparr as NA
import frames
from frames import LSeries, NANV


F_ = z3.BoolVal(False)


def cxx():
    return Cx.cur


def tally(n, miss, el):
    """class -> number of rows of that class that are not missing (ghost); the same rows give the same function"""
    c = cxx()
    for n2, m2, e2, F in c.memo.setdefault("tallies", []):
        if n2.eq(n) or c.entails(n2 == n):
            i = z3.Int(c.name("same"))
            if e2(i).sort() == el(i).sort() and c.entails(z3.Implies(z3.And(0 <= i, i < n), z3.And(m2(i) == miss(i), z3.Or(miss(i), e2(i) == el(i))))):
                return F
    if c.binders:
        raise Unsupported("value_counts under a binder")
    i = z3.Int("ty_i")
    S = el(i).sort()
    t = z3.Const("ty_t" + str(S), S)
    F, w = c.fun("tally", S, I), c.fun("rowof", S, I)
    tot = get_enum(n, lambda j: s_(z3.Not(miss(j))))
    m = tot.m
    c.axiom(z3.ForAll([t], z3.And(0 <= F(t), F(t) <= m, z3.Implies(F(t) > 0, z3.And(0 <= w(t), w(t) < n, z3.Not(miss(w(t))), el(w(t)) == t))), patterns=[F(t)]))
    e = el(i)
    body = z3.Implies(z3.And(0 <= i, i < n, z3.Not(miss(i))), F(e) >= 1)
    c.axiom(z3.ForAll([i], body, patterns=[e]) if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([i], body))
    x = el(tot.pos(z3.IntVal(0))) if hasattr(tot, "pos") else None
    if x is not None:
        c.axiom(z3.Implies(m > 0, F(x) >= 1))
    k = z3.simplify(n)
    if c.small is not None and not z3.is_int_value(k):
        for v in range(6):
            if c.fork(k == v):
                k = z3.IntVal(v)
                break
    if z3.is_int_value(k) and k.as_long() <= 12:
        rows = [z3.IntVal(j) for j in range(k.as_long())]
        c.axiom(z3.ForAll([t], F(t) == z3.Sum([z3.IntVal(0)] + [z3.If(z3.And(z3.Not(miss(j)), el(j) == t), 1, 0) for j in rows]), patterns=[F(t)]))
    c.memo["tallies"].append((n, miss, el, F))
    return F


def cells_of(a):
    """missing, class term of the cells of a column"""
    f = a.f
    if a.kind == "t":
        return (lambda i: f(i).nan), (lambda i: f(i).t)
    if a.kind in "fib":
        g = frames.fcell(a)
        c = cxx()
        i = z3.Int(c.name("fin"))
        if not c.entails(z3.Implies(z3.And(0 <= i, i < a.n), z3.Or(g(i).nan, g(i).fin))):
            raise Unsupported("infinite classes")
        return (lambda i: g(i).nan), (lambda i: g(i).val)
    raise Unsupported("classes")


class ClassCol(Vc):
    """one column: class -> number or missing"""
    __slots__ = ("cell", "sort", "total", "trig", "drop", "sorted_", "desc", "ints")

    def __init__(self, cell, sort, trig, total=None, drop=False, sorted_=False, desc=False, ints=False):
        self.ints = ints
        self.cell, self.sort, self.trig, self.total, self.drop, self.sorted_, self.desc = cell, sort, trig, total, drop, sorted_, desc

    def but(self, **k):
        d = dict(cell=self.cell, sort=self.sort, trig=self.trig, total=self.total, drop=self.drop, sorted_=self.sorted_, desc=self.desc, ints=self.ints)
        d.update(k)
        return ClassCol(**d)

    def some(self, label):
        return z3.Const(cxx().name(label), self.sort)

    def all(self, P):
        t = z3.Const("cc_t" + str(self.sort), self.sort)
        return z3.ForAll([t], P(t), patterns=[self.trig(t)])

    def dropna(self):
        return self.but(drop=True)

    def sort_index(self, ascending=True):
        if ascending not in (True, False):
            raise Unsupported("sort_index")
        return self.but(sorted_=True, desc=not ascending)

    def fillna(self, v):
        raise Unsupported("classes of other rules")

    def sum(self):
        if self.total is None:
            raise Unsupported("sum of shares")
        return SInt(self.total)

    def __truediv__(self, o):
        if not is_num(o):
            raise Unsupported("division of counts")
        d, f = fv(o), self.cell
        return self.but(cell=lambda t: f_div(f(t), d), total=None)

    def _cmp(self, o, g):
        if not is_num(o):
            raise Unsupported("comparison of counts")
        v, f = fv(o), self.cell
        return ColMask(lambda t: z3.And(z3.Not(f(t).nan), z3.Not(v.nan), g(f(t), v)))

    def __eq__(self, o):
        return self._cmp(o, f_eq)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(f_lt(a, b)))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(f_lt(b, a)))

    def __lt__(self, o):
        return self._cmp(o, f_lt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: f_lt(b, a))

    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, ColMask):  # never true where the cell is missing
            f = self.cell
            return self.but(cell=lambda t: f_ite(k.m(t), f(t), fv(float("nan"))), total=None, drop=True)
        raise Unsupported("index of counts")

    def ext(self, greatest):
        c = cxx()
        b = c.bool("none")
        v = z3.Real(c.name("extreme"))
        w = self.some("where")
        x = self.cell(w)
        c.axiom(z3.Implies(z3.Not(b), z3.And(x.fin, x.val == v)))
        cmp = (lambda p: p <= v) if greatest else (lambda p: p >= v)
        c.axiom(self.all(lambda t: z3.Implies(z3.Not(self.cell(t).nan), z3.And(z3.Not(b), cmp(self.cell(t).val)))))
        r = fv(float("nan"))
        return f_ite(b, r, real(v))

    def max(self):
        return self.ext(True)

    def idxmax(self):
        """the first class of highest value, in the order of the index"""
        if not self.sorted_:
            raise Unsupported("order of the classes")
        v, f = self.max(), self.cell
        top = lambda t: z3.And(z3.Not(f(t).nan), z3.Not(v.nan), f_eq(f(t), v))
        return ColIndex(self.but(cell=lambda t: f_ite(top(t), f(t), fv(float("nan"))), drop=True, total=None))[0]

    def min(self):
        return self.ext(False)

    @property
    def index(self):
        return ColIndex(self)


def real(v):
    return FV(F_, F_, F_, v)


class ColIndex(Vc):
    __slots__ = ("col",)

    def __init__(self, col):
        self.col = col

    def __getitem__(self, k):
        col, c = self.col, cxx()
        if not (isinstance(k, int) and k in (0, -1)) or not col.sorted_ or not col.drop:
            raise Unsupported("order of the classes")
        known = lambda t: z3.Not(col.cell(t).nan)
        e = c.bool("someclass")
        w = col.some("firstclass")
        small = (k == 0) != col.desc
        lt = (lambda t: tbool(Str(t) < Str(w)) if small else tbool(Str(w) < Str(t))) if col.sort == StrSort else (lambda t: t < w if small else w < t)
        c.axiom(col.all(lambda t: z3.Implies(known(t), z3.And(e, z3.Not(lt(t))))))
        c.axiom(z3.Implies(e, known(w)))
        if not c.fork(e):
            raise deliberate(IndexError("index 0 is out of bounds for axis 0 with size 0"))
        return Str(w) if col.sort == StrSort else real(w)


class TableIndex(Vc):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def astype(self, d):
        t = self.t
        if all(x.sort == StrSort for x in t.cols) and isinstance(d, NA.TextDType):
            return self
        if all(x.sort != StrSort for x in t.cols) and (d is NA.FLOAT or d is NA.INT64 and all(x.ints for x in t.cols)):
            return self
        raise Unsupported("type of the classes")


class ClassTable(Vc):
    """classes as index, rules as columns"""
    __slots__ = ("labels", "cols")

    def __init__(self, labels, cols):
        self.labels, self.cols = list(labels), list(cols)

    @property
    def index(self):
        return TableIndex(self)

    @index.setter
    def index(self, v):
        if not (isinstance(v, TableIndex) and v.t is self):
            raise Unsupported("index of a table of classes")

    @property
    def columns(self):
        return frames.LIndex(self.labels)

    def apply(self, f, axis=0, **k):
        if axis != 0 or k:
            raise Unsupported("apply over rows")
        out = [f(x) for x in self.cols]
        if all(isinstance(x, ClassCol) for x in out):
            return ClassTable(self.labels, [x.but(drop=False, sorted_=False, desc=False) for x in out])
        if all(is_num(x) or isinstance(x, (str, Str)) for x in out):
            return LSeries(self.labels, out)
        raise Unsupported("apply")

    def max(self, axis=0):
        if axis != 0:
            raise Unsupported("max over rules")
        return LSeries(self.labels, [x.max() for x in self.cols])

    def min(self, axis=0):
        if axis != 0:
            raise Unsupported("min over rules")
        return LSeries(self.labels, [x.min() for x in self.cols])

    def sum(self, axis=0):
        if axis != 0:
            raise Unsupported("sum over rules")
        return LSeries(self.labels, [x.sum() for x in self.cols])

    def sort_index(self, ascending=True):
        return ClassTable(self.labels, [x.sort_index(ascending) for x in self.cols])

    def _num(self, o):
        if is_num(o):
            return [o] * len(self.cols)
        if isinstance(o, LSeries) and list(o.labels) == self.labels:
            return o.vals
        raise Unsupported("operation on a table of classes")

    def __truediv__(self, o):
        return ClassTable(self.labels, [x / v for x, v in zip(self.cols, self._num(o))])

    div = divide = truediv = lambda self, o, axis="columns": self / o if axis in (1, "columns") else frames._u("axis")

    def _cmp(self, o, g):
        return Mask([(lambda t, x=x, v=fv(v): g(x.cell(t), v)) for x, v in zip(self.cols, self._num(o))])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: z3.And(z3.Not(a.nan), z3.Not(b.nan), f_eq(a, b)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.Not(f_lt(a, b))))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.Not(f_lt(b, a))))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: z3.And(z3.Not(a.nan), z3.Not(b.nan), f_lt(b, a)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: z3.And(z3.Not(a.nan), z3.Not(b.nan), f_lt(a, b)))

    eq = __eq__
    ge = __ge__
    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, Mask):
            out = []
            for x, m in zip(self.cols, k.m):
                out.append(x.but(cell=lambda t, x=x, m=m: f_ite(m(t), x.cell(t), fv(float("nan"))), total=None))
            return ClassTable(self.labels, out)
        if isinstance(k, str) and k in self.labels:
            return self.cols[self.labels.index(k)]
        raise Unsupported("index of a table of classes")

    where = __getitem__

    @property
    def __class__(self):
        import pdfake
        return pdfake.DataFrame_cls


class ColMask(Vc):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Mask(Vc):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __invert__(self):
        return Mask([lambda t, f=f: z3.Not(f(t)) for f in self.m])


def value_counts(s, normalize=False, dropna=True):
    if normalize not in (False, True) or dropna is not True:
        raise Unsupported("value_counts")
    miss, el = cells_of(s)
    F = tally(s.n, miss, el)
    m = get_enum(s.n, lambda i: s_(z3.Not(miss(i)))).m
    nan = fv(float("nan"))
    k = z3.Int(cxx().name("whole"))
    sort = el(k).sort()
    ints = sort == R and cxx().entails(z3.Implies(z3.And(0 <= k, k < s.n, z3.Not(miss(k))), z3.IsInt(el(k))))
    col = ClassCol(lambda t: f_ite(F(t) > 0, fv(SInt(F(t))), nan), sort, lambda t: F(t), m, ints=ints)
    return col / SInt(m) if normalize else col
