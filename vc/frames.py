"""Contracts of pandas' DataFrame with a fixed number of labelled columns (one per rule) and any number of rows, of Series labelled
by rules, and of the few frame operations the repository uses.  Whatever is not here is undecided (Unsupported)."""
import z3
from core import Unsupported, PathEnd
from values import *
import nparr as NA
from nparr import FA


def cxx():
    from core import Cx
    return Cx.cur


def plain(a):
    b = a.copy()
    b.is_series, b.index = False, None
    return b


def fcell(a):
    f, k = a.f, a.kind
    if k == "t":
        raise Unsupported("number expected, text found")
    return lambda i: NA.cast_cell(f(i), k, "f")


def missing(a):
    """i -> the cell is missing"""
    f, k = a.f, a.kind
    if k == "t":
        return lambda i: f(i).nan
    if k == "f":
        return lambda i: f(i).nan
    return lambda i: z3.BoolVal(False)


def _u_(msg):
    raise Unsupported(msg)


class Flags(Vc):
    """a boolean array over labels"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = [bool(x) for x in b]

    def __invert__(self):
        return Flags([not x for x in self.b])

    def __iter__(self):
        return iter(self.b)

    def vlen(self):
        return len(self.b)

    def all(self):
        return all(self.b)

    def any(self):
        return any(self.b)


class LIndex(Vc):
    """concrete labels"""
    __slots__ = ("labels",)

    def __init__(self, labels):
        self.labels = list(labels)

    @property
    def conc(self):
        return True

    def as_seq(self):
        return Seq.of(self.labels)

    def vlen(self):
        return len(self.labels)

    def __len__(self):
        return len(self.labels)

    def __iter__(self):
        return iter(self.labels)

    def __contains__(self, x):
        if isinstance(x, Vc):
            raise Unsupported("symbolic label")
        return x in self.labels

    def isin(self, o):
        o = list(conc_iter(o)) if is_conc_iter(o) else _u("isin")
        return Flags([x in o for x in self.labels])

    def astype(self, t):
        return LIndex(self.labels)

    def tolist(self):
        return VList(self.labels)

    @property
    def values(self):
        return VList(self.labels)

    def __getitem__(self, k):
        if isinstance(k, Flags):
            return LIndex([x for x, b in zip(self.labels, k.b) if b])
        if isinstance(k, int):
            return self.labels[k]
        raise Unsupported("index of labels")

    def __eq__(self, o):
        if isinstance(o, LIndex):
            return Flags([a == b for a, b in zip(self.labels, o.labels)])
        raise Unsupported("comparison of labels")

    def equals(self, o):
        return isinstance(o, LIndex) and self.labels == o.labels

    def difference(self, o):
        o = list(conc_iter(o))
        return LIndex(sorted(x for x in self.labels if x not in o))

    def intersection(self, o):
        o = list(conc_iter(o))
        return LIndex([x for x in self.labels if x in o])

    __hash__ = None


def _u(m):
    raise Unsupported(m)


def union_labels(a, b):
    """outer alignment: the labels as they are when equal, else sorted"""
    if list(a) == list(b):
        return list(a)
    if len(set(a)) != len(a) or len(set(b)) != len(b):
        raise Unsupported("duplicated labels")
    return sorted(set(a) | set(b))


NANV = float("nan")


class LSeries(Vc):
    """a Series labelled by concrete labels"""
    __slots__ = ("labels", "vals", "name")

    def __init__(self, labels, vals, norm=True):
        self.labels, self.vals, self.name = list(labels), list(vals), None
        if len(set(self.labels)) != len(self.labels):
            raise Unsupported("duplicated labels")
        if norm and any(v is None for v in self.vals) and any(is_num(v) for v in self.vals):
            self.vals = [NANV if v is None else v for v in self.vals]
        if norm and any(is_num(v) for v in self.vals) and any(isinstance(v, (float, FV)) for v in self.vals) \
                and all(is_num(v) for v in self.vals):
            self.vals = [fv(v) for v in self.vals]

    def vlen(self):
        return len(self.vals)

    @property
    def index(self):
        return LIndex(self.labels)

    @property
    def values(self):
        return NA.from_seq(Seq.of(self.vals))

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return self

    @property
    def empty(self):
        return not self.vals

    @property
    def shape(self):
        return (len(self.vals),)

    def __getitem__(self, k):
        if isinstance(k, Vc) and not isinstance(k, (Flags, VList, LIndex)):
            raise Unsupported("symbolic label")
        if isinstance(k, str):
            if k not in self.labels:
                raise deliberate(KeyError(k))
            return self.vals[self.labels.index(k)]
        if isinstance(k, Flags):
            return LSeries([l for l, b in zip(self.labels, k.b) if b], [v for v, b in zip(self.vals, k.b) if b])
        if isinstance(k, (VList, LIndex)) and all(isinstance(x, str) for x in k):
            return LSeries(list(k), [self[x] for x in k])
        raise Unsupported("index of a series")

    def get(self, k, d=None):
        return self[k] if k in self.labels else d

    def items(self):
        return zip(self.labels, self.vals)

    def __contains__(self, k):
        return k in self.labels

    def __iter__(self):
        return iter(self.vals)

    def apply(self, f, *a, **k):
        if a or k:
            raise Unsupported("apply with arguments")
        return LSeries(self.labels, [f(v) for v in self.vals])

    map = apply

    def _bin(self, o, f):
        if isinstance(o, LSeries):
            L = union_labels(self.labels, o.labels)
            g = lambda s, l: s.vals[s.labels.index(l)] if l in s.labels else NANV
            return LSeries(L, [f(fvn(g(self, l)), fvn(g(o, l))) for l in L])
        if is_num(o):
            return LSeries(self.labels, [f(fvn(v), fv(o)) for v in self.vals])
        if isinstance(o, (VFrame, Arr)):
            return NotImplemented
        raise Unsupported("arithmetic of a series")

    def __add__(self, o):
        return self._bin(o, f_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: f_add(a, f_neg(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: f_add(b, f_neg(a)))

    def __mul__(self, o):
        return self._bin(o, f_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, f_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: f_div(b, a))

    def _meth(self, o, op):
        if not isinstance(o, LSeries) and not is_scalar_(o):
            raise Unsupported("operation on a series")
        return op(self, o)

    add = lambda self, o: self._meth(o, lambda a, b: a + b)
    sub = subtract = lambda self, o: self._meth(o, lambda a, b: a - b)
    mul = multiply = lambda self, o: self._meth(o, lambda a, b: a * b)
    div = truediv = divide = lambda self, o: self._meth(o, lambda a, b: a / b)

    def __abs__(self):
        return LSeries(self.labels, [abs(fvn(v)) for v in self.vals])

    def abs(self):
        return abs(self)

    def __neg__(self):
        return LSeries(self.labels, [f_neg(fvn(v)) for v in self.vals])

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise Unsupported("power")

    def vc_sqrt(self):
        return LSeries(self.labels, [NA.fsqrt(fvn(v)) for v in self.vals])

    def fillna(self, value=None):
        return LSeries(self.labels, [f_ite(fvn(v).nan, fv(value), fvn(v)) for v in self.vals])

    def replace(self, a, b):
        if is_num(a) and is_num(b) and all(is_num(v) for v in self.vals):
            return LSeries(self.labels, [f_ite(f_eq(fv(v), fv(a)), fv(b), fv(v)) for v in self.vals])
        raise Unsupported("replace")

    def isna(self):
        r = [mkbool(fvn(v).nan) if is_num(v) else v is None for v in self.vals]
        return Flags([bool(x) for x in r])

    isnull = isna

    def reindex(self, idx):
        L = list(conc_iter(idx)) if is_conc_iter(idx) else _u("reindex")
        return LSeries(L, [self.vals[self.labels.index(l)] if l in self.labels else NANV for l in L])

    def copy(self):
        return LSeries(self.labels, self.vals, False)

    def astype(self, t):
        import fakes
        if t in (fakes.vfloat, float, "float") and all(is_num(v) for v in self.vals):
            return LSeries(self.labels, [fv(v) for v in self.vals])
        raise Unsupported("astype")

    def sum(self):
        r = fconst(0.0)
        for v in self.vals:
            r = f_add(r, f_ite(fvn(v).nan, fconst(0.0), fvn(v)))
        return r

    def __eq__(self, o):
        raise Unsupported("comparison of a series of labels")

    __hash__ = None

    def __bool__(self):
        raise deliberate(ValueError("The truth value of a Series is ambiguous"))


def fvn(v):
    if v is None:
        return fv(NANV)
    if not is_num(v):
        raise Unsupported("number expected")
    return fv(v)


class ILoc(Vc):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, int) and isinstance(self.s, LSeries):
            try:
                return self.s.vals[k]
            except IndexError as e:
                raise deliberate(e)
        raise Unsupported("iloc")


class Loc(Vc):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            if isinstance(k[1], Flags):
                return self.d.pick([l for l, b in zip(self.d.labels, k[1].b) if b])
            return self.d[k[1]]
        raise Unsupported("loc")


class VFrame(Vc):
    """columns with concrete distinct labels, symbolic number of rows"""
    __slots__ = ("labels", "cols", "ix", "n", "blank")

    def __init__(self, labels, cols, ix=None, n=None, blank=()):
        self.labels, self.cols = list(labels), [plain(a) for a in cols]
        if len(set(self.labels)) != len(self.labels):
            raise Unsupported("duplicated column labels")
        self.n = n if n is not None else (self.cols[0].n if self.cols else z3.IntVal(0))
        import pdfake
        self.ix = ix if ix is not None else pdfake.VIndex(self.n)
        self.blank = set(blank)

    # ---------------------------------------------------------------- shape
    @property
    def index(self):
        return self.ix

    @index.setter
    def index(self, ix):
        import pdfake
        if not isinstance(ix, pdfake.VIndex):
            raise Unsupported("index of a frame")
        if not ix.n.eq(self.n) and not cxx().fork(ix.n == self.n):
            raise deliberate(ValueError("Length mismatch"))
        log_write(self)
        self.ix = ix

    @property
    def columns(self):
        return LIndex(self.labels)

    @property
    def shape(self):
        return (mkint(self.n), len(self.labels))

    @property
    def empty(self):
        return True if not self.labels else mkbool(self.n == 0)

    def vlen(self):
        return mkint(self.n)

    @property
    def loc(self):
        return Loc(self)

    def copy(self):
        return VFrame(self.labels, self.cols, self.ix, self.n, self.blank)

    def col(self, l):
        return self.cols[self.labels.index(l)]

    def ser(self, a):
        b = plain(a)
        b.is_series, b.index = True, self.ix
        return b

    def pick(self, ls):
        return VFrame(ls, [self.col(l) for l in ls], self.ix, self.n, self.blank & set(ls))

    def __contains__(self, l):
        return l in self.labels

    def __iter__(self):
        return iter(self.labels)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.labels:
                raise deliberate(KeyError(k))
            return self.ser(self.col(k))
        if isinstance(k, (VList, LIndex, list)) and is_conc_iter(k) and all(isinstance(x, str) for x in k):
            ls = list(k)
            for l in ls:
                if l not in self.labels:
                    raise deliberate(KeyError(l))
            return self.pick(ls)
        raise Unsupported("index of a frame")

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, Arr):
            raise Unsupported("column assignment")
        if v.is_series and not v.index.same(self.ix):
            raise Unsupported("assignment of a column with another index")
        log_write(self)
        if not self.labels:
            self.n = v.n
        if not v.n.eq(self.n) and not cxx().fork(v.n == self.n):
            raise deliberate(ValueError("Length of values does not match length of index"))
        if k in self.labels:
            self.cols[self.labels.index(k)] = plain(v)
        else:
            self.labels.append(k)
            self.cols.append(plain(v))
        self.blank.discard(k)

    def like(self, cols, blank=()):
        return VFrame(self.labels, cols, self.ix, self.n, blank)

    # ---------------------------------------------------------------- cell by cell
    def replace(self, a, b):
        if isinstance(a, str) and a == "nan" and is_num(b) and cxx().entails(fv(b).nan):
            out = []
            t = tstr("nan")
            for x in self.cols:
                if x.kind != "t":
                    out.append(x)
                    continue
                f = x.f
                out.append(Arr(x.n, lambda i, f=f: TV(s_(z3.Or(f(i).nan, f(i).t == t)), f(i).t), "t", x.dtype))
            return self.like(out)
        if is_num(a) and isinstance(b, str) and b == "":
            out = []
            for x in self.cols:
                f = fcell(x)
                i = z3.Int(cxx().name("ind"))
                if not cxx().entails(z3.Implies(z3.And(0 <= i, i < x.n), z3.Or(f(i).nan, f_eq(f(i), fv(a))))):
                    raise Unsupported("texts among numbers")
                e = tstr("")
                out.append(Arr(x.n, lambda i, f=f: TV(f(i).nan, e), "t", NA.OBJTEXT))
            return self.like(out, self.labels)
        if is_num(a) and is_num(b):
            va, vb = fv(a), fv(b)
            out = []
            for x in self.cols:
                f = fcell(x)
                out.append(Arr(x.n, lambda i, f=f: f_ite(f_eq(f(i), va), vb, f(i)), "f", NA.FLOAT))
            return self.like(out)
        raise Unsupported("replace")

    def fillna(self, value=None, **k):
        if k or not is_num(value):
            raise Unsupported("fillna")
        v = fv(value)
        out = []
        for x in self.cols:
            if x.kind == "t":
                if not cxx().entails(v.nan):
                    raise Unsupported("fillna of texts")
                out.append(x)
                continue
            f = fcell(x)
            out.append(Arr(x.n, lambda i, f=f: f_ite(f(i).nan, v, f(i)), "f", NA.FLOAT))
        return self.like(out, self.blank)

    def isna(self):
        return self.like([Arr(x.n, missing(x), "b", NA.BOOL, (0, 1)) for x in self.cols])

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def __invert__(self):
        return self.like([~x for x in self.cols])

    def abs(self):
        return self.like([abs(x) for x in self.cols])

    __abs__ = abs

    def __neg__(self):
        return self.like([-x for x in self.cols])

    def __pow__(self, k):
        return self.like([x ** k for x in self.cols])

    def pow(self, k):
        return self ** k

    def astype(self, t):
        return self.like([NA.astype(x, t) for x in self.cols])

    def _nan(self, n):
        v = fv(NANV)
        return Arr(n, lambda i: v, "f", NA.FLOAT)

    def _bin(self, o, g, text=None):
        """g(column, column or scalar)"""
        if isinstance(o, LSeries):
            L = union_labels(self.labels, o.labels)
            out = []
            for l in L:
                if l not in self.labels or l not in o.labels:
                    out.append(self._nan(self.n))
                    continue
                v, x = o.vals[o.labels.index(l)], self.col(l)
                if isinstance(v, (str, Str)):
                    if text != "+" or l not in self.blank:
                        raise Unsupported("texts in arithmetic")
                    t, f = tstr(v), x.f
                    out.append(Arr(x.n, lambda i, f=f, t=t: TV(f(i).nan, t), "t", NA.OBJTEXT))
                    continue
                if l in self.blank or x.kind == "t":
                    raise Unsupported("texts in arithmetic")
                out.append(g(x, fvn(v) if v is None or isinstance(v, float) else v))
            return VFrame(L, out, self.ix, self.n)
        if isinstance(o, VFrame):
            if not self.ix.same(o.ix):
                raise Unsupported("operation on frames with different indexes")
            L = union_labels(self.labels, o.labels)
            out = [g(self.col(l), o.col(l)) if l in self.labels and l in o.labels else self._nan(self.n) for l in L]
            return VFrame(L, out, self.ix, self.n)
        if is_num(o) or isinstance(o, (bool, SymBool)):
            return self.like([g(x, o) for x in self.cols])
        raise Unsupported(f"arithmetic of a frame with {type(o).__name__}")

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, "+")

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__
    __radd__ = __add__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    mul = multiply = lambda self, o, axis="columns": self._axis(o, axis, lambda a, b: a * b)
    div = truediv = divide = lambda self, o, axis="columns": self._axis(o, axis, lambda a, b: a / b)
    add = lambda self, o, axis="columns": self._axis(o, axis, lambda a, b: a + b)
    sub = subtract = lambda self, o, axis="columns": self._axis(o, axis, lambda a, b: a - b)

    def _axis(self, o, axis, g):
        if axis in (0, "index", "rows") and isinstance(o, Arr):
            if o.is_series:
                if not o.index.same(self.ix):
                    raise Unsupported("operation on a frame and a series with different indexes")
            elif not o.n.eq(self.n) and not cxx().fork(o.n == self.n):
                raise deliberate(ValueError("Unable to coerce to Series, length must match"))
            b = plain(o)
            return self.like([g(x, b) for x in self.cols])
        if axis in (1, "columns") or isinstance(o, VFrame):
            return self._bin(o, g)
        raise Unsupported("axis")

    def _cmp(self, o, g):
        if isinstance(o, LSeries):
            if sorted(o.labels) != sorted(self.labels):
                raise deliberate(ValueError("Can only compare identically-labeled objects"))
            L = union_labels(self.labels, o.labels)
            return VFrame(L, [plain(g(self.col(l), o.vals[o.labels.index(l)])) for l in L], self.ix, self.n)
        if isinstance(o, VFrame):
            if o.labels != self.labels or not self.ix.same(o.ix):
                raise Unsupported("comparison of frames")
            return self.like([g(self.col(l), o.col(l)) for l in self.labels])
        if is_scalar_(o):
            return self.like([g(x, o) for x in self.cols])
        raise Unsupported("comparison of a frame")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _flex(self, o, axis, g):
        if isinstance(o, LSeries) and axis in (1, "columns"):
            if list(o.labels) != list(self.labels):
                raise Unsupported("comparison of a frame and a series with other labels")
            return self._cmp(o, g)
        if isinstance(o, LSeries):
            raise Unsupported("axis")
        if isinstance(o, Arr):
            return self._axis(o, axis, g) if axis in (0, "index", "rows") else _u_("comparison of a frame")
        return self._cmp(o, g)

    eq = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a == b)
    ne = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a != b)
    lt = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a < b)
    le = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a <= b)
    gt = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a > b)
    ge = lambda self, o, axis="columns": self._flex(o, axis, lambda a, b: a >= b)

    __hash__ = None

    # ---------------------------------------------------------------- reductions
    def _row(self, f, kind="f"):
        a = Arr(self.n, f, kind, NA.FLOAT if kind == "f" else NA.INT64 if kind == "i" else NA.BOOL)
        a.is_series, a.index = True, self.ix
        return a

    def _rowsum(self, i, cols=None):
        r = fconst(0.0)
        for x in cols or self.cols:
            v = fcell(x)(i)
            r = f_add(r, f_ite(v.nan, fconst(0.0), v))
        return r

    def _rowcount(self, i, cols=None):
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.If(missing(x)(i), 0, 1) for x in cols or self.cols]))

    def sum(self, axis=0):
        if axis in (1, "columns"):
            return self._row(lambda i, cs=list(self.cols): self._rowsum(i, cs))
        return LSeries(self.labels, [x.sum() if x.kind == "b" else self.ser(x).sum() for x in self.cols])

    def mean(self, axis=0):
        if axis in (1, "columns"):
            return self._row(lambda i, cs=list(self.cols): f_div(self._rowsum(i, cs), fv(SInt(self._rowcount(i, cs)))))
        return LSeries(self.labels, [self.ser(x).mean() for x in self.cols])

    def std(self, axis=0, ddof=1):
        if axis != 0:
            raise Unsupported("std over rows")
        return LSeries(self.labels, [self.ser(x).std(ddof=ddof) for x in self.cols])

    def max(self, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("max over columns")

        def f(i, cs=list(self.cols)):
            r = fv(NANV)
            for x in cs:
                v = fcell(x)(i)
                r = f_ite(v.nan, r, f_ite(z3.Or(r.nan, f_lt(r, v)), v, r))
            return r
        return self._row(f)

    def count(self, axis=0):
        if axis in (1, "columns"):
            return self._row(lambda i, cs=list(self.cols): self._rowcount(i, cs), "i")
        return LSeries(self.labels, [SInt(get_enum(x.n, lambda i, m=missing(x): s_(z3.Not(m(i)))).m) for x in self.cols])

    def any(self, axis=0):
        if axis in (1, "columns"):
            return self._row(lambda i: z3.Or(*[x.f(i) for x in self.cols]) if self.cols else z3.BoolVal(False), "b")
        raise Unsupported("any")

    def dropna(self, axis=0, how="any"):
        if axis in (1, "columns") and how == "all":
            keep = []
            for l, x in zip(self.labels, self.cols):
                m = missing(x)
                if cxx().fork(get_enum(x.n, lambda i, m=m: s_(z3.Not(m(i)))).m > 0):
                    keep.append(l)
            return self.pick(keep)
        raise Unsupported("dropna")

    def drop(self, columns=None, **k):
        if k or not is_conc_iter(columns):
            raise Unsupported("drop")
        return self.pick([l for l in self.labels if l not in list(columns)])

    def apply(self, f, axis=0, **k):
        if axis != 0 or k:
            raise Unsupported("apply over rows")
        out = [f(self.ser(x)) for x in self.cols]
        if not out:
            raise Unsupported("apply on an empty frame")
        if all(isinstance(x, Arr) and x.is_series for x in out):
            ix = out[0].index
            if not all(x.index.same(ix) for x in out):
                raise Unsupported("apply gives series with different indexes")
            return VFrame(self.labels, out, ix, out[0].n)
        if all(is_num(x) or x is None or isinstance(x, (str, Str)) for x in out):
            return LSeries(self.labels, out)
        import classtable
        if all(isinstance(x, classtable.ClassCol) for x in out):
            return classtable.ClassTable(self.labels, out)
        raise Unsupported("apply")

    def reindex(self, ix=None, **k):
        import pdfake
        if not k and isinstance(ix, pdfake.VIndex) and self.ix.same(ix):
            return self.copy()
        raise Unsupported("reindex")

    def mode(self, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("mode")
        return ModeFrame(self)

    @property
    def dtypes(self):
        return Kinds([x.kind for x in self.cols])

    @property
    def __class__(self):
        import pdfake
        return pdfake.DataFrame_cls


def is_scalar_(x):
    return is_num(x) or isinstance(x, (str, Str, bool, SymBool))


class Kinds(Vc):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    @property
    def iloc(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, int):
            return KindOf(self.k[i])
        raise Unsupported("dtypes")


class KindOf(Vc):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


# ------------------------------------------------------------------------------------------------ the most frequent values of each row
class ModeFrame(Vc):
    """df.mode(axis=1): row i lists the most frequent non-missing values of row i, smallest first"""
    __slots__ = ("src", "keep")

    def __init__(self, src, keep=None):
        self.src, self.keep = src, keep

    def _times(self, u, i):
        """how often the value of column u occurs in row i"""
        cs = self.src.cols
        return z3.Sum([z3.If(z3.And(z3.Not(missing(x)(i)), same_cell(cs[u], x, i)), 1, 0) for x in cs])

    def best(self, u, i):
        """column u holds a most frequent value of row i"""
        cs = self.src.cols
        t = self._times(u, i)
        return z3.And(z3.Not(missing(cs[u])(i)),
                      *[z3.Or(missing(cs[v])(i), self._times(v, i) <= t) for v in range(len(cs)) if v != u])

    def nmodes(self, i):
        cs = self.src.cols
        out = []
        for u in range(len(cs)):
            first = z3.And(*[z3.Not(z3.And(z3.Not(missing(cs[v])(i)), same_cell(cs[u], cs[v], i))) for v in range(u)])
            out.append(z3.If(z3.And(self.best(u, i), first), 1, 0))
        return z3.simplify(z3.Sum(out)) if out else z3.IntVal(0)

    @property
    def columns(self):
        c = cxx()
        k = c.int("nmodes")
        e = get_enum(self.src.n, lambda i: s_(self.nmodes(i) >= 1))
        c.assume(z3.And(k >= 0, (k == 0) == (e.m == 0)))
        return VList(None, Seq(k, lambda j: mkint(j)))

    @property
    def shape(self):
        return (mkint(self.src.n), self.columns.vlen())

    def count(self, axis=0):
        if axis not in (1, "columns") or self.keep is not None:
            raise Unsupported("count")
        return self.src._row(self.nmodes, "i")

    @property
    def loc(self):
        return self

    @property
    def iloc(self):
        return ModeCol(self)

    def __getitem__(self, k):
        if isinstance(k, Arr) and k.kind == "b" and self.keep is None and k.is_series and k.index.same(self.src.ix):
            return ModeFrame(self.src, k.f)
        raise Unsupported("rows of a frame")


class ModeCol(Vc):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        if isinstance(k, tuple) and k[0] == slice(None) and k[1] == 0:
            m = self.m
            keep = m.keep or (lambda i: z3.BoolVal(True))
            i = z3.Int(cxx().name("ind"))
            # the first column of a row with one mode is that mode; with several it is the smallest (only the first case is in the contract)
            if not cxx().entails(z3.Implies(z3.And(0 <= i, i < m.src.n, keep(i)), m.nmodes(i) <= 1)):
                raise Unsupported("the smallest of several modes")
            kind = m.src.cols[0].kind
            if any(x.kind != kind for x in m.src.cols):
                if any(x.kind == "t" for x in m.src.cols):
                    raise Unsupported("texts and numbers")
                kind = "f"

            def cell(i):
                r = TV(z3.BoolVal(True), tstr("")) if kind == "t" else fv(NANV)
                for u, x in enumerate(m.src.cols):
                    b = m.best(u, i)
                    r = t_ite(b, x.f(i), r) if kind == "t" else f_ite(b, fcell(x)(i), r)
                return r
            return Partial(m.src, keep, cell, "t" if kind == "t" else "f")
        raise Unsupported("iloc")


class Rows(Vc):
    """n rows with their labels"""
    __slots__ = ("n", "ix")

    def __init__(self, n, ix):
        self.n, self.ix = n, ix


class Partial(Vc):
    """a series on the rows of an index that satisfy keep"""
    __slots__ = ("src", "keep", "cell", "kind", "name")

    def __init__(self, src, keep, cell, kind):
        self.src, self.keep, self.cell, self.kind, self.name = src, keep, cell, kind, None

    @property
    def index(self):
        import pdfake
        return pdfake.SubIndex(self.src.ix, self.keep)

    def vlen(self):
        return mkint(get_enum(self.src.n, lambda i: s_(self.keep(i))).m)

    def value_counts(self, **k):
        return self.reindex(self.src.ix).value_counts(**k)

    def reindex(self, ix):
        if not ix.same(self.src.ix):
            raise Unsupported("reindex")
        if self.kind == "t":
            f = lambda i: t_ite(self.keep(i), self.cell(i), TV(z3.BoolVal(True), tstr("")))
            a = Arr(self.src.n, f, "t", NA.OBJTEXT)
        else:
            nan = fv(NANV)
            a = Arr(self.src.n, lambda i: f_ite(self.keep(i), self.cell(i), nan), "f", NA.FLOAT)
        a.is_series, a.index = True, ix
        return a


def same_cell(a, b, i):
    """the (non-missing) cells i of columns a and b are equal"""
    if a.kind == "t" and b.kind == "t":
        return a.f(i).t == b.f(i).t
    if (a.kind == "t") != (b.kind == "t"):
        return z3.BoolVal(False)
    return f_eq(fcell(a)(i), fcell(b)(i))


# ------------------------------------------------------------------------------------------------ constructors
def frame(data=None, index=None, columns=None, dtype=None):
    """pd.DataFrame"""
    import pdfake
    if data is None and index is None and columns is None:
        return VFrame([], [], n=z3.IntVal(0))
    if isinstance(data, dict) and index is None and columns is None:
        if not data:
            return VFrame([], [], n=z3.IntVal(0))
        import classtable
        if all(isinstance(l, str) for l in data) and all(isinstance(a, classtable.ClassCol) for a in data.values()):
            return classtable.ClassTable(list(data), [x.but(drop=False, sorted_=False, desc=False) for x in data.values()])
        ls, cs = [], []
        for l, a in data.items():
            if not isinstance(l, str) or not isinstance(a, Arr):
                raise Unsupported("pd.DataFrame of a dict")
            if a.is_series and not a.index.range:
                raise Unsupported("pd.DataFrame of series")
            if cs and not a.n.eq(cs[0].n) and not cxx().fork(a.n == cs[0].n):
                raise deliberate(ValueError("All arrays must be of the same length"))
            ls.append(l)
            cs.append(a)
        return VFrame(ls, cs)
    if isinstance(data, Arr) and not data.is_series and index is None and isinstance(columns, VList) and columns.conc:
        if len(columns.items) == 1 and isinstance(columns.items[0], str):
            return VFrame([columns.items[0]], [data])
    if isinstance(data, VList) and data.conc and len(data.items) == 1 and isinstance(data.items[0], Arr) and columns is None \
            and isinstance(index, VList) and index.conc and len(index.items) == 1:
        return ClassRows([index.items[0]], [data.items[0]])
    if isinstance(data, VList) and data.conc and data.items and all(isinstance(r, VList) for r in data.items) and isinstance(index, VList) \
            and isinstance(columns, VList):
        import tablefake
        return tablefake.frame(data, index, columns)
    return None


def concat(objs, axis=0):
    if axis in (1, "columns") and is_conc_iter(objs):
        objs = list(conc_iter(objs))
        if all(isinstance(o, VFrame) for o in objs) and objs:
            ls, cs = [], []
            full = [o for o in objs if o.labels] or objs[:1]
            for o in full:
                if not o.ix.same(full[0].ix):
                    raise Unsupported("concat of frames with different indexes")
                ls += o.labels
                cs += o.cols
            return VFrame(ls, cs, full[0].ix, full[0].n)
    if isinstance(objs, (list, VList)) and is_conc_iter(objs):
        import tablefake
        return tablefake.concat(VList(list(conc_iter(objs))), axis)
    raise Unsupported("pd.concat")


# ------------------------------------------------------------------------------------------------ votes by class
class ClassRows(Vc):
    """a frame with one row per class (symbolic, distinct) and one column per point"""
    __slots__ = ("keys", "rows", "ix", "n", "keep")

    def __init__(self, keys, rows, keep=None, n=None):
        import pdfake
        self.keys, self.rows = list(keys), [plain(r) for r in rows]
        self.n = n if n is not None else self.rows[0].n
        self.ix = pdfake.VIndex(self.n)
        self.keep = keep        # columns left (None: all)

    @property
    def index(self):
        return KeyIndex(self.keys)

    @property
    def columns(self):
        return self.ix

    @property
    def loc(self):
        return ClassLoc(self)

    def _all(self):
        if self.keep is not None:
            raise Unsupported("some columns of a table of votes")

    def _ser(self, f, kind="f"):
        a = Arr(self.n, f, kind, NA.FLOAT if kind == "f" else NA.INT64)
        a.is_series, a.index = True, self.ix
        return a

    def max(self, axis=0):
        self._all()
        if axis != 0:
            raise Unsupported("max")

        def f(i, rows=list(self.rows)):
            r = fv(NANV)
            for x in rows:
                v = fcell(x)(i)
                r = f_ite(v.nan, r, f_ite(z3.Or(r.nan, f_lt(r, v)), v, r))
            return r
        return self._ser(f)

    def __eq__(self, o):
        self._all()
        if isinstance(o, Arr) and o.is_series and o.index.same(self.ix):
            return ClassRows(self.keys, [plain(x) == plain(o) for x in self.rows], None, self.n)
        raise Unsupported("comparison of a table of votes")

    __hash__ = None

    def sum(self, axis=0):
        if axis != 0:
            raise Unsupported("sum")
        if all(x.kind == "b" for x in self.rows):
            self._all()
            return self._ser(lambda i, rows=list(self.rows): z3.simplify(z3.Sum([z3.If(x.f(i), 1, 0) for x in rows])), "i")

        def f(i, rows=list(self.rows)):
            r = fconst(0.0)
            for x in rows:
                v = fcell(x)(i)
                r = f_add(r, f_ite(v.nan, fconst(0.0), v))
            return r
        if self.keep is None:
            return self._ser(f)
        return Partial(self, self.keep, f, "f")

    def dropna(self, axis=0, how="any"):
        if axis not in (1, "columns") or how != "any" or self.keep is not None:
            raise Unsupported("dropna")
        return ClassRows(self.keys, self.rows, lambda i, rows=list(self.rows): z3.And(*[z3.Not(missing(x)(i)) for x in rows]), self.n)

    def apply(self, f, axis=0):
        """the function applied to every column left: run once on an arbitrary one"""
        if axis != 0:
            raise Unsupported("apply")
        c = cxx()
        i = z3.Int(c.name("pt"))
        from core import Sub
        keep = self.keep or (lambda i: z3.BoolVal(True))
        sub = Sub(c, [0 <= i, i < self.n, keep(i)])
        alts = sub.run(lambda: f(KSeries(self.keys, [fcell(x)(i) for x in self.rows])))
        out = []
        for cond, k, v in alts:
            if k == "raise":
                if c.entails(z3.Implies(z3.And(0 <= i, i < self.n, keep(i)), z3.Not(cond))):
                    continue
                raise Unsupported(f"apply may raise {v}")
            if not isinstance(v, KSeries) or len(v.keys) != len(self.keys) or any(a is not b for a, b in zip(v.keys, self.keys)):
                raise Unsupported("apply")
            out.append((cond, v))
        if not out:
            raise PathEnd()
        rows = []
        for q in range(len(self.keys)):
            text = any(isinstance(v.vals[q], (TV, Str, str)) for _, v in out)

            def cell(j, q=q, text=text):
                r = None
                for cond, v in out:
                    x = v.vals[q]
                    if text:
                        x = x if isinstance(x, TV) else TV(z3.BoolVal(False), tstr(x)) if isinstance(x, (Str, str)) else TV(fv(x).nan, tstr(""))
                    else:
                        x = fv(x)
                    x = subst_cell(x, i, j)
                    r = x if r is None else (t_ite if text else f_ite)(z3.substitute(cond, (i, j)), x, r)
                return r
            rows.append(Arr(self.n, cell, "t" if text else "f", NA.OBJTEXT if text else NA.FLOAT))
        return ClassRows(self.keys, rows, self.keep, self.n)

    def bfill(self):
        return self._fill(range(len(self.rows) - 1, -1, -1))

    def ffill(self):
        return self._fill(range(len(self.rows)))

    def _fill(self, order):
        out = [None] * len(self.rows)
        prev = None
        for q in order:
            x = self.rows[q]
            if prev is None:
                out[q] = x
            else:
                p = prev
                if x.kind == "t":
                    out[q] = Arr(self.n, lambda i, x=x, p=p: t_ite(x.f(i).nan, p.f(i), x.f(i)), "t", NA.OBJTEXT)
                else:
                    out[q] = Arr(self.n, lambda i, x=x, p=p: f_ite(fcell(x)(i).nan, fcell(p)(i), fcell(x)(i)), "f", NA.FLOAT)
            prev = out[q]
        return ClassRows(self.keys, out, self.keep, self.n)

    @property
    def iloc(self):
        return ClassILoc(self)

    @property
    def __class__(self):
        import pdfake
        return pdfake.DataFrame_cls


class ClassILoc(Vc):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, int):
            x = self.d.rows[k]
            keep = self.d.keep or (lambda i: z3.BoolVal(True))
            return Partial(self.d, keep, x.f if x.kind == "t" else fcell(x), "t" if x.kind == "t" else "f")
        raise Unsupported("iloc")


class KeyIndex(Vc):
    """an index of symbolic, pairwise distinct keys"""
    __slots__ = ("keys",)

    def __init__(self, keys):
        self.keys = keys

    def vlen(self):
        return len(self.keys)

    def __contains__(self, x):
        for k in self.keys:
            if k is x or cxx().fork(veq(k, x)):
                return True
        return False

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.keys[k]
        if isinstance(k, KFlags):
            return KeysAt(self.keys, k.b)
        raise Unsupported("index of classes")

    def __iter__(self):
        return iter(self.keys)


class KeysAt(Vc):
    """index[flags]: the keys where the flag is set"""
    __slots__ = ("keys", "b")

    def __init__(self, keys, b):
        self.keys, self.b = keys, b


class ClassLoc(Vc):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def _at(self, k):
        for q, x in enumerate(self.d.keys):
            if x is k or cxx().fork(veq(x, k)):
                return q
        return None

    def __getitem__(self, k):
        if isinstance(k, (tuple, slice)):
            raise Unsupported("loc")
        q = self._at(k)
        if q is None:
            raise deliberate(KeyError("class"))
        a = plain(self.d.rows[q])
        a.is_series, a.index = True, self.d.ix
        return a

    def __setitem__(self, k, v):
        d = self.d
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], Arr) and k[1].kind == "b" and is_num(v):
            w, b = fv(v), k[1].f
            d.rows = [Arr(x.n, lambda i, x=fcell(x): f_ite(b(i), w, x(i)), "f", NA.FLOAT) for x in d.rows]
            return
        if isinstance(k, (tuple, slice)) or not isinstance(v, Arr):
            raise Unsupported("loc assignment")
        if not v.n.eq(d.n) and not cxx().fork(v.n == d.n):
            raise deliberate(ValueError("cannot set a row with mismatched columns"))
        if v.is_series and not v.index.same(d.ix):
            raise Unsupported("loc assignment of a series with another index")
        q = self._at(k)
        if q is None:
            d.keys.append(k)
            d.rows.append(plain(v))
        else:
            d.rows[q] = plain(v)


class KFlags(Vc):
    """flags over symbolic keys"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __invert__(self):
        return KFlags([s_(z3.Not(x)) for x in self.b])


class KSeries(Vc):
    """one column of a table of votes: symbolic keys, values"""
    __slots__ = ("keys", "vals", "flags")

    def __init__(self, keys, vals, flags=False):
        self.keys, self.vals, self.flags = keys, list(vals), flags

    @property
    def index(self):
        return KeyIndex(self.keys)

    def vlen(self):
        return len(self.vals)

    def max(self):
        r = fv(NANV)
        for v in self.vals:
            v = fv(v)
            r = f_ite(v.nan, r, f_ite(z3.Or(r.nan, f_lt(r, v)), v, r))
        return r

    def sum(self):
        r = fconst(0.0)
        for v in self.vals:
            v = fv(v)
            r = f_add(r, f_ite(v.nan, fconst(0.0), v))
        return r

    def __eq__(self, o):
        if is_num(o):
            return KSeries(self.keys, [SymBool(f_eq(fv(v), fv(o))) for v in self.vals], True)
        raise Unsupported("comparison")

    __hash__ = None

    def astype(self, t):
        import fakes
        if self.flags and t in (fakes.vint, int):
            return KSeries(self.keys, [SInt(b2i(v.t)) for v in self.vals])
        if t in (fakes.vfloat, float):
            return KSeries(self.keys, [fv(SInt(b2i(v.t))) if isinstance(v, SymBool) else fv(v) for v in self.vals])
        raise Unsupported("astype")

    def replace(self, a, b):
        return KSeries(self.keys, [f_ite(f_eq(fv(v), fv(a)), fv(b), fv(v)) for v in self.vals])

    def isna(self):
        return KFlags([v.nan if isinstance(v, TV) else fv(v).nan for v in self.vals])

    isnull = isna

    def notna(self):
        return ~self.isna()

    def __mul__(self, o):
        if isinstance(o, KeyIndex):
            if not all(a is b for a, b in zip(o.keys, self.keys)) or any(not is_num(k) for k in o.keys):
                raise Unsupported("product with an index")
            return KSeries(self.keys, [f_mul(fv(v), fv(k)) for v, k in zip(self.vals, o.keys)])
        if is_num(o):
            return KSeries(self.keys, [f_mul(fv(v), fv(o)) for v in self.vals])
        raise Unsupported("product")

    def __getitem__(self, k):
        raise Unsupported("series of votes")

    def __setitem__(self, k, v):
        if isinstance(k, KFlags) and isinstance(v, KeysAt) and all(x.eq(y) for x, y in zip(k.b, v.b)):
            self.vals = [TV(s_(z3.And(z3.Not(b), fv(x).nan)), tstr(key)) for b, x, key in zip(k.b, self.vals, v.keys)]
            for b, x in zip(k.b, self.vals):
                pass
            return
        raise Unsupported("series of votes")
