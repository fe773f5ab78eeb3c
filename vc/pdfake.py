"""Contracts of the part of pandas the repository uses.

Series: an Arr with is_series = True and an index (VIndex).  Feature tables: FeatFrame (symbolic rows and columns).  Stacked
tables (one column per rule): VFrame, a concrete list of (label, column), symbolic rows."""
import types
import z3
from core import Cx, Unsupported
from values import *
import nparr as NA
from nparr import FA


def cxx():
    return Cx.cur


class VIndex(Vc):
    """row labels: RangeIndex(n) or an arbitrary index of its own"""
    __slots__ = ("n", "range", "key")

    def __init__(self, n, rng=True, key=None):
        self.n, self.range, self.key = n, rng, key

    def same(self, o):
        if self is o:
            return True
        if self.range and o.range:
            return self.n.eq(o.n) or cxx().entails(self.n == o.n)
        return self.key is not None and self.key is o.key

    def vlen(self):
        return mkint(self.n)

    @property
    def size(self):
        return mkint(self.n)


class Series_cls:
    _vc_instance = staticmethod(lambda x: isinstance(x, Arr) and x.is_series or type(x).__name__ in ("LSeries", "KSeries", "Partial", "CellSeries", "ClassCol"))

    def __new__(cls, data=None, index=None, dtype=None, name=None):
        c = cxx()
        if isinstance(data, dict) and index is None and data and all(isinstance(k, str) for k in data):
            import frames
            return frames.LSeries(list(data), list(data.values()))
        if isinstance(data, VList) and isinstance(index, VList) and (dtype is None or repr(dtype) in ("str", "vstr", "object")):
            import tablefake
            if all(tablefake.is_text(x) for x in tablefake.conc(data)):
                return tablefake.series(data, index, name)
        if data is None:
            a = Arr(z3.IntVal(0), lambda i: z3.IntVal(0), "i", NA.INT64)
        elif isinstance(data, Arr):
            a = data.copy()
            if data.is_series and index is None:
                return a
        elif isinstance(data, VList):
            a = NA.from_seq(data.as_seq())
        elif is_num(data) and index is not None:
            a = _const(index.n, data)
        else:
            raise Unsupported(f"pd.Series({type(data).__name__})")
        if dtype is not None:
            a = NA.astype(a, dtype)
        a.is_series = True
        a.index = index if isinstance(index, VIndex) else VIndex(a.n)
        if index is not None and not isinstance(index, VIndex):
            raise Unsupported("series with a list of labels")
        a.sname = name
        return a


for _m in ("value_counts", "isna", "isnull", "notna", "notnull", "mean", "sum", "std", "dropna", "sort_index", "max", "min"):
    setattr(Series_cls, _m, staticmethod(lambda s, *a, _m=_m, **k: getattr(s, _m)(*a, **k)))


def _const(n, v):
    if isinstance(v, (float, FV)):
        w = fv(v)
        return Arr(n, lambda i: w, "f", NA.FLOAT)
    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        return Arr(n, lambda i: ti(v), "i", NA.INT64)
    raise Unsupported("constant series")


class FeatFrame(Vc):
    """a table of features: n rows, m columns with distinct names; cell(name, row)"""
    __slots__ = ("n", "m", "names", "cell", "ix", "where", "kind")
    _vc_type = None

    def __init__(self, n, m, names, cell, where, kind="f"):
        self.n, self.m, self.names, self.cell, self.where, self.kind = n, m, names, cell, where, kind
        self.ix = VIndex(n, False, self)

    @property
    def shape(self):
        return (mkint(self.n), mkint(self.m))

    @property
    def index(self):
        return self.ix

    @property
    def columns(self):
        return VList(None, Seq(self.m, lambda j: Str(self.names(j))))

    def vlen(self):
        return mkint(self.n)

    def has(self, s):
        """the column named s exists: where(s) is its position"""
        w = self.where(s)
        return z3.And(0 <= w, w < self.m)

    def __getitem__(self, k):
        if isinstance(k, (Str, str)):
            t = tstr(k)
            if not cxx().fork(self.has(t)):
                raise deliberate(KeyError("no such column"))
            a = Arr(self.n, lambda i: self.cell(t, i), self.kind, NA.FLOAT if self.kind == "f" else NA.INT64)
            a.is_series, a.index = True, self.ix
            a.base = self
            return a
        raise Unsupported("table index")

    @property
    def __class__(self):
        return FrameMaker


class FrameMaker:
    """xs.__class__(index=..., data=...): a table of one column"""

    def __new__(cls, data=None, index=None, columns=None):
        if isinstance(data, Arr) and not data.is_series and isinstance(index, VIndex):
            return OneCol(data, index)
        raise Unsupported("pd.DataFrame()")


class OneCol(Vc):
    __slots__ = ("a", "ix")

    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def squeeze(self, axis=None):
        a = self.a.copy()
        a.is_series, a.index = True, self.ix
        if axis in (1, "columns"):
            return a
        if axis is None:
            if cxx().fork(a.n == 1):
                return a.get(z3.IntVal(0))
            return a
        raise Unsupported("squeeze")


class DataFrame_cls:
    _vc_instance = staticmethod(lambda x: isinstance(x, (FeatFrame, OneCol)) or type(x).__name__ in ("VFrame", "ModeFrame", "ClassRows", "Cells", "ClassTable"))

    def __new__(cls, data=None, index=None, columns=None, dtype=None):
        import frames
        r = frames.frame(data, index, columns, dtype)
        if r is not None:
            return r
        return FrameMaker(data, index, columns)


def make(Mod):
    pd = Mod("pandas")
    pd.Series, pd.DataFrame = Series_cls, DataFrame_cls

    def isna(x):
        if is_num(x):
            return mkbool(fv(x).nan)
        if x is None:
            return True
        if isinstance(x, (str, Str, SymText)):
            return False
        if isinstance(x, Arr) and x.kind in "fib":
            return x.isna()
        raise Unsupported("pd.isna")
    pd.isna = pd.isnull = isna

    def concat(objs, axis=0, **k):
        import frames
        if k:
            raise Unsupported("pd.concat")
        return frames.concat(objs, axis)

    def range_index(start=None, stop=None, step=None):
        if stop is not None or step is not None:
            raise Unsupported("pd.RangeIndex")
        return VIndex(ti(start))

    def is_string_dtype(k):
        if type(k).__name__ == "KindOf":
            return k.k == "t"
        raise Unsupported("is_string_dtype")
    pd.concat, pd.RangeIndex = concat, range_index

    def read_csv(path, **k):
        import tablefake
        return tablefake.read_csv(path, **k)
    pd.read_csv = read_csv
    pd.api = types.SimpleNamespace(types=types.SimpleNamespace(is_string_dtype=is_string_dtype))
    return pd


# ------------------------------------------------------------------------------------------------ series methods
def _ser_values(s):
    if not s.is_series:
        raise AttributeError("values")
    a = s.copy()
    a.is_series, a.index = False, None
    a.base = s
    return a


NA.prop("values", _ser_values)


def _isna(s):
    f, k = s.f, s.kind
    if k == "t":
        out = Arr(s.n, lambda i: f(i).nan, "b", NA.BOOL, (0, 1))
        NA._ser(out, s if s.is_series else None)
        return out
    out = Arr(s.n, lambda i: NA.cast_cell(f(i), k, "f").nan, "b", NA.BOOL, (0, 1))
    NA._ser(out, s if s.is_series else None)
    return out


Arr.isna = Arr.isnull = _isna


def _sub(s, o, axis=0):
    return s - o


Arr.sub = _sub
Arr.abs = lambda s: abs(s)


def _series(f):
    def m(s, *a, **k):
        if not s.is_series:
            raise deliberate(AttributeError("'numpy.ndarray' object has no attribute " + f.__name__.strip("_")))
        return f(s, *a, **k)
    return m


def _like(s, f, kind="f", dtype=None, rng=None):
    a = Arr(s.n, f, kind, dtype or NA.FLOAT, rng)
    a.is_series, a.index = True, s.index
    return a


def _reindex(s, ix):
    if isinstance(ix, VIndex) and ix.same(s.index):
        return s.copy()
    raise Unsupported("reindex")


def _replace(s, a, b):
    if not (is_num(a) and is_num(b)) or s.kind == "t":
        raise Unsupported("replace")
    import frames
    va, vb, f = fv(a), fv(b), frames.fcell(s)
    return _like(s, lambda i: f_ite(f_eq(f(i), va), vb, f(i)))


def _where(s, m, other=None):
    if not isinstance(m, Arr) or m.kind != "b":
        raise Unsupported("where")
    if m.is_series:
        if not m.index.same(s.index):
            raise Unsupported("where with another index")
    elif not m.n.eq(s.n) and not cxx().fork(m.n == s.n):
        raise deliberate(ValueError("Array conditional must be same shape as self"))
    import frames
    if s.kind == "t":
        if other is not None:
            raise Unsupported("where")
        f, g = s.f, m.f
        return _like(s, lambda i: TV(s_(z3.Or(z3.Not(g(i)), f(i).nan)), f(i).t), "t", NA.OBJTEXT)
    f, g = frames.fcell(s), m.f
    o = fv(float("nan")) if other is None else fv(other)
    return _like(s, lambda i: f_ite(g(i), f(i), o))


def _fillna(s, v):
    import frames
    f, w = frames.fcell(s), fv(v)
    return _like(s, lambda i: f_ite(f(i).nan, w, f(i)))


for _k, _f in (("reindex", _reindex), ("replace", _replace), ("where", _where), ("fillna", _fillna)):
    setattr(Arr, _k, _series(_f))
def _value_counts(s, **k):
    import classtable
    return classtable.value_counts(s, **k)


Arr.value_counts = _series(_value_counts)
Arr.notna = Arr.notnull = lambda s: ~s.isna()


def _pick(s, k):
    """series[flags]: the part of the series where the flag is set"""
    import frames
    if isinstance(k, Arr) and k.kind == "b" and k.is_series and k.index.same(s.index):
        return frames.Partial(frames.Rows(s.n, s.index), k.f, s.f if s.kind == "t" else frames.fcell(s), "t" if s.kind == "t" else "f")
    raise Unsupported("indexing a series")


NA.pick_series = _pick


class SubIndex(Vc):
    """the labels of an index where a flag is set"""
    __slots__ = ("ix", "keep")

    def __init__(self, ix, keep):
        self.ix, self.keep = ix, keep


def _isin(ix, o):
    if isinstance(o, SubIndex) and o.ix.same(ix):
        return Arr(ix.n, lambda i: s_(o.keep(i)), "b", NA.BOOL, (0, 1))
    if isinstance(o, VIndex) and o.same(ix):
        return Arr(ix.n, lambda i: z3.BoolVal(True), "b", NA.BOOL, (0, 1))
    raise Unsupported("isin")


VIndex.isin = _isin


def _set_name(s, v):
    s.sname = v


Arr.name = property(lambda s: s.sname, _set_name)
