"""Contracts of the tables of texts the repository saves and loads: pd.Series(list, index=list), pd.concat of such series, the
transpose, to_csv and read_csv.  A table has a concrete shape and arbitrary cells; writing it to a file and reading it back gives
each cell's text, missing cells and empty texts becoming NaN, the row labels becoming a first column "Unnamed: 0"."""
import z3
from core import Cx, Unsupported
from values import *

NAN = float("nan")
DEFAULT_NA = ("#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN",
              "n/a", "nan", "null")


def cxx():
    return Cx.cur


def decide(r):
    return cxx().fork(r.t) if isinstance(r, SymBool) else bool(r)


def conc(l):
    if isinstance(l, VList) and l.conc:
        return list(l.items)
    if isinstance(l, (list, tuple)):
        return list(l)
    raise Unsupported("list of labels")


def is_text(v):
    return isinstance(v, (str, Str, SymText))


class CellSeries(Vc):
    """a series with concrete labels"""
    __slots__ = ("ix", "vals", "name")

    def __init__(self, ix, vals, name=None):
        self.ix, self.vals, self.name = ix, vals, name
        if len(ix) != len(vals):
            raise deliberate(ValueError("Length of values does not match length of index"))

    @property
    def index(self):
        return VList(list(self.ix))

    @property
    def values(self):
        return ColValues(self.vals)

    def keys(self):
        return self.index

    def items(self):
        return iter(list(zip(self.ix, self.vals)))

    def get(self, k, d=None):
        return self[k] if k in self.ix else d

    def __contains__(self, k):
        if not all(isinstance(x, str) for x in self.ix) or not isinstance(k, str):
            raise Unsupported("label of a series")
        return k in self.ix

    def __getitem__(self, k):
        if not isinstance(k, str) or self.ix.count(k) > 1 or not all(isinstance(x, str) for x in self.ix):
            raise Unsupported("series of cells")
        if k not in self.ix:
            raise deliberate(KeyError(k))
        return self.vals[self.ix.index(k)]

    def __eq__(self, o):
        if not isinstance(o, str):
            raise Unsupported("comparison of cells")
        return Mask([decide(v == o) if is_text(v) else False for v in self.vals])

    def __ne__(self, o):
        return Mask([not b for b in self.__eq__(o).flags])

    def isin(self, l):
        l = conc(l)
        return Mask([is_text(v) and any(decide(v == o) for o in l) for v in self.vals])

    def vlen(self):
        return len(self.vals)


class Mask(Vc):
    __slots__ = ("flags",)

    def __init__(self, flags):
        self.flags = list(flags)

    def __invert__(self):
        return Mask([not b for b in self.flags])

    def any(self):
        return any(self.flags)

    def sum(self):
        return sum(self.flags)


class ColValues(Vc):
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals

    def __contains__(self, x):
        if not isinstance(x, str):
            raise Unsupported("value among the cells")
        return any(is_text(v) and decide(v == x) for v in self.vals)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.vals[k]
        raise Unsupported("values of cells")

    def tolist(self):
        return VList(list(self.vals))


class Cells(Vc):
    """a table: rows[i][j] under the label ix[i] and the column cols[j]"""
    __slots__ = ("ix", "cols", "rows")

    def __init__(self, ix, cols, rows):
        self.ix, self.cols, self.rows = list(ix), list(cols), [list(r) for r in rows]
        if len(self.ix) != len(self.rows) or any(len(r) != len(self.cols) for r in self.rows):
            raise deliberate(ValueError("Shape of passed values"))

    @property
    def T(self):
        return Cells(self.cols, self.ix, [[r[j] for r in self.rows] for j in range(len(self.cols))])

    def transpose(self):
        return self.T

    @property
    def index(self):
        return VList(list(self.ix))

    @property
    def columns(self):
        return VList(list(self.cols))

    @property
    def shape(self):
        return (len(self.ix), len(self.cols))

    @property
    def empty(self):
        return not self.ix or not self.cols

    def vlen(self):
        return len(self.ix)

    def copy(self, deep=True):
        return Cells(self.ix, self.cols, self.rows)

    def col(self, j):
        return CellSeries(list(self.ix), [r[j] for r in self.rows], self.cols[j])

    def row(self, i):
        return CellSeries(list(self.cols), list(self.rows[i]), self.ix[i])

    def keep(self, flags):
        return Cells([l for l, b in zip(self.ix, flags) if b], self.cols, [r for r, b in zip(self.rows, flags) if b])

    def __getitem__(self, k):
        if isinstance(k, Mask):
            return self.keep(k.flags)
        if isinstance(k, str) and all(isinstance(x, str) for x in self.cols):
            if k not in self.cols:
                raise deliberate(KeyError(k))
            return self.col(self.cols.index(k))
        raise Unsupported("table of cells")

    def drop(self, labels=None, axis=0, index=None, columns=None):
        if index is not None:
            labels = index
        if axis not in (0, "index") or columns is not None or labels is None:
            raise Unsupported("drop")
        ls = conc(labels) if not isinstance(labels, (str, int)) else [labels]
        if not all(isinstance(x, (int, str)) for x in ls + self.ix):
            raise Unsupported("drop")
        if any(x not in self.ix for x in ls):
            raise deliberate(KeyError("labels not found in axis"))
        return self.keep([x not in ls for x in self.ix])

    def iterrows(self):
        return iter([(self.ix[i], self.row(i)) for i in range(len(self.ix))])

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return Loc(self)

    def to_csv(self, path=None, *a, **k):
        if a or k or path is None:
            raise Unsupported("to_csv with options")
        cxx().memo.setdefault("csv", []).append((path, self))


class ILoc(Vc):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        t = self.t
        if isinstance(k, tuple) and len(k) == 2:
            i, j = k
            if isinstance(i, slice) and i == slice(None) and isinstance(j, int):
                return t.col(range(len(t.cols))[j] if -len(t.cols) <= j < len(t.cols) else _out())
            if isinstance(i, int) and isinstance(j, int):
                if not -len(t.ix) <= i < len(t.ix) or not -len(t.cols) <= j < len(t.cols):
                    _out()
                return t.rows[i][j]
            raise Unsupported("iloc")
        if isinstance(k, int):
            if not -len(t.ix) <= k < len(t.ix):
                _out()
            return t.row(range(len(t.ix))[k])
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            ks = list(range(len(t.ix))[k])
            return Cells([t.ix[i] for i in ks], t.cols, [t.rows[i] for i in ks])
        raise Unsupported("iloc")


class Loc(Vc):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        t = self.t
        if isinstance(k, Mask):
            return t.keep(k.flags)
        if isinstance(k, int) and all(isinstance(x, int) for x in t.ix):
            if k not in t.ix:
                raise deliberate(KeyError(k))
            return t.row(t.ix.index(k))
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Mask) and isinstance(k[1], str):
            return t.keep(k[0].flags)[k[1]]
        raise Unsupported("loc")


def _out():
    raise deliberate(IndexError("single positional indexer is out-of-bounds"))


def series(data, index, name):
    return CellSeries(conc(index), conc(data), name)


def frame(data, index, columns):
    rows = [conc(r) for r in conc(data)]
    return Cells(conc(index), conc(columns), rows)


def concat(objs, axis):
    objs = conc(objs)
    if axis in (1, "columns") and all(isinstance(o, CellSeries) for o in objs):
        if any(o.ix != objs[0].ix for o in objs):
            raise Unsupported("series with different labels")
        return Cells(objs[0].ix, [o.name for o in objs], [[o.vals[i] for o in objs] for i in range(len(objs[0].ix))])
    if axis in (0, "index") and all(isinstance(o, Cells) for o in objs):
        if any(o.cols != objs[0].cols for o in objs):
            raise Unsupported("tables with different columns")
        return Cells([l for o in objs for l in o.ix], objs[0].cols, [r for o in objs for r in o.rows])
    raise Unsupported("pd.concat")


def written(v):
    """the text a cell is written as; None: nothing"""
    import fakes
    if v is None or isinstance(v, float) and v != v:
        return None
    if isinstance(v, FV):
        return None if cxx().fork(v.nan) else SymText([Val(v)])
    if isinstance(v, Str):
        return v if bool(v) else None
    if isinstance(v, (bool, int, float, SInt, str, SymText)):
        w = fakes.mktext(fakes.text_of(v))
        if isinstance(w, SymText) and any(isinstance(p, (str, Num)) or isinstance(p, Val) and is_num(p.v) for p in w.pieces):
            return w
        if isinstance(w, SymText) and len(w.pieces) == 1 and isinstance(w.pieces[0], Val) and isinstance(w.pieces[0].v, Str):
            return w if bool(w.pieces[0].v) else None
        return w or None
    raise Unsupported("cell written to a file")


def read_csv(path, **k):
    c = cxx()
    last = None
    for p, t in c.memo.get("csv", ()):
        if p is not path and not (isinstance(p, str) and isinstance(path, str)):
            raise Unsupported("which file")
        if p is path or p == path:
            last = t
    if last is None:
        raise Unsupported("file not written here")
    opts = dict(k)
    if opts.pop("dtype", None) is not _str():
        raise Unsupported("read_csv without dtype=str")
    default = opts.pop("keep_default_na", True)
    if not isinstance(default, bool):
        raise Unsupported("read_csv options")
    na = opts.pop("na_values", None)
    na = [] if na is None else [na] if isinstance(na, str) else conc(na)
    if opts or not all(isinstance(x, str) for x in na):
        raise Unsupported("read_csv options")
    na = [x for x in na] + (list(DEFAULT_NA) + [""] if default else [])

    def read(v):
        w = written(v)
        if w is None:
            if "" in na:
                return NAN
            return ""
        if any(decide(w == x) for x in na if x):
            return NAN
        return w
    if not last.ix:
        raise Unsupported("empty table")
    rows = [[read(l)] + [read(v) for v in r] for l, r in zip(last.ix, last.rows)]
    return Cells(list(range(len(rows))), ["Unnamed: 0"] + last.cols, rows)


def _str():
    import fakes
    return fakes.vstr


# ------------------------------------------------------------------------------------------------ texts read back
def _item(place, v, infs):
    h = place(Val(v, infs))
    return "'" + h + "'" if isinstance(v, Str) else h


def literal(x):
    """ast.literal_eval of a text with symbolic pieces: str() of a finite number and repr() of a text read back as themselves"""
    import ast
    import fakes
    c = cxx()
    ps = x.pieces
    if len(ps) == 1 and isinstance(ps[0], Val) and isinstance(ps[0].v, Str):
        if not c.memo.get("no literals"):
            raise Unsupported("literal_eval of an arbitrary text")
        # the documented exceptions of a text that is no literal
        if "malformed" not in c.memo:
            c.memo["malformed"] = c.choose(5)
        E = (ValueError, TypeError, SyntaxError, MemoryError, RecursionError)[c.memo["malformed"]]
        raise deliberate(E("malformed node or string"))
    if len(ps) == 3 and ps[0] == "[" and ps[2] == "]" and isinstance(ps[1], Many):
        q = ps[1].seq
        i = z3.Int(c.name("lit"))
        if isinstance(q.f(i), FV):
            # nan, and an infinity that was not rewritten, are names: no literal
            ok = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), z3.Not(q.f(i).nan) if ps[1].infs else q.f(i).fin))
            if not c.entails(ok) and not c.fork(ok):
                raise deliberate(ValueError("malformed node or string"))
        return VList(None, q)
    hold, src = {}, ""

    def place(v):
        n = f"vc_hole_{len(hold)}_"
        hold[n] = v
        return n
    for p in ps:
        if isinstance(p, str):
            src += p
        elif isinstance(p, Num):
            src += place(SInt(p.t))
        elif isinstance(p, Ints):
            n = z3.simplify(p.seq.n)
            if not z3.is_int_value(n):
                raise Unsupported("literal_eval")
            src += p.sep.join(place(p.seq.f(z3.IntVal(i))) for i in range(n.as_long()))
        elif isinstance(p, Val):
            src += place(p)
        elif isinstance(p, Many) and z3.is_int_value(z3.simplify(p.seq.n)):
            src += ", ".join(_item(place, p.seq.f(z3.IntVal(i)), p.infs) for i in range(z3.simplify(p.seq.n).as_long()))
        else:
            raise Unsupported("literal_eval")
    try:
        tree = ast.parse(src.lstrip(" \t"), mode="eval").body
    except SyntaxError as e:
        raise deliberate(e)
    bad = lambda: deliberate(ValueError("malformed node or string"))

    def ev(e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str) and any(h in e.value for h in hold):
                h = hold.get(e.value)
                if isinstance(h, Val) and isinstance(h.v, Str):
                    return h.v
                raise Unsupported("literal_eval of a text")
            return e.value
        if isinstance(e, ast.List):
            return VList([ev(y) for y in e.elts])
        if isinstance(e, ast.Tuple):
            return tuple(ev(y) for y in e.elts)
        if isinstance(e, ast.Name):
            h = hold.get(e.id)
            if h is None:
                if any(k in e.id for k in hold):
                    raise Unsupported("literal_eval")
                raise bad()
            if isinstance(h, Val):
                v = h.v
                if isinstance(v, FV):
                    if c.fork(v.nan):
                        raise bad()
                    if not h.infs and c.fork(z3.Not(v.fin)):
                        raise bad()
                    return v
                raise Unsupported("literal_eval")
            return mkint(ti(h))
        raise Unsupported("literal_eval")
    return ev(tree)
