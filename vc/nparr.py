"""Contracts of the numpy operations used by the repository (1-D and 2-D arrays, elementwise semantics).
64- and 32-bit integers are mathematical integers; 8-bit ones wrap around; floats are reals plus nan and the infinities."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import values as V_


def cxx():
    return Cx.cur


class DType:
    def __init__(self, name, kind, lo=None, hi=None, size=8):
        self.name, self.kind, self.lo, self.hi, self.itemsize = name, kind, lo, hi, size

    def __eq__(self, o):
        o = dtype_of(o)
        return o is self

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return self.name

    def __call__(self, x=0):
        # np.ubyte(x) etc.
        if self.kind == "i":
            return SInt(ti(x), True)
        if self.kind == "f":
            return fv(x)
        raise Unsupported(f"{self.name}()")


UBYTE = DType("uint8", "i", 0, 255, 1)
BYTE = DType("int8", "i", -128, 127, 1)
INT32 = DType("int32", "i", None, None, 4)
INT64 = DType("int64", "i", None, None, 8)
BOOL = DType("bool", "b", 0, 1, 1)
FLOAT = DType("float64", "f")
FLOAT32 = DType("float32", "f", size=4)
OBJ = DType("object", "o")
STR = DType("str", "o")
_names = {"uint8": UBYTE, "ubyte": UBYTE, "int8": BYTE, "byte": BYTE, "int32": INT32, "int64": INT64, "int": INT64, "bool": BOOL,
          "float": FLOAT, "float64": FLOAT, "float32": FLOAT32, "object": OBJ, "str": STR, "O": OBJ, "f8": FLOAT, "i8": INT64,
          "u1": UBYTE}
TYPEMAP = {}     # filled by fakes: vint -> INT64 ...


class TextDType(DType):
    """texts of at most width characters (None: objects)"""

    def __init__(self, width=None):
        DType.__init__(self, "text", "t")
        self.width = width


OBJTEXT = TextDType()


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, SymText) and len(d.pieces) == 2 and isinstance(d.pieces[0], str) and d.pieces[0] in ("<U", "U", ">U") \
            and isinstance(d.pieces[1], Num):
        return TextDType(d.pieces[1].t)
    if isinstance(d, str) and d.lstrip("<>").startswith("U") and d.lstrip("<>")[1:].isdigit():
        return TextDType(z3.IntVal(int(d.lstrip("<>")[1:])))
    if isinstance(d, DType):
        return d
    if isinstance(d, str):
        if d in _names:
            return _names[d]
        raise Unsupported(f"dtype {d!r}")
    try:
        if d in TYPEMAP:
            return TYPEMAP[d]
    except TypeError:
        pass
    return None


# ------------------------------------------------------------------------------------------------ construction
def from_seq(seq, dtype=None):
    """np.array(sequence)"""
    c = cxx()
    n = z3.simplify(seq.n)
    dt = dtype_of(dtype)
    if dtype is not None and dt is None:
        raise Unsupported(f"dtype {dtype}")
    if z3.is_int_value(n):
        items = [seq.f(z3.IntVal(k)) for k in range(max(0, n.as_long()))]
        if items and all(type(x) is tuple for x in items) and len({len(x) for x in items}) == 1:
            import classfake
            return classfake.table(seq, len(items[0]))
        if any(isinstance(x, (Arr, VList, tuple)) for x in items):
            return mat_rows(items)
        kind = kind_of(items)
        if kind == "x":
            raise Unsupported("array of other things")
        if not items:
            kind = "f"
        a = Arr(n, None, kind, {"i": INT64, "b": BOOL, "f": FLOAT, "o": OBJ}[kind])
        s2 = Seq.of([tocell(x, kind) if kind == "o" else x for x in items])
        a.f = lambda i: tocell(s2.f(i), kind)
        if kind == "i":
            try:
                vals = [z3.simplify(ti(x)) for x in items]
                if all(z3.is_int_value(v) for v in vals):
                    a.rng = (min(v.as_long() for v in vals), max(v.as_long() for v in vals))
                elif all(c.entails(z3.And(0 <= v, v <= 1), 800) for v in vals):
                    a.rng = (0, 1)
            except ValueError:
                pass
    else:
        c.nfresh += 1
        i0 = z3.Int(f"fs!{c.nfresh}")
        v0 = seq.f(i0)
        if isinstance(v0, Choice):
            raise Unsupported("array of mixed values")
        if type(v0) is tuple:
            import classfake
            return classfake.table(seq, len(v0))
        kind = kind_of([v0])
        if kind == "x":
            raise Unsupported("array of other things")
        a = Arr(n, lambda i: tocell(seq.f(i), kind), kind, {"i": INT64, "b": BOOL, "f": FLOAT, "o": OBJ}[kind])
        if kind == "i" and looks01(z3.simplify(ti(v0))):
            a.rng = (0, 1)
    if dt is not None and dt is not a.dtype:
        return astype(a, dt)
    return a


def looks01(t):
    if z3.is_int_value(t):
        return t.as_long() in (0, 1)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return looks01(t.arg(1)) and looks01(t.arg(2))
    return False


def kind_of(items):
    ks = set()
    for x in items:
        if isinstance(x, (bool, SymBool)):
            ks.add("b")
        elif isinstance(x, (int, SInt)):
            ks.add("i")
        elif isinstance(x, (float, FV)):
            ks.add("f")
        elif isinstance(x, (str, Str, Uop, SymText)):
            ks.add("o")
        else:
            return "x"
    if not ks:
        return "f"
    if ks == {"b"}:
        return "b"
    if ks <= {"b", "i"}:
        return "i"
    if ks <= {"b", "i", "f"}:
        return "f"
    if ks == {"o"}:
        return "o"
    return "x"


def tocell(x, kind):
    if kind == "b":
        return tbool(x)
    if kind == "i":
        return ti(x)
    if kind == "f":
        return fv(x)
    return x


def is_scalar(x):
    return isinstance(x, (int, float, bool, SInt, FV, SymBool, str, Str, Uop)) or x is None


def cast_cell(x, src, dst):
    """cell of kind src -> kind dst"""
    if src == dst:
        return x
    if dst == "f":
        return fv(b2i(x)) if src == "b" else fv(x)
    if dst == "i":
        if src == "b":
            return b2i(x)
        if src == "f":
            v = s_(x.val)
            if x.plain() and z3.is_rational_value(v):
                fr = v.as_fraction()
                return z3.IntVal(int(fr))
            if x.plain() and z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                return v.arg(0)
            if x.plain() and z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_rational_value(s_(v.arg(k))) for k in (1, 2)):
                return z3.If(v.arg(0), int(s_(v.arg(1)).as_fraction()), int(s_(v.arg(2)).as_fraction()))
            # C truncation; nan and infinities are undefined behaviour
            return z3.If(x.val >= 0, z3.ToInt(x.val), -z3.ToInt(-x.val))
    if dst == "b":
        if src == "i":
            return x != 0
        if src == "f":
            return z3.Or(x.nan, x.pinf, x.ninf, x.val != 0)
    if dst == "o":
        return wrap(x)
    raise Unsupported(f"cast {src} to {dst}")


def astype(a, dt):
    d = dtype_of(dt)
    if d is None:
        raise Unsupported(f"astype {dt}")
    out = a.copy()
    out.base = None
    if d is a.dtype:
        return out
    if d.kind == "o":
        if a.kind == "o":
            out.dtype = d
            return out
        raise Unsupported("astype object")
    if a.kind == "o":
        raise Unsupported("astype from objects")
    f = a.f
    k = a.kind
    if d.kind == "t":
        c = cxx()
        i = z3.Int(c.name("as"))
        if k == "t" and d.width is None:
            out.dtype = d
            return out
        if k != "f" or not c.entails(z3.Implies(z3.And(0 <= i, i < a.n), f(i).nan)):
            raise Unsupported("numbers to text")
        if not c.entails(d.width >= 3):
            raise Unsupported("text width")
        t = tstr("nan")
        out.kind, out.dtype, out.rng, out.filt = "t", d, None, None
        out.f = lambda i: TV(z3.BoolVal(False), t)
        return out
    if k == "t":
        raise Unsupported("astype from texts")
    out.kind, out.dtype = d.kind, d
    if d.kind == "i" and k == "f":
        if not a01(a):
            # nan or infinite -> undefined
            i = z3.Int(cxx().name("as"))
            if not cxx().entails(z3.Implies(z3.And(0 <= i, i < a.n), a.f(i).fin)):
                raise Unsupported("cast of missing values to integers")
    out.f = lambda i: cast_cell(f(i), k, d.kind)
    if k == "b":
        out.rng = (0, 1) if d.kind == "i" else a.rng
        if d.kind == "f":
            out.rng = (0, 1)
    if d.kind == "i" and d.lo is not None:
        r = (0, 1) if k == "b" else a.rng
        if r is None or r[0] < d.lo or r[1] > d.hi:
            g = out.f
            M = d.hi - d.lo + 1
            out.f = lambda i: (g(i) - d.lo) % M + d.lo
            out.rng = (d.lo, d.hi)
        else:
            out.rng = r
    if d.kind == "b":
        out.rng = (0, 1)
        if k == "i":
            if is01(a):
                out.f = lambda i: bitof(a0, i)
                a0 = a.copy()
            else:
                out.f = lambda i: f(i) != 0
    return out


def a01(a):
    """is the array 0/1 valued (proved)"""
    if is01(a):
        return True
    if a.kind not in "if":
        return False
    c = cxx()
    if c.binders:
        return False
    i = z3.Int(c.name("a01"))
    x = a.f(i)
    if a.kind == "i":
        g = z3.Or(x == 0, x == 1)
    else:
        g = z3.And(x.fin, z3.Or(x.val == 0, x.val == 1))
    if c.entails(z3.Implies(z3.And(0 <= i, i < a.n), g)):
        a.rng = (0, 1)
        return True
    return False


def common_len(a, b):
    """length of the broadcast of two 1-D arrays, and the index maps"""
    c = cxx()
    ident = lambda i: i
    zero = lambda i: z3.IntVal(0)
    if a.n.eq(b.n):
        return a.n, ident, ident
    if c.fork(a.n == b.n):
        return a.n, ident, ident
    if c.fork(b.n == 1):
        return a.n, ident, zero
    if c.fork(a.n == 1):
        return b.n, zero, ident
    raise deliberate(ValueError("operands could not be broadcast together"))


def check_index(a, b):
    """Series aligned on their index: only identical indexes are in the contract"""
    if a.is_series and b.is_series and a.index is not b.index:
        if a.index is None or b.index is None or not a.index.same(b.index):
            raise Unsupported("operation on series with different indexes")


def binop(a, b, fi, ff, fb=None, name=""):
    """elementwise arithmetic"""
    if isinstance(b, Mat) or isinstance(a, Mat):
        return NotImplemented
    if isinstance(b, (VList, tuple)) and isinstance(a, Arr):
        b = from_seq(to_seq(b))
    A, Bv, n, ia, ib, dt, ser = _align(a, b)
    if A is None:
        return NotImplemented
    ka, kb = A[1], Bv[1]
    if ka == "o" or kb == "o":
        raise Unsupported("arithmetic on objects")
    fa, fb_ = A[0], Bv[0]
    if ka == "f" or kb == "f":
        out = Arr(n, lambda i: ff(cast_cell(fa(ia(i)), ka, "f"), cast_cell(fb_(ib(i)), kb, "f")), "f", FLOAT)
    else:
        if ka == "b" and kb == "b" and name == "-":
            raise deliberate(TypeError("numpy boolean subtract, the `-` operator, is not supported"))
        g = lambda i: fi(cast_cell(fa(ia(i)), ka, "i"), cast_cell(fb_(ib(i)), kb, "i"))
        if ka == "b" and kb == "b":
            out = Arr(n, lambda i: g(i) != 0, "b", BOOL, (0, 1))
        else:
            d = int_dtype(A[2], Bv[2])
            r = interval(A[3], Bv[3], name)
            if r == (0, 1) or (r is not None and r[0] >= 0 and r[1] <= 1):
                if name == "*" and A[3] == (0, 1) and Bv[3] == (0, 1) and isinstance(a, Arr) and isinstance(b, Arr):
                    g = lambda i: b2i(z3.And(bitof(a_, ia(i)), bitof(b_, ib(i))))
                    a_, b_ = a.copy(), b.copy()
            out = Arr(n, g, "i", d, r)
            if d.lo is not None and (r is None or r[0] < d.lo or r[1] > d.hi):
                M = d.hi - d.lo + 1
                out.f = lambda i: (g(i) - d.lo) % M + d.lo
                out.rng = (d.lo, d.hi)
    _ser(out, ser)
    return out


def _ser(out, ser):
    if ser is not None:
        out.is_series, out.index = True, ser.index


def _align(a, b):
    """((f, kind, dtype, rng), (f, kind, dtype, rng), n, ia, ib, dt, series)"""
    ident = lambda i: i
    if isinstance(a, Arr) and isinstance(b, Arr):
        check_index(a, b)
        n, ia, ib = common_len(a, b)
        ser = a if a.is_series else (b if b.is_series else None)
        ka, kb = rngs(a), rngs(b)
        return (a.f, a.kind, a.dtype, ka), (b.f, b.kind, b.dtype, kb), n, ia, ib, None, ser
    if isinstance(a, Arr):
        s = _scalar(b)
        if s is None:
            return (None,) * 7
        return (a.f, a.kind, a.dtype, rngs(a)), s, a.n, ident, ident, None, a if a.is_series else None
    s = _scalar(a)
    if s is None:
        return (None,) * 7
    return s, (b.f, b.kind, b.dtype, rngs(b)), b.n, ident, ident, None, b if b.is_series else None


def rngs(a):
    return (0, 1) if a.kind == "b" else a.rng


def _scalar(x):
    if isinstance(x, (bool, SymBool)):
        t = tbool(x)
        return (lambda i: t), "b", None, (0, 1)
    if isinstance(x, int):
        return (lambda i: z3.IntVal(x)), "i", None, (x, x)
    if isinstance(x, SInt):
        return (lambda i: x.t), "i", None if not x.np else INT64, None
    if isinstance(x, (float, FV)):
        v = fv(x)
        return (lambda i: v), "f", None, None
    return None


def int_dtype(d1, d2):
    if d1 is None or d1 is BOOL:
        return d2 if d2 is not None and d2 is not BOOL else (d2 and INT64 or INT64) if d1 is None and d2 is None else (d2 if d2 is not None and d2 is not BOOL else INT64)
    if d2 is None or d2 is BOOL:
        return d1
    if d1 is d2:
        return d1
    return INT64


def interval(r1, r2, op):
    if r1 is None or r2 is None:
        return None
    a, b = r1
    c, d = r2
    if op == "+":
        return (a + c, b + d)
    if op == "-":
        return (a - d, b - c)
    if op == "*":
        p = [a * c, a * d, b * c, b * d]
        return (min(p), max(p))
    return None


def cmpop(a, b, fi, ff, fo=None):
    if isinstance(b, (VList, tuple)):
        b = from_seq(to_seq(b))
    if isinstance(a, Arr) and a.kind == "t" or isinstance(b, Arr) and b.kind == "t":
        return cmp_text(a, b, fo)
    if isinstance(b, Arr) and isinstance(a, Arr) and a.is_series and b.is_series:
        check_index(a, b)
    if isinstance(a, Arr) and a.kind == "o" or isinstance(b, Arr) and b.kind == "o":
        if fo is None:
            raise Unsupported("order of objects")
        A = a
        if is_scalar(b):
            out = Arr(A.n, lambda i: fo(A_.f(i), b), "b", BOOL, (0, 1))
            A_ = A.copy()
        else:
            n, ia, ib = common_len(a, b)
            a_, b_ = a.copy(), b.copy()
            out = Arr(n, lambda i: fo(wrap(a_.f(ia(i))), wrap(b_.f(ib(i)))), "b", BOOL, (0, 1))
        _ser(out, a if a.is_series else None)
        return out
    if b is None or isinstance(b, (str, Str)):
        if fo is None:
            raise Unsupported("comparison with a string")
        out = Arr(a.n, lambda i: z3.BoolVal(fo is FNE), "b", BOOL, (0, 1))
        _ser(out, a if a.is_series else None)
        return out
    A, Bv, n, ia, ib, dt, ser = _align(a, b)
    if A is None:
        return NotImplemented
    fa, ka = A[0], A[1]
    fb_, kb = Bv[0], Bv[1]
    if ka == "f" or kb == "f":
        out = Arr(n, lambda i: ff(cast_cell(fa(ia(i)), ka, "f"), cast_cell(fb_(ib(i)), kb, "f")), "b", BOOL, (0, 1))
    else:
        def cell(i):
            x, y = cast_cell(fa(ia(i)), ka, "i"), cast_cell(fb_(ib(i)), kb, "i")
            return s_(fi(x, y))
        out = Arr(n, cell, "b", BOOL, (0, 1))
    refilter(out, a, b, lambda x: x.f, lambda src: (
        (lambda i: ff(cast_cell(src(i), ka, "f"), cast_cell(fb_(i), kb, "f"))) if ka == "f" or kb == "f" else
        (lambda i: s_(fi(cast_cell(src(i), ka, "i"), cast_cell(fb_(i), kb, "i"))))))
    _ser(out, ser)
    return out


def refilter(out, a, b, get, make):
    """a filtered array compared with a scalar: the filter of the comparisons"""
    if isinstance(a, Arr) and a.filt is not None and not isinstance(b, Arr):
        N, P, g, e = a.filt
        out.filt = (N, P, make(g), e)


def cmp_text(a, b, fo):
    if fo not in (FEQ, FNE):
        raise Unsupported("order of texts")
    if not isinstance(a, Arr):
        a, b = b, a
    neg = (lambda t: z3.Not(t)) if fo is FNE else (lambda t: t)
    a_ = a.copy()
    if isinstance(b, Arr):
        check_index(a, b)
        n, ia, ib = common_len(a, b)
        b_ = b.copy()
        if a_.kind == b_.kind == "t":
            out = Arr(n, lambda i: s_(neg(a_.f(ia(i)).eq(b_.f(ib(i))))), "b", BOOL, (0, 1))
        elif "o" in (a_.kind, b_.kind):
            raise Unsupported("texts and objects compared")
        else:
            out = Arr(n, lambda i: neg(z3.BoolVal(False)), "b", BOOL, (0, 1))
        _ser(out, a if a.is_series else (b if b.is_series else None))
        return out
    if isinstance(b, (str, Str, TV)):
        out = Arr(a_.n, lambda i: s_(neg(a_.f(i).eq(b))), "b", BOOL, (0, 1))
        refilter(out, a, b, None, lambda src: (lambda i: s_(neg(src(i).eq(b)))))
    elif is_num(b):
        out = Arr(a_.n, lambda i: neg(z3.BoolVal(False)), "b", BOOL, (0, 1))
    else:
        raise Unsupported("comparison with a text")
    _ser(out, a if a.is_series else None)
    return out


def FEQ(x, y):
    return veq(x, y)


def FNE(x, y):
    return z3.Not(veq(x, y))


def bitop(a, b, g, nm):
    if isinstance(b, (VList,)):
        b = from_seq(to_seq(b))
    if isinstance(b, (bool, SymBool)) and isinstance(a, Arr) and a.kind == "b":
        t = tbool(b)
        a_ = a.copy()
        out = Arr(a.n, lambda i: g(a_.f(i), t), "b", BOOL, (0, 1))
        _ser(out, a if a.is_series else None)
        return out
    if isinstance(a, Arr) and isinstance(b, int) and b in (0, 1) and a.kind == "i" and a01(a):
        a_ = a.copy()
        out = Arr(a.n, lambda i: b2i(g(bitof(a_, i), z3.BoolVal(bool(b)))), "i", a.dtype, (0, 1))
        _ser(out, a if a.is_series else None)
        return out
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        return NotImplemented
    check_index(a, b)
    if a.kind == "f" or b.kind == "f":
        raise deliberate(TypeError(f"ufunc 'bitwise_{nm}' not supported for the input types"))
    n, ia, ib = common_len(a, b)
    a_, b_ = a.copy(), b.copy()
    ser = a if a.is_series else (b if b.is_series else None)
    if a.kind == "b" and b.kind == "b":
        out = Arr(n, lambda i: s_(g(a_.f(ia(i)), b_.f(ib(i)))), "b", BOOL, (0, 1))
    elif ser is not None and "b" in (a.kind, b.kind) and a01(a) and a01(b):
        # pandas: integer series with a boolean gives a boolean series
        out = Arr(n, lambda i: s_(g(bitof(a_, ia(i)), bitof(b_, ib(i)))), "b", BOOL, (0, 1))
    elif a01(a) and a01(b):
        a_, b_ = a.copy(), b.copy()
        out = Arr(n, lambda i: b2i(g(bitof(a_, ia(i)), bitof(b_, ib(i)))), "i", int_dtype(a.dtype, b.dtype), (0, 1))
    else:
        raise Unsupported("bitwise operation on general integers")
    _ser(out, ser)
    return out


def _inplace(self, r):
    """self op= : result cast back into self's dtype, same object"""
    if r is NotImplemented:
        return r
    if self.is_series:
        # pandas writes through when the type stays the same, and gives the series new data otherwise
        if self.base is not None and self.dtype is r.dtype:
            raise Unsupported("in-place operation on a series that shares its data")
        log_write(self)
        self.f, self.kind, self.dtype, self.rng, self.filt, self.base = r.f, r.kind, r.dtype, r.rng, None, None
        return self
    if r.is_series:
        # numpy array op= series: the array is changed in place and the name is bound to a series over the same data
        r2 = r.copy()
        r2.is_series, r2.index = False, None
        _inplace(self, r2)
        out = Arr(self.n, self.f, self.kind, self.dtype, self.rng)
        out.is_series, out.index, out.base = True, r.index, self
        sharers(self).append(out)
        return out
    wcheck(self, True)
    r = _inplace2(self, r)
    for x in sharers(self):
        if x.base is self:
            x.f, x.rng = self.f, self.rng
    return r


def sharers(a):
    """the series that share the data of the array a"""
    l = cxx().memo.setdefault(("sharers", id(a)), [])
    if not l:
        cxx().memo.setdefault("keep", []).append(a)
    return l


def _inplace2(self, r):
    if r.kind != self.kind:
        if self.kind == "f" or (self.kind == "i" and r.kind == "b"):
            f0, k0, k1 = r.f, r.kind, self.kind
            self.f = lambda i: cast_cell(f0(i), k0, k1)
            self.rng = r.rng
            return self
        raise deliberate(TypeError("Cannot cast ufunc output in place"))
    if not (r.n.eq(self.n) or cxx().entails(r.n == self.n)):
        raise deliberate(ValueError("non-broadcastable output operand"))
    self.f, self.rng = r.f, r.rng
    self.filt = None
    return self


def wcheck(a, shared=False):
    if not shared and any(x.base is a for x in cxx().memo.get(("sharers", id(a)), ())):
        raise Unsupported("write to an array that shares its data with a series")
    if a.base is not None:
        raise Unsupported("write through a view")
    if cxx().memo.get(("viewed", id(a))):
        raise Unsupported("write to an array that has views")
    log_write(a)


def mk_inplace(op):
    def f(self, o):
        return _inplace(self, op(self, o))
    return f


A = Arr
A.__add__ = lambda s, o: binop(s, o, lambda x, y: x + y, f_add, name="+")
A.__radd__ = lambda s, o: binop(o, s, lambda x, y: x + y, f_add, name="+")
A.__sub__ = lambda s, o: binop(s, o, lambda x, y: x - y, lambda x, y: f_add(x, f_neg(y)), name="-")
A.__rsub__ = lambda s, o: binop(o, s, lambda x, y: x - y, lambda x, y: f_add(x, f_neg(y)), name="-")
A.__mul__ = lambda s, o: binop(s, o, lambda x, y: x * y, f_mul, name="*")
A.__rmul__ = lambda s, o: binop(o, s, lambda x, y: x * y, f_mul, name="*")


def _tdiv(a, b):
    A_, Bv, n, ia, ib, dt, ser = _align(a, b)
    if A_ is None:
        return NotImplemented
    out = Arr(n, lambda i: f_div(cast_cell(A_[0](ia(i)), A_[1], "f"), cast_cell(Bv[0](ib(i)), Bv[1], "f")), "f", FLOAT)
    _ser(out, ser)
    return out


A.__truediv__ = lambda s, o: _tdiv(s, o)
A.__rtruediv__ = lambda s, o: _tdiv(o, s)


def _pow(s, o):
    if o == 2:
        return s * s
    raise Unsupported("power")


A.__pow__ = _pow


def _neg(s):
    if s.kind == "f":
        f = s.f
        out = Arr(s.n, lambda i: f_neg(f(i)), "f", s.dtype)
        _ser(out, s if s.is_series else None)
        return out
    if s.kind == "b":
        raise deliberate(TypeError("The numpy boolean negative, the `-` operator, is not supported"))
    return binop(0, s, lambda x, y: x - y, None, name="-")


A.__neg__ = _neg


def _abs(s):
    if s.kind == "b":
        return s.copy()
    f = s.f
    if s.kind == "f":
        out = Arr(s.n, lambda i: abs(f(i)), "f", s.dtype)
    else:
        r = None if s.rng is None else (0, max(abs(s.rng[0]), abs(s.rng[1])))
        out = Arr(s.n, lambda i: z3.If(f(i) >= 0, f(i), -f(i)), "i", s.dtype, r)
        if r is None or (s.dtype.lo is not None and r[1] > s.dtype.hi):
            if s.dtype.lo is not None:
                raise Unsupported("abs of small integers")
    _ser(out, s if s.is_series else None)
    return out


A.__abs__ = _abs
A.__lt__ = lambda s, o: cmpop(s, o, lambda x, y: x < y, f_lt)
A.__le__ = lambda s, o: cmpop(s, o, lambda x, y: x <= y, f_le)
A.__gt__ = lambda s, o: cmpop(s, o, lambda x, y: x > y, lambda x, y: f_lt(y, x))
A.__ge__ = lambda s, o: cmpop(s, o, lambda x, y: x >= y, lambda x, y: f_le(y, x))
A.__eq__ = lambda s, o: cmpop(s, o, lambda x, y: x == y, f_eq, FEQ)
A.__ne__ = lambda s, o: cmpop(s, o, lambda x, y: x != y, lambda x, y: z3.Not(f_eq(x, y)), FNE)
A.__and__ = lambda s, o: bitop(s, o, lambda x, y: z3.And(x, y), "and")
A.__rand__ = A.__and__
A.__or__ = lambda s, o: bitop(s, o, lambda x, y: z3.Or(x, y), "or")
A.__ror__ = A.__or__
A.__xor__ = lambda s, o: bitop(s, o, lambda x, y: z3.Xor(x, y), "xor")
A.__rxor__ = A.__xor__
A.__iadd__ = mk_inplace(lambda s, o: s + o)
A.__isub__ = mk_inplace(lambda s, o: s - o)
A.__imul__ = mk_inplace(lambda s, o: s * o)
A.__iand__ = mk_inplace(lambda s, o: s & o)
A.__ior__ = mk_inplace(lambda s, o: s | o)
A.__ixor__ = mk_inplace(lambda s, o: s ^ o)
A.__itruediv__ = mk_inplace(lambda s, o: s / o)


def _invert(s):
    if s.kind == "b":
        f = s.f
        out = Arr(s.n, lambda i: s_(z3.Not(f(i))), "b", BOOL, (0, 1))
        _ser(out, s if s.is_series else None)
        return out
    if s.kind == "i" and s.dtype is UBYTE:
        f = s.f
        return Arr(s.n, lambda i: 255 - f(i), "i", UBYTE, (0, 255))
    raise Unsupported("~")


A.__invert__ = _invert


def view(base, n, f):
    v = Arr(n, f, base.kind, base.dtype, base.rng)
    v.base = base.base or base
    cxx().memo[("viewed", id(v.base))] = True
    cxx().memo.setdefault("keep", []).append(v.base)
    return v


def getitem(a, k):
    c = cxx()
    if a.is_series:
        return pick_series(a, k)
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, slice):
        f = a.f
        if k.step == -1 and k.start is None and k.stop is None:
            return view(a, a.n, lambda i: f(z3.simplify(a.n - 1 - i)))
        lo, hi = norm_slice(a.n, k)
        m = z3.simplify(z3.If(hi - lo < 0, 0, hi - lo))
        if z3.simplify(lo).eq(z3.IntVal(0)) and m.eq(a.n):
            return view(a, a.n, f)
        return view(a, m, lambda i: f(z3.simplify(lo + i)))
    if isinstance(k, (int, SInt)) and not isinstance(k, bool):
        t = ti(k)
        if c.fork(z3.And(t >= 0, t < a.n)):
            return scal(a, t)
        if c.fork(z3.And(t < 0, -t <= a.n)):
            return scal(a, z3.simplify(a.n + t))
        raise deliberate(IndexError("index out of bounds"))
    if isinstance(k, VList):
        k = from_seq(k.as_seq())
    if isinstance(k, Arr):
        if k.kind == "b":
            return mask(a, k)
        if k.kind == "i":
            return take(a, k)
        if z3.is_int_value(k.n) and k.n.as_long() == 0:
            return Arr(z3.IntVal(0), a.f, a.kind, a.dtype, a.rng)
    if k is None:
        raise Unsupported("newaxis")
    raise Unsupported(f"array index {type(k).__name__}")


def scal(a, t):
    x = a.f(t)
    if a.kind == "t":
        return text_value(x)
    if a.kind == "i":
        return SInt(z3.simplify(x), True)
    if a.kind == "b":
        return mkbool(x)
    return x


def mask(a, k):
    c = cxx()
    if not (k.n.eq(a.n) or c.fork(k.n == a.n)):
        raise deliberate(IndexError("boolean index did not match indexed array"))
    P = lambda i: s_(kf(i))
    kf = k.f
    af = a.f
    e = get_enum(a.n, P)
    if a.filt is not None:
        # filter of a filter: compose
        N0, P0, g0, e0 = a.filt
        inner = lambda i: z3.And(P0(i), kf(e0.rank(i)))
        # { g0(i) : i < N0, P0(i) and k(rank(i)) }
        e2 = get_enum(N0, lambda i: s_(inner(i)))
        # both enumerate the same cells in the same order
        out = Arr(e2.m, lambda j: g0(e2.pos(j)), a.kind, a.dtype, a.rng, (N0, lambda i: s_(inner(i)), g0, e2))
        return out
    out = Arr(e.m, lambda j: af(e.pos(j)), a.kind, a.dtype, a.rng, (a.n, P, af, e))
    return out


def take(a, k):
    c = cxx()
    i = z3.Int(c.name("tk"))
    if not c.entails(z3.Implies(z3.And(0 <= i, i < k.n), z3.And(0 <= k.f(i), k.f(i) < a.n))):
        raise Unsupported("fancy index maybe out of bounds")
    kf, af = k.f, a.f
    out = Arr(k.n, lambda j: af(kf(j)), a.kind, a.dtype, a.rng)
    return out


def setitem(a, k, v):
    c = cxx()
    if a.is_series:
        if not (isinstance(k, Arr) and k.kind == "b" and is_scalar(v)):
            raise Unsupported("writing into a series")
        if k.is_series:
            check_index(a, k)
        if a.kind == "f" and isinstance(v, (str, Str)):
            # becomes a series of objects: texts where written; only missing values may remain elsewhere
            i = z3.Int(c.name("sj"))
            if not c.entails(z3.Implies(z3.And(0 <= i, i < a.n, z3.Not(k.f(i))), a.f(i).nan)):
                raise Unsupported("series of numbers and texts")
            wcheck(a)
            kf, t = k.f, tstr(v)
            a.f, a.kind, a.dtype, a.rng, a.filt = (lambda i: TV(s_(z3.Not(kf(i))), t)), "t", OBJTEXT, None, None
            return
    wcheck(a)
    f = a.f
    ka = a.kind

    def val(i):
        """cell to write for relative position i"""
        raise NotImplementedError
    if isinstance(v, (VList, tuple)):
        v = from_seq(to_seq(v))
    if isinstance(v, Arr):
        v_ = v.copy()
        vr = rngs(v)
        val = lambda i: cast_cell(v_.f(i), v_.kind, ka)
        vone = lambda i: cast_cell(v_.f(z3.IntVal(0)), v_.kind, ka)
        if ka == "i" and v.kind == "f" and not a01(v):
            raise Unsupported("float values written into an integer array")
        if v.kind == "f" and ka == "i":
            vr = (0, 1)
    else:
        s = _scalar(v)
        if s is None:
            if ka in "ot":
                val = lambda i: v
                vr = None
            else:
                raise Unsupported("value written into an array")
        else:
            if ka == "i" and s[1] == "f":
                raise Unsupported("float written into an integer array")
            if ka in "ot":
                val = lambda i: v
                vr = None
            else:
                val = lambda i: cast_cell(s[0](i), s[1], ka)
                vr = s[3]
    if ka == "t":
        if isinstance(v, Arr):
            raise Unsupported("texts written into an array")
        if isinstance(v, (str, Str)):
            w = a.dtype.width
            t = tstr(v)
            if w is None or c.entails(strlen(v) <= w):
                cell = TV(z3.BoolVal(False), t)
            else:
                c.axiom(strlenF(truncF(t, w)) == z3.If(strlen(v) <= w, strlen(v), w))
                cell = TV(z3.BoolVal(False), z3.If(strlen(v) <= w, t, truncF(t, w)))
        elif is_num(v) and a.dtype.width is None and c.entails(fv(v).nan):
            cell = TV(z3.BoolVal(True), tstr("nan"))
        else:
            raise Unsupported("value written into an array of texts")
        val = lambda i: cell
        vr = None
    elif isinstance(v, TV) or isinstance(v, Arr) and v.kind == "t":
        raise Unsupported("text written into an array")
    a.filt = None
    if ka == "i":
        if a.dtype.lo is not None and (vr is None or vr[0] < a.dtype.lo or vr[1] > a.dtype.hi):
            if isinstance(v, SInt) and c.entails(z3.And(v.t >= 0, v.t <= 1)):
                vr = (0, 1)
            else:
                raise Unsupported("value out of the range of the array")
        a.rng = None if a.rng is None or vr is None else (min(a.rng[0], vr[0]), max(a.rng[1], vr[1]))
    if isinstance(k, slice):
        lo, hi = norm_slice(a.n, k)
        m = z3.simplify(z3.If(hi - lo < 0, 0, hi - lo))
        if isinstance(v, Arr):
            if c.fork(v.n == m):
                pass
            elif c.fork(v.n == 1):
                val = vone
            else:
                raise deliberate(ValueError("could not broadcast input array"))
        a.f = lambda i: cell_ite(z3.And(lo <= i, i < hi), lambda: val(z3.simplify(i - lo)), lambda: f(i))
        return
    if isinstance(k, (int, SInt)) and not isinstance(k, bool):
        t = ti(k)
        if not c.fork(z3.And(t >= 0, t < a.n)):
            if not c.fork(z3.And(t < 0, -t <= a.n)):
                raise deliberate(IndexError("index out of bounds"))
            t = z3.simplify(a.n + t)
        if isinstance(v, Arr):
            raise Unsupported("array written into a cell")
        a.f = lambda i: cell_ite(i == t, lambda: val(z3.IntVal(0)), lambda: f(i))
        return
    if isinstance(k, Arr) and k.kind == "b":
        if not c.fork(k.n == a.n):
            raise deliberate(IndexError("boolean index did not match"))
        kf = k.f
        if isinstance(v, Arr):
            e = get_enum(a.n, lambda i: s_(kf(i)))
            if not c.fork(v.n == e.m):
                if c.fork(v.n == 1):
                    a.f = lambda i: cell_ite(kf(i), lambda: vone(i), lambda: f(i))
                    return
                raise deliberate(ValueError("NumPy boolean array indexing assignment: wrong number of values"))
            a.f = lambda i: cell_ite(kf(i), lambda: val(e.rank(i)), lambda: f(i))
            return
        a.f = lambda i: cell_ite(kf(i), lambda: val(z3.IntVal(0)), lambda: f(i))
        return
    if isinstance(k, Arr) and k.kind == "i" and not isinstance(v, Arr):
        # positions set to a scalar
        kf = k.f
        q = z3.Int(c.name("sj"))
        inv = pos_inverse(k)
        if inv is not None:
            a.f = lambda i: cell_ite(inv(i), lambda: val(z3.IntVal(0)), lambda: f(i))
            return
        a.f = lambda i: cell_ite(z3.Exists([q], z3.And(0 <= q, q < k.n, kf(q) == i)), lambda: val(z3.IntVal(0)), lambda: f(i))
        return
    raise Unsupported(f"array index {type(k).__name__} in an assignment")


def pos_inverse(k):
    """membership predicate of the positions held by k when k enumerates a predicate"""
    for e, _ in cxx().enums:
        if k.n.eq(e.m):
            j = z3.Int("pi_j")
            if z3.simplify(k.f(j)).eq(z3.simplify(e.pos(j))):
                return lambda i: z3.And(0 <= i, i < e.n, e.P(i))
    return None


def cell_ite(c, fa, fb):
    c = z3.simplify(c)
    if z3.is_true(c):
        return fa()
    if z3.is_false(c):
        return fb()
    a, b = fa(), fb()
    if isinstance(a, FV):
        return f_ite(c, a, b)
    if isinstance(a, TV):
        return t_ite(c, a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return z3.If(c, a, b)
    return ite(c, wrap(a), wrap(b))


A.__getitem__ = getitem
A.__setitem__ = setitem
A.astype = lambda s, d, copy=True: astype(s, d)
A.tolist = lambda s: VList(None, Seq(s.n, lambda i: pyval(s, i)))
A.to_list = A.tolist


def text_value(x):
    c = cxx()
    if z3.is_false(s_(x.nan)) or not c.fork(x.nan):
        return Str(x.t)
    return float("nan")


def pyval(s, i):
    x = s.f(i)
    if s.kind == "t":
        return text_value(x)
    if s.kind == "i":
        return mkint(x)
    if s.kind == "b":
        return mkbool(x)
    return x


def prop(name, f):
    setattr(Arr, name, property(f))


prop("nbytes", lambda s: mkint(s.n * s.dtype.itemsize))
prop("shape", lambda s: (mkint(s.n),))
prop("size", lambda s: mkint(s.n))
prop("ndim", lambda s: 1)
prop("T", lambda s: s)
A.flatten = lambda s: s.copy()
A.ravel = lambda s: s


def count_true(a):
    f = a.f
    if a.kind == "b":
        P = lambda i: s_(f(i))
    elif a.kind == "i":
        P = (lambda i: bitof(a_, i)) if is01(a) else (lambda i: s_(f(i) != 0))
        a_ = a.copy()
    elif a.kind == "f":
        P = lambda i: s_(z3.Or(f(i).nan, f(i).pinf, f(i).ninf, f(i).val != 0))
    else:
        raise Unsupported("count of objects")
    if a.filt is not None:
        N, Q, g, e0 = a.filt
        P2 = (lambda i: s_(z3.And(Q(i), truth(g(i), a.kind))))
        return get_enum(N, P2).m
    return get_enum(z3.simplify(z3.If(a.n > 0, a.n, 0)) if not nonneg(a.n) else a.n, P).m


def nonneg(n):
    return cxx().entails(n >= 0, 500)


def truth(x, kind):
    if kind == "b":
        return x
    if kind == "i":
        return x != 0
    return z3.Or(x.nan, x.pinf, x.ninf, x.val != 0)


def count_nonzero(a, axis=None):
    if isinstance(a, (bool, SymBool)):
        return SInt(b2i(tbool(a)))
    if isinstance(a, VList):
        a = from_seq(a.as_seq())
    if not isinstance(a, Arr) or axis is not None:
        raise Unsupported("count_nonzero")
    return mkint(count_true(a))


def arr_all(a):
    c = cxx()
    i = z3.Int(f"all!{c.nfresh}")
    c.nfresh += 1
    return mkbool(FA(z3.IntVal(0), a.n, lambda j: truth(a.f(j), a.kind)))


def arr_any(a):
    return mkbool(z3.Not(FA(z3.IntVal(0), a.n, lambda j: z3.Not(truth(a.f(j), a.kind)))))


def FA(lo, hi, body):
    """forall lo <= i < hi: body(i); expanded when the bounds are concrete"""
    l, h = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 24:
        return z3.And(*[body(z3.IntVal(k)) for k in range(l.as_long(), h.as_long())]) if h.as_long() > l.as_long() else z3.BoolVal(True)
    c = cxx()
    c.nfresh += 1
    i = z3.Int(f"fa!{c.nfresh}")
    return z3.ForAll([i], z3.Implies(z3.And(l <= i, i < h), body(i)))


def _all(s, axis=None):
    return arr_all(s)


def _any(s, axis=None):
    return arr_any(s)


A.all = _all
A.any = _any


# ------------------------------------------------------------------------------------------------ sums and means
def src(a):
    """(N, P, g): the array as filtered source cells"""
    if a.filt is not None:
        N, P, g, e = a.filt
        return N, P, g
    return a.n, (lambda i: z3.BoolVal(True)), a.f


def real_cell(x, kind):
    if kind == "b":
        return z3.ToReal(b2i(x))
    if kind == "i":
        return z3.ToReal(x)
    return x.val


def fsum(a):
    """sum of a float / int array as FV; count"""
    N, P, g = src(a)
    k = a.kind
    if k == "o":
        raise Unsupported("sum of objects")
    c = cxx()
    tot = get_sum(N, lambda i: z3.If(P(i), real_cell(g(i), k), z3.RealVal(0)))
    if not c.binders and not z3.is_rational_value(tot):
        c.axiom(z3.Implies(a.n <= 0, tot == 0))  # nothing is selected
    if k != "f":
        return freal(tot)
    anynan = exists(N, lambda i: z3.And(P(i), g(i).nan))
    anyp = exists(N, lambda i: z3.And(P(i), g(i).pinf))
    anym = exists(N, lambda i: z3.And(P(i), g(i).ninf))
    nan = s_(z3.Or(anynan, z3.And(anyp, anym)))
    return FV(nan, s_(z3.And(z3.Not(nan), anyp)), s_(z3.And(z3.Not(nan), anym)), tot)


def exists(N, P):
    """z3: some 0 <= i < N with P(i); decided to a constant when provable"""
    c = cxx()
    k = z3.Int(c.name("ex"))
    p = z3.simplify(P(k))
    if z3.is_false(p):
        return z3.BoolVal(False)
    if c.entails(z3.Implies(z3.And(0 <= k, k < N), z3.Not(p)), 1000):
        return z3.BoolVal(False)
    return get_enum(N, lambda i: s_(P(i))).m > 0


def size_of(a):
    N, P, g = src(a)
    return a.n


def mean(a):
    s = fsum(a)
    return f_div(s, fv(SInt(a.n)))


def nanmean(a):
    return nan_stat(a, mean)


def dropnan(a):
    if a.kind != "f":
        return a
    return mask(a, Arr(a.n, lambda i: z3.Not(a.f(i).nan), "b", BOOL, (0, 1)))


def nan_stat(a, f):
    return f(dropnan(a))


def var(a, ddof=0):
    """population / sample variance via sums of squares of deviations from the mean"""
    m = mean(a)
    d = Arr(a.n, None, "f", FLOAT)
    k = a.kind
    if a.filt is not None:
        N, P, g, e = a.filt
        gg = lambda i: _sq(cast_cell(g(i), k, "f"), m)
        d = Arr(a.n, lambda j: gg(e.pos(j)), "f", FLOAT, None, (N, P, gg, e))
    else:
        f = a.f
        d = Arr(a.n, lambda j: _sq(cast_cell(f(j), k, "f"), m), "f", FLOAT)
    s = fsum(d)
    return f_div(s, fv(SInt(z3.simplify(a.n - ddof))))


def _sq(x, m):
    y = f_add(x, f_neg(m))
    return f_mul(y, y)


sqrtF = z3.Function("sqrt", R, R)


def fsqrt(x):
    """non-negative root; sqrt of a negative number is nan"""
    x = fv(x)
    c = cxx()
    t = sqrtF(x.val)
    c.axiom(z3.Implies(x.val >= 0, z3.And(t >= 0, t * t == x.val))) if not c.binders else None
    neg = z3.Or(x.ninf, z3.And(x.fin, x.val < 0))
    return FV(s_(z3.Or(x.nan, neg)), x.pinf, F_, t)


def std(a, ddof=0):
    return fsqrt(var(a, ddof))


def _mean(s, *a, **k):
    if a or any(v is not None for kk, v in k.items() if kk not in ("skipna",)):
        raise Unsupported("mean over an axis")
    if s.is_series:
        return nanmean(s)
    return mean(s)


A.mean = _mean


def _sum(s, axis=None):
    if s.is_series:
        r = fsum(dropnan(s))
    else:
        r = fsum(s)
    if s.kind in "bi":
        if is01(s):
            return SInt(count_true(s), True)
        raise Unsupported("integer sum")
    return r


A.sum = _sum


def _std(s, axis=None, ddof=None, skipna=True):
    if s.is_series:
        return nan_stat(s, lambda a: std(a, 1 if ddof is None else ddof))
    return std(s, 0 if ddof is None else ddof)


A.std = _std


# ------------------------------------------------------------------------------------------------ 2-D
class Mat(Vc):
    """2-D array: n rows, m columns, cell f(i, j)"""
    __slots__ = ("n", "m", "f", "kind", "dtype", "rng", "serial", "rows")

    def __init__(self, n, m, f, kind, dtype, rng=None):
        self.n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.m = m if isinstance(m, z3.ExprRef) else z3.IntVal(m)
        self.f, self.kind, self.dtype, self.rng = f, kind, dtype, rng
        self.serial = cxx().next_serial()
        self.rows = None

    @property
    def shape(self):
        return (mkint(self.n), mkint(self.m))

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return Mat(self.m, self.n, lambda i, j: self.f(j, i), self.kind, self.dtype, self.rng)

    def vlen(self):
        return mkint(self.n)

    def as_seq(self):
        return Seq(self.n, lambda i: self.row(i))

    def row(self, i):
        return Arr(self.m, lambda j: self.f(i, j), self.kind, self.dtype, self.rng)

    def col(self, j):
        a = Arr(self.n, lambda i: self.f(i, j), self.kind, self.dtype, self.rng)
        a.base = self
        return a

    def _red(self, axis, q):
        if axis == 0:
            return Arr(self.m, lambda j: q(self.n, lambda i: truth(self.f(i, j), self.kind)), "b", BOOL, (0, 1))
        if axis in (1, -1):
            return Arr(self.n, lambda i: q(self.m, lambda j: truth(self.f(i, j), self.kind)), "b", BOOL, (0, 1))
        raise Unsupported("reduction of the whole matrix")

    def all(self, axis=None):
        return self._red(axis, lambda N, P: FA(z3.IntVal(0), N, P))

    def any(self, axis=None):
        return self._red(axis, lambda N, P: z3.Not(FA(z3.IntVal(0), N, lambda i: z3.Not(P(i)))))

    def __getitem__(self, k):
        c = cxx()
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, slice) and a == slice(None) and isinstance(b, (int, SInt)):
                return self.col(self._ix(b, self.m))
            if isinstance(b, slice) and b == slice(None) and isinstance(a, (int, SInt)):
                return self.row(self._ix(a, self.n))
            if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
                return wrap(self.f(self._ix(a, self.n), self._ix(b, self.m)))
            if isinstance(a, slice) and a == slice(None) and isinstance(b, VList):
                cols = b.as_seq()
                cc = from_seq(cols)
                i = z3.Int(c.name("mc"))
                if not c.entails(z3.Implies(z3.And(0 <= i, i < cc.n), z3.And(0 <= cc.f(i), cc.f(i) < self.m))):
                    raise Unsupported("columns maybe out of bounds")
                return Mat(self.n, cc.n, lambda i, j: self.f(i, cc.f(j)), self.kind, self.dtype, self.rng)
        if isinstance(k, (int, SInt)):
            return self.row(self._ix(k, self.n))
        if isinstance(k, Arr) and not k.is_series:
            import classfake
            return classfake.take_rows(self, k)
        raise Unsupported("matrix index")

    def _ix(self, k, n):
        t = ti(k)
        if cxx().fork(z3.And(t >= 0, t < n)):
            return t
        if cxx().fork(z3.And(t < 0, -t <= n)):
            return z3.simplify(n + t)
        raise deliberate(IndexError("index out of bounds for axis"))

    def _cmp(self, o, name):
        from values import Arr
        r = lambda x: getattr(Arr, name)
        def row(i):
            return getattr(Arr, name)(self.row(i), o)
        p = row(z3.Int("mcmp"))
        return Mat(self.n, self.m, lambda i, j: row(i).f(j), p.kind, p.dtype, p.rng)

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "__ne__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    __hash__ = None

    def astype(self, d):
        p = astype(self.row(z3.Int("mas")), d)
        return Mat(self.n, self.m, lambda i, j: astype(self.row(i), d).f(j), p.kind, p.dtype, p.rng)

    def sum(self, axis=None):
        raise Unsupported("sum of a matrix")


def mat_rows(items):
    """np.vstack / np.array of 1-D arrays"""
    rows = [x if isinstance(x, Arr) else from_seq(to_seq(x)) for x in items]
    if not rows:
        raise deliberate(ValueError("need at least one array to concatenate"))
    n = rows[0].n
    for r in rows[1:]:
        if not (r.n.eq(n) or cxx().fork(r.n == n)):
            raise deliberate(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    kinds = {r.kind for r in rows}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else ("b" if kinds == {"b"} else "o"))
    dts = {r.dtype for r in rows}
    dt = rows[0].dtype if len(dts) == 1 else {"f": FLOAT, "i": INT64, "b": BOOL, "o": OBJ}[kind]
    cells = [(lambda j, f=r.f, k=r.kind: cast_cell(f(j), k, kind)) for r in rows]
    rs = [rngs(r) for r in rows]
    rng = None if any(x is None for x in rs) else (min(x[0] for x in rs), max(x[1] for x in rs))

    def f(i, j):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return cells[i.as_long()](j)
        v = cells[-1](j)
        for k in range(len(cells) - 2, -1, -1):
            a = cells[k](j)
            v = f_ite(i == k, a, v) if isinstance(a, FV) else z3.If(i == k, a, v)
        return v
    return Mat(z3.IntVal(len(rows)), n, f, kind, dt, rng)


def vstack_seq(seq):
    """np.vstack of a symbolic number of rows"""
    c = cxx()
    n = z3.simplify(seq.n)
    if z3.is_int_value(n):
        return mat_rows([seq.f(z3.IntVal(k)) for k in range(n.as_long())])
    if c.fork(n <= 0):
        raise deliberate(ValueError("need at least one array to concatenate"))
    c.nfresh += 1
    i0 = z3.Int(f"vs!{c.nfresh}")
    r0 = seq.f(i0)
    if not isinstance(r0, Arr):
        raise Unsupported("vstack")
    m = seq.f(z3.IntVal(0)).n
    if not c.entails(z3.Implies(z3.And(0 <= i0, i0 < n), r0.n == m)):
        raise Unsupported("vstack of arrays of different lengths")
    return Mat(n, m, lambda i, j: seq.f(i).f(j), r0.kind, r0.dtype, r0.rng)
