"""Symbolic values: the stand-ins for Python and numpy data (contracts of the dependencies, see TRUSTED in fakes.py)."""
import z3
from core import Cx, Unsupported, PathEnd, Sub, touch

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


def cx():
    return Cx.cur


class Vc:
    """base of all symbolic values"""
    __slots__ = ()

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"no contract for {type(self).__name__}.{k}")


def deliberate(e):
    e._vc = True
    return e


# ------------------------------------------------------------------------------------------------ booleans
class SymBool(Vc):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cx().fork(self.t)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def _b(self, o, f):
        t = tbool(o)
        if t is None:
            return NotImplemented
        return mkbool(f(self.t, t))

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == tbool(o))
        return SInt(z3.If(self.t, 1, 0)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __lt__(self, o):
        return self._i() < (o._i() if isinstance(o, SymBool) else o)

    def __le__(self, o):
        return self._i() <= (o._i() if isinstance(o, SymBool) else o)

    def __gt__(self, o):
        return self._i() > (o._i() if isinstance(o, SymBool) else o)

    def __ge__(self, o):
        return self._i() >= (o._i() if isinstance(o, SymBool) else o)

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __format__(self, s):
        raise Unsupported("format of a symbolic bool")

    __hash__ = None


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def tbool(o):
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, z3.BoolRef):
        return o
    return None


# ------------------------------------------------------------------------------------------------ integers
class SInt(Vc):
    """a Python or numpy integer (mathematical; wrap-around is modelled where numpy types are involved)"""
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
        self.np = np

    def _bin(self, o, f, rf):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return mkint(f(self.t, z3.IntVal(o)), self.np)
        if isinstance(o, SInt):
            return mkint(f(self.t, o.t), self.np or o.np)
        if isinstance(o, (float, FV)):
            return rf(fv(self), fv(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, str):
            return SymText([Rep(o, self.t)])
        if isinstance(o, list):
            return VList(None, Seq(z3.If(self.t > 0, self.t, 0) * len(o), lambda i, o=o: o[0])) if len(o) == 1 else NotImplemented
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return fdiv(self, o)

    def __rtruediv__(self, o):
        return fdiv(o, self)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t / o, self.np)
        raise Unsupported("floor division")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t % o, self.np)
        raise Unsupported("mod")

    def __neg__(self):
        return mkint(-self.t, self.np)

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t), self.np)

    def _cmp(self, o, f):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, (bool, int)):
            return mkbool(f(self.t, z3.IntVal(int(o))))
        if isinstance(o, SInt):
            return mkbool(f(self.t, o.t))
        if isinstance(o, (float, FV)):
            return None
        return NotImplemented

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return fv(self) < fv(o) if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return fv(self) <= fv(o) if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return fv(self) > fv(o) if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return fv(self) >= fv(o) if r is None else r

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SymText)):
            return False
        r = self._cmp(o, lambda a, b: a == b)
        return fv(self) == fv(o) if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return cx().fork(self.t != 0)

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("a symbolic integer is used where CPython needs a concrete one")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of a symbolic integer in C code")

    def __format__(self, s):
        raise Unsupported("format of a symbolic int")

    def __str__(self):
        return "<sym int>"

    __repr__ = __str__

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    # numpy scalar attributes
    @property
    def dtype(self):
        raise Unsupported("dtype of a scalar")


def mkint(t, np=False):
    t = z3.simplify(t)
    if z3.is_int_value(t) and not np:
        return t.as_long()
    return SInt(t, np)


def ti(x):
    """z3 Int term of an int-like"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SymBool):
        return x._i().t
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported(f"integer expected, got {type(x).__name__}")


# ------------------------------------------------------------------------------------------------ floats
class FV(Vc):
    """a float: nan | +inf | -inf | a real number (rounding is not modelled)"""
    __slots__ = ("nan", "pinf", "ninf", "val")

    def __init__(self, nan, pinf, ninf, val):
        self.nan, self.pinf, self.ninf, self.val = nan, pinf, ninf, val

    @property
    def fin(self):
        return z3.simplify(z3.Not(z3.Or(self.nan, self.pinf, self.ninf)))

    def plain(self):
        return z3.is_false(self.nan) and z3.is_false(self.pinf) and z3.is_false(self.ninf)

    def _ar(self, o, f):
        if not isinstance(o, (int, float, FV, SInt, SymBool)):
            return NotImplemented
        return f(self, fv(o))

    def __add__(self, o):
        return self._ar(o, f_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: f_add(a, f_neg(b)))

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: f_add(b, f_neg(a)))

    def __mul__(self, o):
        return self._ar(o, f_mul)

    __rmul__ = __mul__

    def __neg__(self):
        return f_neg(self)

    def __abs__(self):
        return FV(self.nan, z3.simplify(z3.Or(self.pinf, self.ninf)), z3.BoolVal(False), z3.If(self.val >= 0, self.val, -self.val))

    def __pow__(self, o):
        if o == 2:
            return f_mul(self, self)
        raise Unsupported("power")

    def __truediv__(self, o):
        return fdiv(self, o)

    def __rtruediv__(self, o):
        return fdiv(o, self)

    def __lt__(self, o):
        return self._ar(o, lambda a, b: mkbool(f_lt(a, b)))

    def __le__(self, o):
        return self._ar(o, lambda a, b: mkbool(f_le(a, b)))

    def __gt__(self, o):
        return self._ar(o, lambda a, b: mkbool(f_lt(b, a)))

    def __ge__(self, o):
        return self._ar(o, lambda a, b: mkbool(f_le(b, a)))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SymText)):
            return False
        return self._ar(o, lambda a, b: mkbool(f_eq(a, b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return cx().fork(z3.Or(self.nan, self.pinf, self.ninf, self.val != 0))

    def __float__(self):
        raise Unsupported("float() of a symbolic float in C code")

    def __format__(self, s):
        raise Unsupported("format of a symbolic float")

    def __str__(self):
        return "<sym float>"

    __repr__ = __str__

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")


F_ = z3.BoolVal(False)


def fconst(x):
    x = float(x)
    if x != x:
        return FV(z3.BoolVal(True), F_, F_, z3.RealVal(0))
    if x == float("inf"):
        return FV(F_, z3.BoolVal(True), F_, z3.RealVal(0))
    if x == float("-inf"):
        return FV(F_, F_, z3.BoolVal(True), z3.RealVal(0))
    from fractions import Fraction
    fr = Fraction(x).limit_denominator(1000000)
    if float(fr) != x:
        fr = Fraction(repr(x)) if "e" not in repr(x) and "E" not in repr(x) else Fraction(x)
    return FV(F_, F_, F_, z3.Q(fr.numerator, fr.denominator))


def fv(x):
    if isinstance(x, FV):
        return x
    if isinstance(x, bool):
        return fconst(int(x))
    if isinstance(x, int):
        return FV(F_, F_, F_, z3.RealVal(x))
    if isinstance(x, float):
        return fconst(x)
    if isinstance(x, SInt):
        return FV(F_, F_, F_, z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return fv(x._i())
    if isinstance(x, z3.ArithRef):
        return FV(F_, F_, F_, z3.ToReal(x) if x.sort() == I else x)
    raise Unsupported(f"number expected, got {type(x).__name__}")


def freal(r):
    return FV(F_, F_, F_, r)


def fresh_float(c, base="f", finite=False, nan=True, inf=True):
    if finite:
        nan = inf = False
    n = c.bool(base + "_nan") if nan else F_
    p = c.bool(base + "_pinf") if inf else F_
    m = c.bool(base + "_ninf") if inf else F_
    v = c.real(base)
    c.assume(z3.Not(z3.Or(z3.And(n, p), z3.And(n, m), z3.And(p, m))))
    return FV(n, p, m, v)


def s_(t):
    return z3.simplify(t)


def f_add(a, b):
    nan = s_(z3.Or(a.nan, b.nan, z3.And(a.pinf, b.ninf), z3.And(a.ninf, b.pinf)))
    return FV(nan, s_(z3.And(z3.Not(nan), z3.Or(a.pinf, b.pinf))), s_(z3.And(z3.Not(nan), z3.Or(a.ninf, b.ninf))), a.val + b.val)


def f_neg(a):
    return FV(a.nan, a.ninf, a.pinf, -a.val)


def f_mul(a, b):
    if a.plain() and b.plain():
        return freal(a.val * b.val)
    az, bz = z3.And(a.fin, a.val == 0), z3.And(b.fin, b.val == 0)
    ai, bi = z3.Or(a.pinf, a.ninf), z3.Or(b.pinf, b.ninf)
    nan = s_(z3.Or(a.nan, b.nan, z3.And(ai, bz), z3.And(az, bi)))
    neg = z3.Xor(z3.Or(a.ninf, z3.And(a.fin, a.val < 0)), z3.Or(b.ninf, z3.And(b.fin, b.val < 0)))
    inf = z3.And(z3.Not(nan), z3.Or(ai, bi))
    return FV(nan, s_(z3.And(inf, z3.Not(neg))), s_(z3.And(inf, neg)), a.val * b.val)


def f_div(a, b):
    """numpy float division (no exception): x/0 = +-inf (sign of x; -0 is not modelled), 0/0 = nan"""
    if a.plain() and b.plain() and z3.is_rational_value(s_(b.val)) and s_(b.val).as_fraction() != 0:
        return freal(a.val / b.val)
    ai, bi = z3.Or(a.pinf, a.ninf), z3.Or(b.pinf, b.ninf)
    bz = z3.And(b.fin, b.val == 0)
    az = z3.And(a.fin, a.val == 0)
    nan = s_(z3.Or(a.nan, b.nan, z3.And(ai, bi), z3.And(az, bz)))
    aneg = z3.Or(a.ninf, z3.And(a.fin, a.val < 0))
    bneg = z3.Or(b.ninf, z3.And(b.fin, b.val < 0))
    inf = z3.And(z3.Not(nan), z3.Or(ai, bz))
    neg = z3.Xor(aneg, bneg)
    return FV(nan, s_(z3.And(inf, z3.Not(neg))), s_(z3.And(inf, neg)), z3.If(z3.Or(bi, b.val == 0), z3.RealVal(0), a.val / b.val))


def fdiv(a, b):
    """Python / numpy scalar division"""
    npish = any(isinstance(x, SInt) and x.np for x in (a, b)) or any(isinstance(x, FV) for x in (a, b))
    if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
        return NotImplemented
    if not isinstance(a, (int, float, SInt, FV, SymBool)) or not isinstance(b, (int, float, SInt, FV, SymBool)):
        return NotImplemented
    A, Bv = fv(a), fv(b)
    if not npish:
        if cx().fork(z3.And(Bv.fin, Bv.val == 0)):
            raise deliberate(ZeroDivisionError("division by zero"))
    return f_div(A, Bv)


def f_lt(a, b):
    return z3.And(z3.Not(a.nan), z3.Not(b.nan),
                  z3.Or(z3.And(a.ninf, z3.Not(b.ninf)), z3.And(b.pinf, z3.Not(a.pinf)), z3.And(a.fin, b.fin, a.val < b.val)))


def f_le(a, b):
    return z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.Or(a.ninf, b.pinf, z3.And(a.fin, b.fin, a.val <= b.val)))


def f_eq(a, b):
    return z3.And(z3.Not(a.nan), z3.Not(b.nan),
                  z3.Or(z3.And(a.pinf, b.pinf), z3.And(a.ninf, b.ninf), z3.And(a.fin, b.fin, a.val == b.val)))


def f_same(a, b):
    """identical floats, nan being the same as nan"""
    return z3.Or(z3.And(a.nan, b.nan), f_eq(a, b))


def f_ite(c, a, b):
    return FV(s_(z3.If(c, a.nan, b.nan)), s_(z3.If(c, a.pinf, b.pinf)), s_(z3.If(c, a.ninf, b.ninf)), z3.If(c, a.val, b.val))


NAN = fconst(float("nan"))

# ------------------------------------------------------------------------------------------------ merged values
class Choice(Vc):
    """value that is one of several non-numeric values under exclusive conditions"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def pick(self):
        for c, v in self.alts[:-1]:
            if cx().fork(c):
                return v
        return self.alts[-1][1]


def is_num(x):
    return isinstance(x, (int, float, SInt, FV, SymBool, bool))


def ite(c, a, b):
    """value-level if-then-else"""
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c, tbool(a), tbool(b)))
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return mkint(z3.If(c, ti(a), ti(b)), getattr(a, "np", False) or getattr(b, "np", False))
    if is_num(a) and is_num(b):
        return f_ite(c, fv(a), fv(b))
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(z3.If(c, a.t, b.t))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
        return Str(z3.If(c, tstr(a), tstr(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Uop) and isinstance(b, Uop) and a.sort == b.sort:
        return Uop(z3.If(c, a.t, b.t))
    return Choice([(c, a), (z3.Not(c), b)])


def subst(v, old, new):
    """substitutes the Int constant old by the term new in the value v"""
    if isinstance(v, SymBool):
        return mkbool(z3.substitute(v.t, (old, new)))
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.t, (old, new)), v.np)
    if isinstance(v, FV):
        return FV(*[s_(z3.substitute(x, (old, new))) for x in (v.nan, v.pinf, v.ninf, v.val)])
    if isinstance(v, Str):
        return Str(z3.substitute(v.t, (old, new)))
    if isinstance(v, Uop):
        return Uop(z3.substitute(v.t, (old, new)))
    if isinstance(v, tuple):
        return tuple(subst(x, old, new) for x in v)
    if isinstance(v, Choice):
        return Choice([(z3.substitute(c, (old, new)), subst(x, old, new)) for c, x in v.alts])
    if isinstance(v, SymText):
        return SymText([p.subst(old, new) if isinstance(p, Piece) else p for p in v.pieces])
    if isinstance(v, Seq):
        return Seq(z3.substitute(v.n, (old, new)), lambda i, v=v: subst(v.f(i), old, new))
    if isinstance(v, Arr):
        w = v.copy()
        f0 = v.f
        w.f = lambda i: subst_cell(f0(i), old, new)
        w.n = z3.substitute(v.n, (old, new))
        return w
    if v is None or isinstance(v, (str, int, float, bool, type)) or callable(v):
        return v
    raise Unsupported(f"value of type {type(v).__name__} under a binder")


def subst_cell(x, old, new):
    if isinstance(x, z3.ExprRef):
        return z3.substitute(x, (old, new))
    if isinstance(x, TV):
        return TV(z3.substitute(x.nan, (old, new)), z3.substitute(x.t, (old, new)))
    return subst(x, old, new)


def veq(a, b):
    """equality of two scalar values as a z3 Bool (nan differs from nan)"""
    r = (a == b)
    if r is NotImplemented:
        raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
    t = tbool(r)
    if t is None:
        raise Unsupported("equality is not a bool")
    return t


# ------------------------------------------------------------------------------------------------ opaque strings / objects
StrSort = z3.DeclareSort("Str")
_strlit = {}


class Str(Vc):
    """an arbitrary string known only up to equality and (total) order"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, (Str, str)):
            return mkbool(self.t == tstr(o))
        if isinstance(o, Arr):
            return NotImplemented
        return False

    def __ne__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return mkbool(z3.And(strle(self.t, tstr(o)), self.t != tstr(o)))

    def __gt__(self, o):
        return mkbool(z3.And(strle(tstr(o), self.t), self.t != tstr(o)))

    def __le__(self, o):
        return mkbool(strle(self.t, tstr(o)))

    def __ge__(self, o):
        return mkbool(strle(tstr(o), self.t))

    def __bool__(self):
        return cx().fork(z3.Function("str_nonempty", StrSort, B)(self.t))

    def __format__(self, s):
        raise Unsupported("format of a symbolic string")

    def __str__(self):
        return "<sym str>"

    __repr__ = __str__

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")


strrank = z3.Function("str_rank", StrSort, I)   # order-isomorphic embedding of the strings of a path: total order


def strle(a, b):
    c = cx()
    if not c.memo.get("strinj"):
        c.memo["strinj"] = True
        x, y = z3.Consts("sx sy", StrSort)
        c.axiom(z3.ForAll([x, y], z3.Implies(strrank(x) == strrank(y), x == y), patterns=[z3.MultiPattern(strrank(x), strrank(y))]))
    return strrank(a) <= strrank(b)


def tstr(o):
    if isinstance(o, Str):
        return o.t
    if isinstance(o, str):
        c = cx()
        lits = c.memo.setdefault("strlits", {})
        if o not in lits:
            t = z3.Const("strlit_" + repr(o), StrSort)
            for k, u in lits.items():
                c.axiom(t != u)
                c.axiom((strrank(t) < strrank(u)) == z3.BoolVal(o < k))
            lits[o] = t
        return lits[o]
    raise Unsupported(f"string expected, got {type(o).__name__}")


strlenF = z3.Function("str_len", StrSort, I)
truncF = z3.Function("str_trunc", StrSort, I, StrSort)


def strlen(o):
    if isinstance(o, str):
        return z3.IntVal(len(o))
    t = strlenF(o.t)
    c = cx()
    if not c.binders:
        c.axiom(t >= 0)
    return t


class TV(Vc):
    """cell of an array of texts: missing, or a text"""
    __slots__ = ("nan", "t")

    def __init__(self, nan, t):
        self.nan, self.t = nan, t

    def eq(self, o):
        """equality as a z3 Bool (missing differs from everything)"""
        if isinstance(o, TV):
            return s_(z3.And(z3.Not(self.nan), z3.Not(o.nan), self.t == o.t))
        return s_(z3.And(z3.Not(self.nan), self.t == tstr(o)))


def t_same(a, b):
    """both missing or the same text"""
    return s_(z3.And(a.nan == b.nan, z3.Or(a.nan, a.t == b.t)))


def t_ite(c, a, b):
    return TV(s_(z3.If(c, a.nan, b.nan)), a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t))


class Uop(Vc):
    """an opaque value of an uninterpreted sort"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def sort(self):
        return self.t.sort()

    def __eq__(self, o):
        if isinstance(o, Uop) and o.sort == self.sort:
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of an opaque value")


# ------------------------------------------------------------------------------------------------ enumerations, counts, sums
class Enum:
    """increasing enumeration of { i in [0, n) : P(i) }; m = its size (also the count)"""

    def __init__(self, c, n, P):
        self.n, self.P = n, P
        nn = z3.simplify(n)
        if z3.is_int_value(nn) and nn.as_long() <= 12:
            self._concrete(max(0, nn.as_long()))
            return
        if c.binders:
            raise Unsupported("enumeration under a binder")
        self.m = z3.Int(c.name("cnt"))
        self.pos = z3.Function(c.name("pos"), I, I)
        self.rank = z3.Function(c.name("rank"), I, I)   # number of members below i
        j, i, k = z3.Ints("ej ei ek")
        pos, rank, m = self.pos, self.rank, self.m
        N = n if not c.feasible(n < 0) else z3.simplify(z3.If(n > 0, n, 0))
        # pos and rank are total: outside [0, n) every integer counts as a member (so pos(-1) = -1 and pos(m) = n), which
        # makes rank(pos(j)) = j and (i <= pos(j)) = (rank(i) <= j) hold without side conditions
        c.axiom(z3.And(m >= 0, m <= N))
        c.axiom(z3.ForAll([j], z3.And(rank(pos(j)) == j,
                                      z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= pos(j), pos(j) < N, P(pos(j)))),
                                      z3.Implies(j < 0, pos(j) == j), z3.Implies(j >= m, pos(j) == N + j - m)),
                          patterns=[pos(j)]))
        c.axiom(z3.ForAll([i], z3.And(z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= rank(i), rank(i) <= m, rank(i) <= i,
                                                                               m - rank(i) <= N - i,
                                                                               z3.Implies(P(i), z3.And(rank(i) < m, pos(rank(i)) == i)))),
                                      z3.Implies(i < 0, rank(i) == i), z3.Implies(i >= N, rank(i) == m + i - N)),
                          patterns=[rank(i), touch(i)]))
        c.axiom(z3.And(rank(0) == 0, rank(N) == m))
        # the recursive definition of rank
        c.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), rank(i + 1) == rank(i) + z3.If(P(i), 1, 0)),
                          patterns=[rank(i + 1)]))
        c.axiom(z3.ForAll([i, k], z3.And(z3.Implies(i <= k, rank(i) <= rank(k)),
                                         z3.Implies(z3.And(0 <= i, i < N, k == i + 1), rank(k) == rank(i) + z3.If(P(i), 1, 0))),
                          patterns=[z3.MultiPattern(rank(i), rank(k))]))
        # i is at or before the j-th member exactly when at most j members lie below i
        c.axiom(z3.ForAll([i, j], (i <= pos(j)) == (rank(i) <= j), patterns=[z3.MultiPattern(rank(i), pos(j))]))
        # m = 0 exactly when nothing qualifies
        w = z3.Int(c.name("wit"))
        c.axiom(z3.Or(m == 0, z3.And(0 <= w, w < N, P(w))))
        self.wit = w

    def _concrete(self, N):
        """explicit definition for a concrete n"""
        bits = [z3.simplify(self.P(z3.IntVal(k))) for k in range(N)]
        ranks = [z3.IntVal(0)]
        for b in bits:
            ranks.append(z3.simplify(ranks[-1] + z3.If(b, 1, 0)))
        self.m = ranks[-1]

        def rank(i):
            i = z3.simplify(i if isinstance(i, z3.ExprRef) else z3.IntVal(i))
            if z3.is_int_value(i):
                k = i.as_long()
                return ranks[k] if 0 <= k <= N else (i if k < 0 else z3.simplify(ranks[N] + (k - N)))
            r = ranks[N] + i - N
            for k in range(N, -1, -1):
                r = z3.If(i <= k, ranks[k] if k else i, r)
            return z3.simplify(r)

        def pos(j):
            j = z3.simplify(j if isinstance(j, z3.ExprRef) else z3.IntVal(j))
            r = N + j - self.m
            for k in range(N - 1, -1, -1):
                r = z3.If(z3.And(bits[k], ranks[k] == j), k, r)
            return z3.simplify(z3.If(j < 0, j, r))
        self.rank, self.pos = rank, pos
        self.wit = z3.IntVal(0)
        self.expl = True

    def covers(self, i):
        """mentions rank(i) so that the axioms fire for i"""
        return self.rank(i) == self.rank(i)


_syms = {}


def symbols(t):
    """names of the uninterpreted symbols of a term, those of enumerations and sums aside"""
    r = _syms.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if not nm.startswith(("pos!", "rank!", "ge_i", "gs_i")):
                    out.add(nm)
            st.extend(x.children())
    _syms[t.get_id()] = (t, out)
    return out


def nearest(t, cands, at):
    """the candidates, those about the same symbols first; [(about other symbols, candidate)]"""
    mine = symbols(t)
    ds = [(len(mine ^ symbols(x[at])), j) for j, x in enumerate(cands)]
    return [(d > 0, cands[j]) for d, j in sorted(ds)]


def get_enum(n, P, c=None):
    c = c or cx()
    i = z3.Int("ge_i")
    Pi = z3.simplify(P(i))
    n = z3.simplify(n)
    for e, ei in c.enums:
        if e.n.eq(n) and ei.eq(Pi):
            return e
    if c.binders:
        raise Unsupported("enumeration under a binder")
    k = z3.Int(c.name("ge"))
    for far, (e, ei) in nearest(Pi, c.enums, 1):
        if c.entails(z3.And(e.n == n, z3.Implies(z3.And(0 <= k, k < n), P(k) == e.P(k))), 400 if far else 1500):
            return e
    e = Enum(c, n, P)
    c.enums.append((e, Pi))
    if getattr(e, "expl", False):
        return e
    # extensional relations with the earlier counts (subset / complement), each needing a pointwise proof
    for e2, _ in c.enums[:-1]:
        if getattr(e2, "expl", False) or not c.entails(e.n == e2.n, 300):
            continue
        if c.entails(z3.Implies(z3.And(0 <= k, k < n), z3.Implies(P(k), e2.P(k))), 500):
            c.axioms.append(z3.And(e.m <= e2.m, z3.Or(e.m < e2.m, z3.BoolVal(True))))
            _subset_strict(c, e, e2)
        elif c.entails(z3.Implies(z3.And(0 <= k, k < n), z3.Implies(e2.P(k), P(k))), 500):
            _subset_strict(c, e2, e)
    return e


def _subset_strict(c, a, b):
    """a subset of b (proved pointwise): |a| <= |b|, and |a| = |b| only if they are equal (finite sets)"""
    k = z3.Int("ss_k")
    c.axiom(a.m <= b.m)
    d = z3.Int(c.name("diffwit"))
    c.axiom(z3.Implies(a.m < b.m, z3.And(0 <= d, d < a.n, b.P(d), z3.Not(a.P(d)))))
    c.axiom(z3.Implies(a.m == b.m, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.n), a.P(k) == b.P(k)),
                                              patterns=[a.rank(k), b.rank(k)])))
    a_ = (a, b)
    c.memo.setdefault("subsets", []).append(a_)


def count(n, P):
    return get_enum(n, P).m


class SumT:
    pass


def get_sum(n, term, c=None):
    """the real number sum_{0<=i<n} term(i): a symbol determined by the extension of term"""
    c = c or cx()
    i = z3.Int("gs_i")
    Ti = z3.simplify(term(i))
    n = z3.simplify(n)
    if z3.is_rational_value(Ti):
        return z3.simplify(Ti * z3.ToReal(z3.If(n >= 0, n, 0)))
    if z3.is_int_value(n) and n.as_long() <= 12:
        return z3.simplify(z3.Sum([z3.RealVal(0)] + [term(z3.IntVal(k)) for k in range(n.as_long())]))
    for s, sn, st, sterm in c.sums:
        if sn.eq(n) and st.eq(Ti):
            return s
    if c.binders:
        raise Unsupported("sum under a binder")
    k = z3.Int(c.name("gs"))
    for far, (s, sn, st, sterm) in nearest(Ti, c.sums, 2):
        if c.entails(z3.And(sn == n, z3.Implies(z3.And(0 <= k, k < n), term(k) == sterm(k))), 400 if far else 1500):
            return s
    s = z3.Real(c.name("sum"))
    # sum of a 0/1 term is the count
    c.sums.append((s, n, Ti, term))
    c.axiom(z3.Implies(n <= 0, s == 0))
    if c.entails(z3.Implies(z3.And(0 <= k, k < n), term(k) >= 0), 800):
        c.axiom(s >= 0)
        # zero exactly if every term is zero
        w = z3.Int(c.name("sw"))
        c.axiom(z3.Or(s == 0, z3.And(0 <= w, w < n, term(w) > 0)))
    return s


# ------------------------------------------------------------------------------------------------ sequences
class Seq:
    """immutable symbolic sequence: length n (z3 Int), element f(i) (a value) for a z3 Int term i.
    inv (optional, for sequences of distinct elements): value -> (z3 Bool: it is an element, its position).
    parts: the sequences it was concatenated from."""
    __slots__ = ("n", "f", "inv", "parts")

    def __init__(self, n, f, inv=None, parts=None):
        self.n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.f = f
        self.inv = inv
        self.parts = parts

    def pieces(self):
        return self.parts or [self]

    @staticmethod
    def of(items):
        items = list(items)

        def f(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(items):
                    return items[k]
                raise Unsupported("index out of a concrete sequence")
            if not items:
                raise PathEnd()
            v = items[-1]
            for k in range(len(items) - 2, -1, -1):
                v = ite(i == k, items[k], v)
            return v
        return Seq(z3.IntVal(len(items)), f)

    def concat(self, o):
        n = self.n
        inv = None
        if self.inv is not None and o.inv is not None:
            def inv(x):
                a, b = self.inv(x), o.inv(x)
                return None if a is None or b is None else (z3.Or(a[0], b[0]), z3.If(a[0], a[1], n + b[1]))
        return Seq(z3.simplify(n + o.n), lambda i: lazy_ite(i < n, lambda: self.f(i), lambda: o.f(z3.simplify(i - n))),
                   inv, self.pieces() + o.pieces())

    def map(self, g):
        return Seq(self.n, lambda i: g(self.f(i)))


def lazy_ite(c, fa, fb):
    c = z3.simplify(c)
    if z3.is_true(c):
        return fa()
    if z3.is_false(c):
        return fb()
    return ite(c, fa(), fb())


def seq_index(seq, k):
    """Python indexing of a symbolic sequence"""
    t = ti(k)
    if cx().fork(z3.And(t >= 0, t < seq.n)):
        return seq.f(t)
    if cx().fork(z3.And(t < 0, -t <= seq.n)):
        return seq.f(z3.simplify(seq.n + t))
    raise deliberate(IndexError("index out of range"))


class VSeqBase(Vc):
    """common part of symbolic list / tuple"""
    __slots__ = ()


class VList(VSeqBase):
    """a Python list: concrete skeleton (items) or symbolic (seq)"""
    __slots__ = ("items", "seq", "serial")

    def __init__(self, items=None, seq=None):
        self.items = list(items) if items is not None else None
        self.seq = seq
        self.serial = cx().next_serial() if cx() else 0
        if seq is not None:
            n = z3.simplify(seq.n)
            if z3.is_int_value(n) and n.as_long() <= 64:
                self.items = [seq.f(z3.IntVal(k)) for k in range(max(0, n.as_long()))]
                self.seq = None

    def as_seq(self):
        return self.seq if self.seq is not None else Seq.of(self.items)

    @property
    def conc(self):
        return self.items is not None

    def vlen(self):
        return len(self.items) if self.conc else mkint(self.seq.n)

    def __len__(self):
        if self.conc:
            return len(self.items)
        raise Unsupported("len of a symbolic list in C code")

    def __bool__(self):
        return len(self.items) > 0 if self.conc else cx().fork(self.seq.n > 0)

    def __iter__(self):
        if self.conc:
            return list_iter(self)
        return VIter(self.seq)

    def _w(self):
        log_write(self)

    def append(self, x):
        self._w()
        if self.conc:
            self.items.append(x)
        else:
            self.seq = self.seq.concat(Seq.of([x]))

    def extend(self, o):
        self.__iadd__(o)

    def __iadd__(self, o):
        self._w()
        if self.conc and is_conc_iter(o):
            self.items += list(conc_iter(o))
        else:
            s = self.as_seq().concat(to_seq(o))
            self.items, self.seq = None, s
        return self

    def __add__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        if self.conc and is_conc_iter(o):
            return VList(self.items + list(conc_iter(o)))
        return VList(None, self.as_seq().concat(to_seq(o)))

    def __radd__(self, o):
        return VList(None, to_seq(o).concat(self.as_seq())) if isinstance(o, list) else NotImplemented

    def __mul__(self, k):
        if self.conc and isinstance(k, int):
            return VList(self.items * k)
        if self.conc and len(self.items) == 1:
            x = self.items[0]
            t = ti(k)
            return VList(None, Seq(z3.If(t > 0, t, 0), lambda i: x))
        raise Unsupported("list repetition")

    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.conc and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return VList(self.items[k])
            return VList(None, seq_slice(self.as_seq(), k))
        if self.conc and isinstance(k, int) and not isinstance(k, bool):
            try:
                return self.items[k]
            except IndexError as e:
                raise deliberate(e)
        if isinstance(k, (SInt, int)):
            return seq_index(self.as_seq(), k)
        raise deliberate(TypeError("list indices must be integers"))

    def __setitem__(self, k, v):
        self._w()
        if isinstance(k, slice):
            raise Unsupported("slice assignment of a list")
        if self.conc and isinstance(k, int):
            try:
                self.items[k] = v
                return
            except IndexError as e:
                raise deliberate(e)
        t = ti(k)
        s = self.as_seq()
        if not cx().fork(z3.And(t >= 0, t < s.n)):
            if not cx().fork(z3.And(t < 0, -t <= s.n)):
                raise deliberate(IndexError("list assignment index out of range"))
            t = z3.simplify(s.n + t)
        if self.conc:
            self.items = [ite(t == j, v, x) for j, x in enumerate(self.items)]
        else:
            self.seq = Seq(s.n, lambda i: lazy_ite(i == t, lambda: v, lambda: s.f(i)))

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def index(self, x):
        return seq_find(self, x)

    def count(self, x):
        raise Unsupported("list.count")

    def reverse(self):
        self._w()
        if self.conc:
            self.items.reverse()
        else:
            s = self.seq
            self.seq = Seq(s.n, lambda i: s.f(z3.simplify(s.n - 1 - i)))

    def sort(self, key=None, reverse=False):
        self._w()
        from fakes import v_sorted
        r = v_sorted(self, key=key, reverse=reverse)
        self.items, self.seq = r.items, r.seq

    def copy(self):
        return VList(self.items, self.seq) if self.conc else VList(None, self.seq)

    def insert(self, k, x):
        self._w()
        if self.conc and isinstance(k, int):
            self.items.insert(k, x)
            return
        raise Unsupported("list.insert")

    def pop(self, *a):
        self._w()
        if self.conc:
            try:
                return self.items.pop(*a)
            except IndexError as e:
                raise deliberate(e)
        raise Unsupported("list.pop")

    def remove(self, x):
        self._w()
        if self.conc:
            for k, y in enumerate(self.items):
                if y is x or cx().fork(tbool(y == x)):
                    del self.items[k]
                    return
            raise deliberate(ValueError("list.remove(x): x not in list"))
        raise Unsupported("list.remove")

    def __eq__(self, o):
        if isinstance(o, (VList, list)):
            return seq_eq(self, o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        if self.conc and isinstance(o, VList) and o.conc:
            return tuple_lt(tuple(self.items), tuple(o.items))
        raise Unsupported("order of symbolic lists")

    def __gt__(self, o):
        return o.__lt__(self)

    def __hash__(self):
        raise deliberate(TypeError("unhashable type: 'list'"))

    def __str__(self):
        raise Unsupported("str of a list in C code")

    __repr__ = __str__

    def __format__(self, s):
        raise Unsupported("format of a list")


class VTuple(VSeqBase):
    """tuple of symbolic length"""
    __slots__ = ("seq", "serial")

    def __init__(self, seq):
        self.seq = seq
        self.serial = cx().next_serial()

    conc = False

    def as_seq(self):
        return self.seq

    def vlen(self):
        return mkint(self.seq.n)

    def __bool__(self):
        return cx().fork(self.seq.n > 0)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic tuple in C code")

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mktuple(seq_slice(self.seq, k))
        return seq_index(self.seq, k)

    def __add__(self, o):
        return mktuple(self.seq.concat(to_seq(o)))

    def __radd__(self, o):
        return mktuple(to_seq(o).concat(self.seq))

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def index(self, x):
        return seq_find(self, x)

    def __eq__(self, o):
        if isinstance(o, (VTuple, tuple)):
            return seq_eq(self, o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of a symbolic tuple")


def mktuple(seq):
    n = z3.simplify(seq.n)
    if z3.is_int_value(n) and n.as_long() <= 64:
        return tuple(seq.f(z3.IntVal(k)) for k in range(n.as_long()))
    return VTuple(seq)


class VIter(Vc):
    """iter(symbolic list), before anything was taken from it"""
    __slots__ = ("seq",)
    conc = False

    def __init__(self, seq):
        self.seq = seq

    def as_seq(self):
        return self.seq

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported("iteration over a symbolic list in C code")


def repo_iterable(o):
    return type(o).__dict__.get("_vc_hooked") and hasattr(type(o), "__iter__")


def list_iter(l):
    k = 0
    while k < len(l.items):      # like CPython: sees appends during the iteration
        yield l.items[k]
        k += 1


def is_conc_iter(o):
    if isinstance(o, VList):
        return o.conc
    if isinstance(o, (VTuple, Seq, VIter)):
        return False
    if repo_iterable(o):
        return is_conc_iter(o.__iter__())
    if isinstance(o, (Arr, SymText)):
        return False
    if isinstance(o, Vc) and not hasattr(type(o), "__next__"):
        if hasattr(type(o), "conc"):
            return bool(o.conc)
        if hasattr(type(o), "as_seq"):
            return False
    return True


def conc_iter(o):
    return o.items if isinstance(o, VList) else o


def to_seq(o):
    if isinstance(o, Seq):
        return o
    if isinstance(o, VSeqBase):
        return o.as_seq()
    if isinstance(o, Arr):
        return Seq(o.n, lambda i: wrap(o.f(i), o))
    if isinstance(o, SymText):
        return o.char_seq()
    if isinstance(o, (list, tuple, str, dict, set, frozenset)):
        return Seq.of(o)
    if repo_iterable(o):
        return to_seq(o.__iter__())
    if hasattr(o, "as_seq"):
        return o.as_seq()
    if hasattr(o, "__next__") or hasattr(o, "__iter__"):
        return Seq.of(list(o))
    raise Unsupported(f"sequence expected, got {type(o).__name__}")


def norm_slice(n, k):
    if k.step is not None and k.step != 1:
        raise Unsupported("slice with a step")

    def cl(x, d):
        if x is None:
            return d
        t = ti(x)
        t = z3.If(t < 0, z3.If(n + t < 0, 0, n + t), z3.If(t > n, n, t))
        return z3.simplify(t)
    a = cl(k.start, z3.IntVal(0))
    b = cl(k.stop, n)
    return a, b


def seq_slice(seq, k):
    if k.start is None and k.stop is None and k.step == -1:
        return Seq(seq.n, lambda i: seq.f(z3.simplify(seq.n - 1 - i)))
    if seq.parts and k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0:
        ps, drop = list(seq.parts), k.start
        while ps and drop:
            n = z3.simplify(ps[0].n)
            if not z3.is_int_value(n) or n.as_long() > drop:
                break
            drop -= n.as_long()
            ps.pop(0)
        if not drop and ps:
            r = ps[0]
            for q in ps[1:]:
                r = r.concat(q)
            return r
    a, b = norm_slice(seq.n, k)
    m = z3.simplify(z3.If(b - a < 0, 0, b - a))
    return Seq(m, lambda i: seq.f(z3.simplify(a + i)))


def seq_contains(l, x):
    if isinstance(l, VList) and l.conc or isinstance(l, (list, tuple)):
        acc = []
        for y in (l.items if isinstance(l, VList) else l):
            if y is x:
                return True
            r = tbool(y == x)
            if r is None:
                raise Unsupported("in")
            acc.append(r)
        return mkbool(z3.Or(*acc)) if acc else False
    s = l.as_seq()
    if s.inv is not None:
        r = s.inv(x)
        if r is not None:
            return mkbool(r[0])
    if s.parts:
        return mkbool(z3.Or(*[tbool(seq_contains(VTuple(q), x)) for q in s.parts]))
    c = cx()
    i = z3.Int(f"in!{c.nfresh}")
    c.nfresh += 1
    body = veq(s.f(i), x)
    return mkbool(z3.Exists([i], z3.And(0 <= i, i < s.n, body)))


class Found(SInt):
    """a position returned by list.index: remembers the list and the element"""
    __slots__ = ("lst", "x")

    def __init__(self, t, lst, x):
        super().__init__(t)
        self.lst, self.x = lst, x


def seq_find(l, x):
    """list.index: the first position"""
    s = l.as_seq()
    if isinstance(l, VList) and l.conc:
        for k, y in enumerate(l.items):
            if y is x or cx().fork(veq(y, x)):
                return k
        raise deliberate(ValueError("not in list"))
    c = cx()
    r = s.inv(x) if s.inv is not None else None
    if r is not None:
        if not c.fork(r[0]):
            raise deliberate(ValueError("not in list"))
        return Found(r[1], s, x)
    if c.binders:
        raise Unsupported("list.index under a binder")
    if not c.fork(tbool(seq_contains(l, x))):
        raise deliberate(ValueError("not in list"))
    p = c.int("find")
    q = z3.Int("fq")
    c.axiom(z3.And(0 <= p, p < s.n, veq(s.f(p), x)))
    c.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), z3.Not(veq(s.f(q), x)))))
    d = quotient(s.f(q), q)
    if d is not None and is_num(x):
        e = quotient(x, q)
        if e is not None and e[1].eq(d[1]) and c.entails(d[1] > 0):
            # quotients by the same positive number compare as their numerators
            c.axiom(z3.substitute(d[0], (q, p)) == e[0])
            c.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), d[0] != e[0])))
    return SInt(p)


def quotient(v, q):
    """(numerator, denominator) of a number written as a quotient (by a number that does not depend on q)"""
    if not isinstance(v, FV):
        return None
    t = z3.simplify(v.val)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c0, a, b = t.children()
        t = b if z3.is_rational_value(a) else a
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV):
        return None
    a, b = t.children()
    from z3.z3util import get_vars
    if any(x.eq(q) for x in get_vars(b)):
        return None
    return a, b


def seq_eq(a, b):
    if is_conc_iter(a) and is_conc_iter(b):
        A, Bb = list(conc_iter(a)), list(conc_iter(b))
        if len(A) != len(Bb):
            return False
        return mkbool(z3.And(*[z3.BoolVal(True) if x is y else veq(x, y) for x, y in zip(A, Bb)])) if A else True
    A, Bb = to_seq(a), to_seq(b)
    i = z3.Int(f"eq!{cx().nfresh}")
    cx().nfresh += 1
    return mkbool(z3.And(A.n == Bb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < A.n), veq(A.f(i), Bb.f(i))))))


def tuple_lt(a, b):
    """lexicographic order of concrete-length tuples"""
    t = z3.BoolVal(len(a) < len(b))
    for x, y in list(zip(a, b))[::-1]:
        lt = tbool(x < y)
        eq = z3.BoolVal(True) if x is y else veq(x, y)
        t = z3.Or(z3.And(z3.Not(eq), lt), z3.And(eq, t))
    return mkbool(t)


def log_write(o):
    c = cx()
    if c is None:
        return
    if c.binders:
        raise Unsupported("mutation inside a comprehension over a symbolic sequence")
    if c.log is not None:
        c.log.append(o)


# ------------------------------------------------------------------------------------------------ texts
class Piece:
    pass


class Rep(Piece):
    """a literal repeated t times (t <= 0: empty)"""

    def __init__(self, s, t):
        self.s, self.t = s, t

    def subst(self, o, n):
        return Rep(self.s, z3.substitute(self.t, (o, n)))


class Bits(Piece):
    """n binary digits, f(i) is a z3 Bool"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def subst(self, o, n):
        return Bits(z3.substitute(self.n, (o, n)), lambda i: z3.substitute(self.f(i), (o, n)))


class Ints(Piece):
    """the decimal writings of a sequence of integers joined by sep"""

    def __init__(self, seq, sep):
        self.seq, self.sep = seq, sep

    def subst(self, o, n):
        s = self.seq
        return Ints(Seq(z3.substitute(s.n, (o, n)), lambda i: subst(s.f(i), o, n)), self.sep)


class Num(Piece):
    """decimal writing of an integer"""

    def __init__(self, t):
        self.t = t

    def subst(self, o, n):
        return Num(z3.substitute(self.t, (o, n)))


class Val(Piece):
    """str() of an opaque value: injective only up to equality of the value"""

    def __init__(self, v, infs=False):
        self.v = v
        self.infs = infs        # a number whose text had "inf" replaced by "1e999"

    def subst(self, o, n):
        return Val(subst(self.v, o, n), self.infs)


class Many(Piece):
    """the writings of the elements of a list joined by ", " (texts in quotes)"""

    def __init__(self, seq, infs=False):
        self.seq, self.infs = seq, infs

    def subst(self, o, n):
        s = self.seq
        return Many(Seq(z3.substitute(s.n, (o, n)), lambda i: subst(s.f(i), o, n)), self.infs)


class SymText(Vc):
    """a string built from literals and symbolic pieces"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = out

    def __add__(self, o):
        if isinstance(o, str):
            return SymText(self.pieces + [o])
        if isinstance(o, SymText):
            return SymText(self.pieces + o.pieces)
        if isinstance(o, Str):
            return SymText(self.pieces + [Val(o)])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymText([o] + self.pieces)
        return NotImplemented

    def replace(self, a, b):
        if not isinstance(a, str) or not isinstance(b, str) or a == "":
            raise Unsupported("replace")
        out = []
        for p in self.pieces:
            if isinstance(p, str):
                out.append(p.replace(a, b))
            elif isinstance(p, Bits):
                if set(a) & set("01"):
                    raise Unsupported("replace of digits")
                out.append(p)
            elif isinstance(p, (Num,)):
                if set(a) & set("0123456789-"):
                    raise Unsupported("replace of digits")
                out.append(p)
            elif isinstance(p, Ints):
                if set(a) & set("0123456789-"):
                    raise Unsupported("replace of digits")
                out.append(Ints(p.seq, p.sep.replace(a, b)))
            elif isinstance(p, Val) and isinstance(p.v, FV) and (a, b) == ("inf", "1e999"):
                out.append(Val(p.v, True))
            elif isinstance(p, Many) and (a, b) == ("inf", "1e999") and isinstance(p.seq.f(z3.Int("rp!0")), FV):
                out.append(Many(p.seq, True))
            else:
                raise Unsupported("replace in an opaque text")
        # a pattern could span two pieces: exclude that
        if len(a) > 1 and sum(not isinstance(p, str) for p in self.pieces) and any(
                isinstance(p, str) and (p.endswith(tuple(a[:k] for k in range(1, len(a)))) or
                                        p.startswith(tuple(a[k:] for k in range(1, len(a))))) for p in self.pieces):
            pass   # digits pieces never contain the rest of a pattern without digits
        return SymText(out)

    def strip(self, *a):
        if all(isinstance(p, str) for p in self.pieces):
            return "".join(self.pieces).strip(*a)
        p0, p1 = self.pieces[0], self.pieces[-1]
        ps = list(self.pieces)
        if a and set(a[0]) & set("0123456789-"):
            raise Unsupported("strip of digits")
        if isinstance(p0, str):
            ps[0] = p0.lstrip(*a)
            if ps[0] == "" and len(ps) > 1 and isinstance(ps[1], Ints) and not ps[1].sep.strip(*a) == ps[1].sep:
                pass
        if isinstance(p1, str) and len(ps) > 1:
            ps[-1] = p1.rstrip(*a)
        return SymText(ps)

    def split(self, sep=None):
        if len(self.pieces) == 1 and isinstance(self.pieces[0], Ints) and sep is not None and self.pieces[0].sep == sep:
            s = self.pieces[0].seq
            if cx().fork(s.n == 0):
                return VList([""])
            return VList(None, Seq(s.n, lambda i: SymText([Num(ti(s.f(i)))])))
        raise Unsupported("split")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0:
                if self.pieces and isinstance(self.pieces[0], str) and len(self.pieces[0]) >= k.start:
                    return SymText([self.pieces[0][k.start:]] + self.pieces[1:])
            if k.start is None and k.step is None and isinstance(k.stop, int) and k.stop < 0:
                if self.pieces and isinstance(self.pieces[-1], str) and len(self.pieces[-1]) >= -k.stop:
                    return SymText(self.pieces[:-1] + [self.pieces[-1][:k.stop]])
            if isinstance(k.start, int) and isinstance(k.stop, int) and k.start >= 0 and k.stop < 0 and k.step is None:
                return self[k.start:][:k.stop]
            raise Unsupported("slice of a text")
        if isinstance(k, int):
            p = self.pieces
            if len(p) == 1 and isinstance(p[0], Bits):
                b = p[0]
                t = z3.IntVal(k) if k >= 0 else b.n + k
                if cx().fork(z3.And(t >= 0, t < b.n)):
                    return SymText([Bits(z3.IntVal(1), lambda i: b.f(t))])
                raise deliberate(IndexError("string index out of range"))
            return SymText([Val(("char", k, tuple(map(id, p))))])
        raise Unsupported("index of a text")

    def char_seq(self):
        """sequence of characters (bits only)"""
        s = None
        for p in self.pieces:
            if isinstance(p, Bits):
                q = Seq(p.n, lambda i, p=p: SymText([Bits(z3.IntVal(1), lambda _: p.f(i))]))
            elif isinstance(p, str):
                q = Seq.of(p)
            elif isinstance(p, Rep) and len(p.s) == 1:
                q = Seq(z3.If(p.t > 0, p.t, 0), lambda i, p=p: p.s)
            else:
                raise Unsupported("characters of a text")
            s = q if s is None else s.concat(q)
        return s if s is not None else Seq.of([])

    def bits(self):
        """the text as binary digits (n, f) or None"""
        n, f = z3.IntVal(0), None
        for p in self.pieces:
            if isinstance(p, Bits):
                m, g = p.n, p.f
            elif isinstance(p, Rep) and p.s in ("0", "1"):
                m, g = z3.If(p.t > 0, p.t, 0), (lambda i, v=z3.BoolVal(p.s == "1"): v)
            elif isinstance(p, str) and set(p) <= set("01"):
                m = z3.IntVal(len(p))
                g = lambda i, p=p: z3.simplify(z3.Or(*[z3.And(i == k, z3.BoolVal(ch == "1")) for k, ch in enumerate(p)]))
            elif isinstance(p, Num) and cx().entails(z3.Or(p.t == 0, p.t == 1)):
                m, g = z3.IntVal(1), (lambda i, t=p.t: z3.simplify(t == 1))
            else:
                return None
            if f is None:
                n, f = m, g
            else:
                def h(i, n=n, f=f, g=g):
                    return z3.If(i < n, f(i), g(i - n))
                n, f = z3.simplify(n + m), h
        if f is None:
            return None
        return n, f

    def vlen(self):
        tot = z3.IntVal(0)
        for p in self.pieces:
            if isinstance(p, str):
                tot = tot + len(p)
            elif isinstance(p, Bits):
                tot = tot + p.n
            elif isinstance(p, Rep):
                tot = tot + z3.If(p.t > 0, p.t * len(p.s), 0)
            elif isinstance(p, Ints):
                x = cx().int("len")
                # at least one character per integer
                cx().axiom(z3.And(x >= p.seq.n, x >= 0))
                tot = tot + x
            elif isinstance(p, Num):
                x = cx().int("len")
                cx().axiom(x >= 1)
                tot = tot + x
            else:
                x = cx().int("len")
                cx().axiom(x >= (1 if isinstance(p, Val) and is_num(p.v) else 0))
                tot = tot + x
        return mkint(tot)

    def __bool__(self):
        return cx().fork(ti(self.vlen()) > 0)

    def has_char(self, s):
        """does the literal s occur?  (s without digits)"""
        if set(s) & set("0123456789"):
            raise Unsupported("search of digits in a text")
        for p in self.pieces:
            if isinstance(p, str):
                if s in p:
                    return True
            elif isinstance(p, Bits):
                pass
            elif isinstance(p, Rep):
                if s in p.s:
                    if cx().fork(p.t > 0):
                        return True
            elif isinstance(p, Ints):
                if s == "-":
                    raise Unsupported("sign in a text")
                if s in p.sep:
                    if cx().fork(p.seq.n >= 2):
                        return True
            elif isinstance(p, Num):
                pass
            else:
                raise Unsupported("search in an opaque text")
        return False

    def key(self):
        return [p if isinstance(p, str) else p for p in self.pieces]

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymText([o])
        if isinstance(o, Str):
            raise Unsupported("text equality")
        if not isinstance(o, SymText):
            return False
        return text_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def lower(self):
        raise Unsupported("lower")

    def __hash__(self):
        raise Unsupported("hash of a symbolic text")

    def __str__(self):
        return "<text>"

    __repr__ = __str__

    def __format__(self, s):
        raise Unsupported("format of a text")


def lead(t):
    """the literal text t begins with"""
    out = ""
    for p in t.pieces:
        if not isinstance(p, str):
            break
        out += p
    return out


def piece_eq(p, lit):
    """is this piece the literal text?  None: not known"""
    try:
        x = float(lit)
    except ValueError:
        x = None
    if isinstance(p, Val) and not p.infs:
        if isinstance(p.v, Str):
            return mkbool(p.v.t == tstr(lit))
        if isinstance(p.v, FV):
            if lit in ("nan", "inf", "-inf"):
                return mkbool({"nan": p.v.nan, "inf": p.v.pinf, "-inf": p.v.ninf}[lit])
            return False if x is None else None
    if isinstance(p, Num):
        if x is None or x != x or x in (float("inf"), float("-inf")):
            return False
        return mkbool(p.t == int(lit)) if lit == str(int(x)) else None
    return None


def text_eq(a, b):
    if all(isinstance(p, str) for p in a.pieces) and all(isinstance(p, str) for p in b.pieces):
        return "".join(a.pieces) == "".join(b.pieces)
    pa, pb = lead(a), lead(b)
    if pa[:len(pb)] != pb[:len(pa)]:
        return False
    if len(a.pieces) == len(b.pieces) and all(type(p) is type(q) for p, q in zip(a.pieces, b.pieces)):
        conj = []
        for p, q in zip(a.pieces, b.pieces):
            if isinstance(p, str):
                if p != q:
                    raise Unsupported("text equality")
            elif isinstance(p, Num):
                conj.append(p.t == q.t)
            elif isinstance(p, Ints) and p.sep == q.sep and p.sep:
                i = z3.Int(f"te!{cx().nfresh}")
                cx().nfresh += 1
                conj += [p.seq.n == q.seq.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.seq.n), veq(p.seq.f(i), q.seq.f(i))))]
            elif isinstance(p, Bits):
                i = z3.Int(f"te!{cx().nfresh}")
                cx().nfresh += 1
                conj += [p.n == q.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), p.f(i) == q.f(i)))]
            elif isinstance(p, Val) and is_num(p.v) == is_num(q.v):
                conj.append(f_same(fv(p.v), fv(q.v)) if is_num(p.v) else veq(p.v, q.v))
            else:
                raise Unsupported("text equality")
        return mkbool(z3.And(*conj)) if conj else True
    if len(a.pieces) == 1 and len(b.pieces) == 1 and isinstance(a.pieces[0], str) + isinstance(b.pieces[0], str) == 1:
        r = piece_eq(*(a.pieces + b.pieces) if isinstance(b.pieces[0], str) else b.pieces + a.pieces)
        if r is not None:
            return r
    ab, bb = a.bits(), b.bits()
    if ab and bb:
        i = z3.Int(f"te!{cx().nfresh}")
        cx().nfresh += 1
        return mkbool(z3.And(ab[0] == bb[0], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ab[0]), ab[1](i) == bb[1](i)))))
    raise Unsupported("text equality")


# ------------------------------------------------------------------------------------------------ integers as digit strings
class BitInt(Vc):
    """a non-negative Python integer known by its n binary digits (f(0) the most significant; leading zeros allowed)"""
    __slots__ = ("n", "f")

    def __init__(self, n, f):
        self.n, self.f = n, f

    def aligned(self, n):
        """digit function for width n >= self.n (on this path)"""
        if n.eq(self.n):
            return self.f
        d = n - self.n
        return lambda i: z3.And(i >= d, self.f(z3.simplify(i - d)))

    def _op(self, o, g):
        if not isinstance(o, BitInt):
            return NotImplemented
        if self.n.eq(o.n) or cx().entails(self.n == o.n):
            return BitInt(self.n, lambda i: z3.simplify(g(self.f(i), o.f(i))))
        n = z3.If(self.n >= o.n, self.n, o.n)
        a, b = self.aligned(n), o.aligned(n)
        return BitInt(n, lambda i: z3.simplify(g(a(i), b(i))))

    def __and__(self, o):
        return self._op(o, lambda x, y: z3.And(x, y))

    def __or__(self, o):
        return self._op(o, lambda x, y: z3.Or(x, y))

    def __xor__(self, o):
        return self._op(o, lambda x, y: z3.Xor(x, y))

    def same(self, n, f):
        """z3: this integer has the value of the n digits f"""
        i = z3.Int(f"bi!{cx().nfresh}")
        cx().nfresh += 1
        if self.n.eq(n):
            return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), self.f(i) == f(i)))
        w = z3.If(self.n >= n, self.n, n)
        a, b = self.aligned(w), BitInt(n, f).aligned(w)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), a(i) == b(i)))

    def __eq__(self, o):
        if isinstance(o, BitInt):
            return mkbool(self.same(o.n, o.f))
        if isinstance(o, int) and o == 0:
            i = z3.Int(f"bi!{cx().nfresh}")
            cx().nfresh += 1
            return mkbool(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.Not(self.f(i)))))
        if isinstance(o, int) and o < 0:
            return False
        raise Unsupported("comparison of a digit integer")

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return bool(self != 0)

    def __format__(self, s):
        raise Unsupported("format")

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def binary(self):
        """bin(): '0b' + digits without leading zeros ('0b0' for zero)"""
        c = cx()
        n, f = self.n, self.f
        for e in c.memo.setdefault("bins", []):
            if e[0].eq(n) and e[1] is f:
                return SymText(["0b", Bits(e[2], e[3])])
        m = c.int("binlen")
        q = z3.Int("bq")
        zero = z3.And(m == 1, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(f(q)))))
        c.assume(n >= 1)
        c.axiom(z3.And(m >= 1, m <= n))
        c.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n - m), z3.Not(f(q)))))
        c.axiom(z3.Or(m == 1, f(n - m)))
        g = lambda i: f(z3.simplify(n - m + i))
        c.memo["bins"].append((n, f, m, g))
        return SymText(["0b", Bits(m, g)])


# ------------------------------------------------------------------------------------------------ numpy arrays
class Arr(Vc):
    """1-D numpy array.  kind: 'i' int cells (z3 Int), 'b' bool cells (z3 Bool), 'f' float cells (FV), 'o' values.
    filt = (N, P, g): the array is the sub-array { g(i) : i < N, P(i) } in increasing order of i."""
    __slots__ = ("n", "f", "kind", "dtype", "rng", "serial", "filt", "index", "is_series", "sname", "base")

    def __init__(self, n, f, kind, dtype, rng=None, filt=None):
        self.n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.f, self.kind, self.dtype, self.rng, self.filt = f, kind, dtype, rng, filt
        self.serial = cx().next_serial() if cx() else 0
        self.index = None
        self.is_series = False
        self.sname = None
        self.base = None

    def copy(self):
        a = Arr(self.n, self.f, self.kind, self.dtype, self.rng, self.filt)
        a.index, a.is_series = self.index, self.is_series
        return a

    def vlen(self):
        return mkint(self.n)

    def get(self, i):
        return wrap(self.f(i), self)

    def __len__(self):
        raise Unsupported("len of a symbolic array in C code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array in C code")

    def __bool__(self):
        if cx().fork(self.n == 1):
            return bool(self.get(z3.IntVal(0)))
        raise deliberate(ValueError("The truth value of an array with more than one element is ambiguous"))

    def __hash__(self):
        raise deliberate(TypeError("unhashable type: 'numpy.ndarray'"))

    def __str__(self):
        return "<array>"

    __repr__ = __str__

    def __format__(self, s):
        raise Unsupported("format of an array")


def wrap(x, a=None):
    if isinstance(x, z3.BoolRef):
        return mkbool(x)
    if isinstance(x, z3.ArithRef):
        return SInt(z3.simplify(x), True) if x.sort() == I else freal(x)
    return x


def is01(a):
    return a.kind == "b" or (a.rng is not None and a.rng[0] >= 0 and a.rng[1] <= 1)


def bitof(a, i):
    """cell i of a 0/1 array as z3 Bool"""
    x = a.f(i)
    if a.kind == "b":
        return x
    if a.kind == "f":
        return z3.simplify(z3.And(x.fin, x.val == 1))
    if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(1).eq(z3.IntVal(1)) and x.arg(2).eq(z3.IntVal(0)):
        return x.arg(0)
    return z3.simplify(x == 1)


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def cell_fv(a, i):
    x = a.f(i)
    if a.kind == "f":
        return x
    if a.kind == "b":
        return fv(b2i(x))
    if a.kind == "i":
        return fv(x)
    return fv(x)


def cell_int(a, i):
    x = a.f(i)
    if a.kind == "b":
        return b2i(x)
    if a.kind == "i":
        return x
    raise Unsupported("integer cells expected")
