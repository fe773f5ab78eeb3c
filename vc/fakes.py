"""Contracts of Python's builtins and of the packages the repository imports.  Everything in here is trusted; TRUSTED lists it
for the evidence files.  Anything not listed raises Unsupported, which makes the obligation undecided (never a violation)."""
import builtins, types, math
import z3
from core import Cx, Unsupported, PathEnd, Restart
from values import *
import values as V_
import nparr as NA
from nparr import Mat
import loops

TRUSTED = [
    "CPython semantics of the statements executed natively (assignment, attribute access, calls, classes, exceptions)",
    "numpy: zeros ones array fromiter diff where count_nonzero vstack all any astype comparison arithmetic bitwise indexing "
    "(contracts in vc/nparr.py); 32/64-bit integers do not overflow; floats are reals with nan and infinities, no rounding",
    "bitarray: construction from text or list, count, len, & | ^, str (contract class BitArr in vc/fakes.py)",
    "bin, int(text, 2), str, list, ast.literal_eval of decimal lists are inverse to each other as documented",
    "np.save / np.load round-trip; Path.is_file/touch/unlink/glob/stat act on a map from paths to contents",
    "psutil, time, random, sys.getsizeof return arbitrary values of their type (random.randint in its range)",
]


def cxx():
    return Cx.cur


# ------------------------------------------------------------------------------------------------ bit arrays
class BitArr(Vc):
    __slots__ = ("n", "f", "serial")

    def __init__(self, n, f):
        self.n, self.f = n, f
        self.serial = cxx().next_serial()

    def vlen(self):
        return mkint(self.n)

    def as_seq(self):
        f = self.f
        return Seq(self.n, lambda i: mkint(b2i(f(i))))

    def count(self, v=1):
        f = self.f
        t = ti(v) if not isinstance(v, (bool, SymBool)) else b2i(tbool(v))
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return mkint(count(self.n, (lambda i: s_(f(i))) if t.as_long() else (lambda i: s_(z3.Not(f(i))))))
        raise Unsupported("bitarray.count")

    def copy(self):
        return BitArr(self.n, self.f)

    def tolist(self):
        return VList(None, self.as_seq())

    def _op(self, o, g):
        if not isinstance(o, BitArr):
            return NotImplemented
        if not self.n.eq(o.n) and not cxx().fork(self.n == o.n):
            raise deliberate(ValueError("bitarrays of equal length expected"))
        f, h = self.f, o.f
        return BitArr(self.n, lambda i: s_(g(f(i), h(i))))

    def __and__(self, o):
        return self._op(o, z3.And)

    def __or__(self, o):
        return self._op(o, z3.Or)

    def __xor__(self, o):
        return self._op(o, z3.Xor)

    def _iop(self, o, g):
        r = self._op(o, g)
        log_write(self)
        self.f = r.f
        return self

    def __iand__(self, o):
        return self._iop(o, z3.And)

    def __ior__(self, o):
        return self._iop(o, z3.Or)

    def __ixor__(self, o):
        return self._iop(o, z3.Xor)

    def __invert__(self):
        f = self.f
        return BitArr(self.n, lambda i: s_(z3.Not(f(i))))

    def __getitem__(self, k):
        if isinstance(k, slice):
            s = seq_slice(Seq(self.n, lambda i: mkbool(self.f(i))), k)
            return BitArr(s.n, lambda i: tbool(s.f(i)))
        return seq_index(self.as_seq(), k)

    def __setitem__(self, k, v):
        log_write(self)
        f = self.f
        if isinstance(k, (int, SInt)):
            t = ti(k)
            if not cxx().fork(z3.And(t >= 0, t < self.n)):
                raise Unsupported("bitarray index")
            b = tbool(v) if isinstance(v, (bool, SymBool)) else ti(v) != 0
            self.f = lambda i: z3.If(i == t, b, f(i))
            return
        raise Unsupported("bitarray assignment")

    def to01(self):
        return SymText([Bits(self.n, self.f)])

    def any(self):
        return mkbool(z3.Not(NA.FA(z3.IntVal(0), self.n, lambda i: z3.Not(self.f(i)))))

    def all(self):
        return mkbool(NA.FA(z3.IntVal(0), self.n, lambda i: self.f(i)))

    def __bool__(self):
        return cxx().fork(self.n > 0)

    def __eq__(self, o):
        if not isinstance(o, BitArr):
            return False
        return mkbool(z3.And(self.n == o.n, NA.FA(z3.IntVal(0), self.n, lambda i: self.f(i) == o.f(i))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None


class bitarray_cls:
    def __new__(cls, x=None):
        if isinstance(x, str):
            x = SymText([x])
        if isinstance(x, SymText):
            b = x.bits()
            if b is None:
                raise Unsupported("bitarray of a text that is not known to be bits")
            return BitArr(b[0], b[1])
        if isinstance(x, BitArr):
            return x.copy()
        if isinstance(x, int) and not isinstance(x, bool):
            raise Unsupported("bitarray of a length")
        s = to_seq(x)
        c = cxx()
        c.nfresh += 1
        if not z3.is_int_value(z3.simplify(s.n)):
            i = z3.Int(f"ba!{c.nfresh}")
            v = s.f(i)
        else:
            v = None

        def cell(i):
            y = s.f(i)
            if isinstance(y, (bool, SymBool)):
                return tbool(y)
            t = z3.simplify(ti(y))
            if z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(1).eq(z3.IntVal(1)) and t.arg(2).eq(z3.IntVal(0)):
                return t.arg(0)
            return s_(t == 1)
        if v is not None and not isinstance(v, (bool, SymBool)):
            t = ti(v)
            if not c.entails(z3.Implies(z3.And(0 <= i, i < s.n), z3.Or(t == 0, t == 1))):
                raise Unsupported("bitarray of general integers")
        return BitArr(z3.simplify(s.n), cell)


# ------------------------------------------------------------------------------------------------ file system
PathS = z3.DeclareSort("Path")
apath = z3.Function("activation_file", PathS, I, PathS)       # <dir>/ACTIVATION_VECTOR_<number>.txt
anum = z3.Function("activation_number", PathS, I)
adir = z3.Function("parent", PathS, PathS)
amatch = z3.Function("matches_activation_pattern", PathS, B)  # name matches ACTIVATION_VECTOR_*.txt
ACT_PATTERN = "ACTIVATION_VECTOR_*.txt"


def path_axioms(c, t):
    if c.memo.get(("pax", t.get_id())):
        return
    c.memo[("pax", t.get_id())] = t
    if z3.is_app(t) and t.decl().eq(apath):
        c.axiom(z3.And(anum(t) == t.arg(1), adir(t) == t.arg(0), amatch(t)))


class VPath(Vc):
    __slots__ = ("t", "suffix_unknown")

    def __init__(self, t):
        self.t = t
        self.suffix_unknown = False
        if cxx():
            path_axioms(cxx(), t)

    def __truediv__(self, o):
        if isinstance(o, str):
            o = SymText([o])
        if isinstance(o, SymText):
            p = o.pieces
            if len(p) == 3 and p[0] == "ACTIVATION_VECTOR_" and isinstance(p[1], Num) and p[2] == ".txt":
                return VPath(apath(self.t, p[1].t))
            if all(isinstance(x, str) for x in p):
                return VPath(z3.Function("child_" + "".join(p), PathS, PathS)(self.t))
        raise Unsupported("path component")

    def _havoc(self, c, label):
        if z3.is_app(self.t) and self.t.decl().eq(apath):
            return VPath(apath(self.t.arg(0), c.int(label)))
        return VPath(z3.Const(c.name("path"), PathS))

    def _shape(self, c, v):
        if not isinstance(v, VPath):
            return False
        if z3.is_app(self.t) and self.t.decl().eq(apath):
            return z3.is_app(v.t) and v.t.decl().eq(apath) and v.t.arg(0).eq(self.t.arg(0))
        return True

    @property
    def parent(self):
        return VPath(adir(self.t))

    def is_file(self):
        return mkbool(cxx().fs.exists(self.t))

    exists = is_file

    def is_dir(self):
        return mkbool(z3.Function("is_dir", PathS, B)(self.t))

    def touch(self, exist_ok=True):
        cxx().fs.touch(self.t)

    def unlink(self, missing_ok=False):
        fs = cxx().fs
        if not cxx().fork(fs.exists(self.t)):
            if missing_ok:
                return
            raise deliberate(FileNotFoundError("no such file"))
        fs.unlink(self.t)

    def stat(self):
        x = SInt(cxx().int("st_size"))
        cxx().assume(x.t >= 0)
        return types.SimpleNamespace(st_size=x)

    def glob(self, pat):
        if pat != ACT_PATTERN:
            raise Unsupported(f"glob pattern {pat!r}")
        c = cxx()
        n = c.int("nglob")
        c.assume(n >= 0)
        g = c.fun("glob", I, PathS)
        i, j = z3.Ints("gi gj")
        ex = c.fs.exists
        c.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(adir(g(i)) == self.t, amatch(g(i)), ex(g(i))))))
        c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), g(i) != g(j))))
        ix = c.fun("globidx", PathS, I)
        q = z3.Const("gq", PathS)
        c.axiom(z3.ForAll([q], z3.Implies(z3.And(adir(q) == self.t, amatch(q), ex(q)), z3.And(0 <= ix(q), ix(q) < n, g(ix(q)) == q)),
                          patterns=[ix(q)]))
        c.memo["glob"] = (n, g, ix, self.t)
        return VList(None, Seq(n, lambda k: VPath(g(k))))

    def __eq__(self, o):
        if isinstance(o, VPath):
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of a path")

    def __fspath__(self):
        raise Unsupported("path given to C code")


class FS:
    """files: an existence predicate and contents; every effect is recorded as an event"""

    def __init__(self, c):
        self.ex0 = c.fun("file_exists", PathS, B)
        self.updates = []        # (path term, exists True/False)
        self.base = lambda p: self.ex0(p)
        self.contents = []       # (path, value) latest last; None = emptied / unknown
        self.events = []         # (kind, path, exists-before term)
        self.on_event = None
        self.serial = 0

    def exists(self, p):
        e = self.base(p)
        for q, v in self.updates:
            e = z3.If(p == q, z3.BoolVal(v), e)
        return z3.simplify(e)

    def ev(self, kind, p):
        log_write(self)
        before = self.exists(p)
        self.events.append((kind, p, before))
        if self.on_event:
            self.on_event(kind, p, before)

    def touch(self, p):
        self.ev("touch", p)
        self.updates.append((p, True))

    def write(self, p, v):
        self.ev("write", p)
        self.updates.append((p, True))
        self.contents.append((p, v))

    def unlink(self, p):
        self.ev("unlink", p)
        self.updates.append((p, False))

    def read(self, p):
        c = cxx()
        for q, v in reversed(self.contents):
            if q.eq(p) or c.fork(q == p):
                if v is None:
                    raise Unsupported("content of a file")
                return v
        raise Unsupported("content of a file the contract does not know")

    def havoc(self, c):
        f = c.fun("file_exists", PathS, B)
        self.base = lambda p: f(p)
        self.updates = []
        self.contents = [(p, v) for p, v in self.contents if False]


class VFile:
    def __init__(self, p, mode):
        self.p, self.mode = p, mode
        c = cxx()
        if "r" in mode and "+" not in mode:
            if not c.fork(c.fs.exists(p)):
                raise deliberate(FileNotFoundError("no such file"))
        elif "w" in mode:
            c.fs.write(p, None)
        elif "x" in mode:
            if c.fork(c.fs.exists(p)):
                raise deliberate(FileExistsError("file exists"))
            c.fs.write(p, None)
        else:
            raise Unsupported("open mode " + mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def v_open(path, mode="r", *a, **k):
    if isinstance(path, VPath):
        return VFile(path.t, mode)
    raise Unsupported("open")


class Path_cls:
    def __new__(cls, x="."):
        if isinstance(x, VPath):
            return x
        if isinstance(x, SymText):
            for p in x.pieces:
                if isinstance(p, Val) and isinstance(p.v, tuple) and p.v and p.v[0] == "path":
                    return VPath(p.v[1])
        if isinstance(x, str):
            return VPath(z3.Const("path_" + x, PathS))
        raise Unsupported("Path()")


# ------------------------------------------------------------------------------------------------ builtins
class _Meta(type):
    def __repr__(cls):
        return cls.__name__


class vint(metaclass=_Meta):
    def __new__(cls, x=0, base=None):
        if base is not None:
            if isinstance(x, str):
                try:
                    return int(x, base)
                except ValueError as e:
                    raise deliberate(e)
            if base == 2 and isinstance(x, SymText):
                ps = x.pieces
                if ps and isinstance(ps[0], str) and ps[0].startswith("0b"):
                    x = x[2:]
                b = x.bits()
                if b is not None:
                    if cxx().fork(b[0] < 1):
                        raise deliberate(ValueError("invalid literal for int() with base 2: ''"))
                    return BitInt(b[0], b[1])
            raise Unsupported("int(text, base)")
        if isinstance(x, (int, float, str, bool)):
            try:
                return int(x)
            except (ValueError, OverflowError) as e:
                raise deliberate(e)
        if isinstance(x, SInt):
            return mkint(x.t)
        if isinstance(x, SymBool):
            return mkint(b2i(x.t))
        if isinstance(x, BitInt):
            return x
        if isinstance(x, SymText) and len(x.pieces) == 1 and isinstance(x.pieces[0], Num):
            return mkint(x.pieces[0].t)
        if isinstance(x, SymText) and x.bits() is not None:
            raise Unsupported("decimal value of bits")
        if isinstance(x, FV):
            if cxx().fork(z3.Not(x.fin)):
                raise deliberate(ValueError("cannot convert float NaN/inf to integer"))
            return mkint(NA.cast_cell(FV(F_, F_, F_, x.val), "f", "i"))
        raise Unsupported(f"int({type(x).__name__})")


class vfloat(metaclass=_Meta):
    def __new__(cls, x=0.0):
        if isinstance(x, (int, float, str)):
            try:
                return float(x)
            except ValueError as e:
                raise deliberate(e)
        if is_num(x):
            return fv(x)
        if isinstance(x, Str):
            import classfake
            return classfake.read_number(x)
        if isinstance(x, SymText) and len(x.pieces) == 1:
            p = x.pieces[0]
            if isinstance(p, Num):
                return fv(SInt(p.t))
            if isinstance(p, Val) and isinstance(p.v, FV):
                return p.v
        raise Unsupported(f"float({type(x).__name__})")


class vbool(metaclass=_Meta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        return bool(x)


def text_of(x):
    """pieces of str(x)"""
    if isinstance(x, str):
        return [x]
    if isinstance(x, SymText):
        return list(x.pieces)
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return [str(x)]
    if isinstance(x, SInt):
        return [Num(x.t)]
    if isinstance(x, BitArr):
        return ["bitarray('", Bits(x.n, x.f), "')"]
    if isinstance(x, VList):
        if x.conc:
            out = ["["]
            for k, y in enumerate(x.items):
                if k:
                    out.append(", ")
                out += repr_of(y)
            if len(x.items) and all(isinstance(y, (int, SInt)) and not isinstance(y, bool) for y in x.items) and \
                    any(isinstance(y, SInt) for y in x.items):
                return ["[", Ints(x.as_seq(), ", "), "]"]
            return out + ["]"]
        c = cxx()
        c.nfresh += 1
        i = z3.Int(f"tx!{c.nfresh}")
        v = x.seq.f(i)
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            return ["[", Ints(x.seq, ", "), "]"]
        if isinstance(v, (Str, FV)):
            return ["[", Many(x.seq), "]"]
        raise Unsupported("str of a symbolic list")
    if isinstance(x, (Str, FV, Uop)):
        return [Val(x)]
    if isinstance(x, VPath):
        return [Val(("path", x.t))]
    if isinstance(x, type):
        return [repr(x)]
    if isinstance(x, Vc):
        return [Val(("opaque", id(x), x))]
    m = getattr(type(x), "__str__", None)
    if m is not None and m is not object.__str__ and not isinstance(x, (dict, tuple, list, BaseException)):
        r = m(x)
        return text_of(r)
    if isinstance(x, tuple):
        out = ["("]
        for k, y in enumerate(x):
            if k:
                out.append(", ")
            out += repr_of(y)
        return out + [",)" if len(x) == 1 else ")"]
    return [Val(("opaque", id(x), x))]


def repr_of(x):
    if isinstance(x, str):
        return [repr(x)]
    if isinstance(x, (SymText, Str)):
        return ["'"] + text_of(x) + ["'"]
    return text_of(x)


def mktext(pieces):
    t = SymText(pieces)
    if all(isinstance(p, str) for p in t.pieces):
        return "".join(t.pieces)
    return t


class vstr(metaclass=_Meta):
    def __new__(cls, x=""):
        return mktext(text_of(x))


def in_any_order(xs):
    """the elements of a set, listed in an arbitrary order"""
    xs = list(xs)
    if len(xs) > 1 and all(isinstance(x, (str, int)) for x in xs):
        # names and positions: one order or its reverse, the same throughout a path (every permutation of the rules themselves)
        m = cxx().memo
        if "set order" not in m:
            m["set order"] = cxx().choose(2)
        return xs if m["set order"] else xs[::-1]
    if len(xs) > 4:
        raise Unsupported("order of the elements of a large set")
    out = []
    while xs:
        out.append(xs.pop(cxx().choose(len(xs))))
    return out


class vlist(metaclass=_Meta):
    def __new__(cls, x=()):
        if isinstance(x, VSet):
            if x.conc:
                return VList(in_any_order(x.items))
            c = cxx()
            k = c.int("ndistinct")
            c.assume(z3.And(k >= 0, k <= x.seq.n, (k == 0) == (x.seq.n == 0)))
            return VList(None, Seq(k, lambda i: _u("element of a listed set")))
        if is_conc_iter(x):
            return VList(list(conc_iter(x)))
        if isinstance(x, Mat):
            return VList(None, x.as_seq())
        return VList(None, to_seq(x))


class vtuple(metaclass=_Meta):
    def __new__(cls, x=()):
        if is_conc_iter(x):
            return tuple(conc_iter(x))
        return mktuple(to_seq(x))


class VSet(Vc):
    """a set: concrete skeleton with provably distinct-or-equal elements, else a symbolic sequence without order"""
    __slots__ = ("items", "seq")

    def __init__(self, items=None, seq=None):
        self.items, self.seq = items, seq

    @property
    def conc(self):
        return self.items is not None

    def as_seq(self):
        return Seq.of(self.items) if self.conc else self.seq

    def vlen(self):
        if self.conc:
            return len(self.items)
        # number of distinct elements: only "equal to n iff all distinct" is in the contract
        c = cxx()
        n = self.seq.n
        d = c.int("ndistinct")
        i, j = z3.Ints("di dj")
        c.axiom(z3.And(d >= 0, d <= n, z3.Implies(n > 0, d >= 1)))
        distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(veq(self.seq.f(i), self.seq.f(j)))))
        c.axiom((d == n) == distinct)
        return SInt(d)

    def __contains__(self, x):
        return bool(seq_contains(VList(self.items) if self.conc else VList(None, self.seq), x))

    def __iter__(self):
        if self.conc:
            return iter(self.items)
        raise Unsupported("iteration over a symbolic set")

    def add(self, x):
        if not self.conc:
            raise Unsupported("set.add")
        log_write(self)
        for y in self.items:
            if y is x or cxx().fork(veq(y, x)):
                return
        self.items.append(x)

    def _both(self, o):
        if not isinstance(o, VSet) or not self.conc or not o.conc:
            raise Unsupported("set operation")
        return o

    def _has(self, x):
        return any(y is x or cxx().fork(veq(y, x)) for y in self.items)

    def __or__(self, o):
        o = self._both(o)
        return VSet(self.items + [x for x in o.items if not self._has(x)])

    def __and__(self, o):
        o = self._both(o)
        return VSet([x for x in self.items if o._has(x)])

    def __sub__(self, o):
        o = self._both(o)
        return VSet([x for x in self.items if not o._has(x)])

    def union(self, o):
        return self | v_set(o)

    def intersection(self, o):
        return self & v_set(o)

    def difference(self, o):
        return self - v_set(o)

    def __eq__(self, o):
        if not isinstance(o, VSet):
            return False
        if self.conc and o.conc:
            if len(self.items) != len(o.items):
                return False
            return all(o._has(x) for x in self.items)
        A, B_ = self.as_seq(), o.as_seq()
        c = cxx()
        c.nfresh += 1
        i, j = z3.Ints(f"se!{c.nfresh} sf!{c.nfresh}")

        def has(x, Y):
            out = []
            for q in Y.pieces():
                n = z3.simplify(q.n)
                if z3.is_int_value(n):
                    out += [veqs(x, q.f(z3.IntVal(u))) for u in range(n.as_long())]
                    continue
                e = z3.simplify(veqs(x, q.f(j)))
                if not z3.is_false(e):
                    out.append(z3.Exists([j], z3.And(0 <= j, j < q.n, e)))
            return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)

        def sub(X, Y):
            out = []
            for q in X.pieces():
                n = z3.simplify(q.n)
                if z3.is_int_value(n):
                    out += [has(q.f(z3.IntVal(u)), Y) for u in range(n.as_long())]
                else:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), has(q.f(i), Y))))
            return z3.And(*out)
        return mkbool(z3.And(sub(A, B_), sub(B_, A)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return len(self.items) > 0 if self.conc else cxx().fork(self.seq.n > 0)

    __hash__ = None


def veqs(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return z3.BoolVal(False)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[veqs(x, y) for x, y in zip(a, b)])
    return veq(a, b)


def v_set(x=()):
    if isinstance(x, VSet):
        return VSet(list(x.items) if x.conc else None, x.seq)
    if is_conc_iter(x):
        out = []
        for y in conc_iter(x):
            for z in out:
                if z is y:
                    break
                r = (z == y)
                if isinstance(r, SymBool):
                    r = cxx().fork(r.t)
                if r:
                    break
            else:
                out.append(y)
        return VSet(out)
    return VSet(None, to_seq(x))


class vset(metaclass=_Meta):
    def __new__(cls, x=()):
        return v_set(x)


class VDict(dict):
    """a dict with concrete keys; symbolic keys are undecided"""

    def __bool__(self):
        return len(self) > 0


def vc_dict(*pairs):
    d = VDict()
    for k, v in pairs:
        d[k] = v
    return d


class vdict(metaclass=_Meta):
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], VList):
            a = (list(conc_iter(a[0])) if a[0].conc else _u("dict"),)
        return VDict(*a, **k)


def _u(msg):
    raise Unsupported(msg)


def v_len(x):
    if isinstance(x, Str):
        return mkint(strlen(x))
    if isinstance(x, (Arr, VList, VTuple, SymText, BitArr, VSet, Mat)) or isinstance(x, Vc) and hasattr(type(x), "vlen"):
        return x.vlen()
    if isinstance(x, Vc):
        raise Unsupported(f"len of {type(x).__name__}")
    m = getattr(type(x), "__len__", None)
    if m is None:
        raise deliberate(TypeError(f"object of type {type(x).__name__} has no len()"))
    if isinstance(x, (str, tuple, list, dict, set, range, bytes)):
        return len(x)
    return m(x)


KIND = {}


def classes(k):
    if isinstance(k, tuple):
        out = []
        for x in k:
            out += classes(x)
        return out
    return [k]


def v_isinstance(x, k):
    if isinstance(x, Choice):
        x = x.pick()
    for t in classes(k):
        if inst1(x, t):
            return True
    return False


def inst1(x, t):
    if t is vint:
        return isinstance(x, (int, SymBool, BitInt)) or (isinstance(x, SInt) and not x.np)
    if t is vfloat:
        return isinstance(x, (float, FV))
    if t is vbool:
        return isinstance(x, (bool, SymBool))
    if t is vstr:
        return isinstance(x, (str, Str, SymText))
    if t is vlist:
        return isinstance(x, (VList, list))
    if t is vtuple:
        return isinstance(x, (tuple, VTuple))
    if t is vset:
        return isinstance(x, VSet)
    if t is vdict:
        return isinstance(x, dict)
    if t is bitarray_cls:
        return isinstance(x, BitArr)
    if t is Path_cls:
        return isinstance(x, VPath)
    if t is ndarray_cls:
        return (isinstance(x, Arr) and not x.is_series) or isinstance(x, Mat)
    if t is Number_cls:
        return is_num(x) or isinstance(x, BitInt)
    if isinstance(t, NA.DType):
        return isinstance(x, SInt) and x.np and t.kind == "i" and t in (NA.INT64,)
    h = getattr(t, "_vc_instance", None)
    if h is not None:
        return h(x)
    if isinstance(x, Vc):
        if isinstance(t, type) and t.__module__ in ("builtins",):
            return False
        if isinstance(t, type) and issubclass(t, Vc):
            return isinstance(x, t)
        return False
    if isinstance(t, type):
        return isinstance(x, t)
    raise Unsupported(f"isinstance of {t}")


class ndarray_cls:
    def __new__(cls, *a, **k):
        raise Unsupported("np.ndarray()")


class Number_cls:
    pass


def v_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, Choice):
        x = x.pick()
    for t, k in ((bool, vbool), (SymBool, vbool), (int, vint), (BitInt, vint), (float, vfloat), (FV, vfloat), (str, vstr), (Str, vstr),
                 (SymText, vstr), (VList, vlist), (list, vlist), (tuple, vtuple), (VTuple, vtuple), (VSet, vset), (dict, vdict),
                 (BitArr, bitarray_cls), (VPath, Path_cls)):
        if isinstance(x, t):
            return k
    if isinstance(x, SInt):
        return NA.INT64 if x.np else vint
    if isinstance(x, Arr) and not x.is_series:
        return ndarray_cls
    if isinstance(x, Vc):
        h = getattr(type(x), "_vc_type", None)
        return h if h is not None else type(x)
    return type(x)


def v_bin(x):
    if isinstance(x, BitInt):
        return x.binary()
    if isinstance(x, int):
        return bin(x)
    if isinstance(x, SInt):
        raise Unsupported("bin of a symbolic integer")
    return bin(x)


def v_any(x):
    if is_conc_iter(x):
        # short-circuit in order, like Python, but without forking on every element
        acc = []
        for y in (conc_iter(x)):
            if isinstance(y, SymBool):
                acc.append(y.t)
            elif y:
                return True if not acc else mkbool(z3.BoolVal(True))
        return mkbool(z3.Or(*acc)) if acc else False
    s = to_seq(x)
    return mkbool(z3.Not(NA.FA(z3.IntVal(0), s.n, lambda i: z3.Not(tb(s.f(i))))))


def tb(y):
    t = tbool(y)
    if t is None:
        if isinstance(y, (int, SInt)):
            return ti(y) != 0
        raise Unsupported("truth value of an element")
    return t


def v_all(x):
    if is_conc_iter(x):
        acc = []
        for y in conc_iter(x):
            if isinstance(y, SymBool):
                acc.append(y.t)
            elif not y:
                return False
        return mkbool(z3.And(*acc)) if acc else True
    s = to_seq(x)
    return mkbool(NA.FA(z3.IntVal(0), s.n, lambda i: tb(s.f(i))))


def v_sum(x, start=0):
    if is_conc_iter(x):
        t = start
        for y in conc_iter(x):
            t = t + y
        return t
    if isinstance(x, Arr):
        if x.is_series:
            raise Unsupported("builtin sum of a series")
        r = NA.fsum(x)
        if x.kind in "bi" and is01(x):
            return SInt(NA.count_true(x), True)
        if x.kind == "f":
            return r
        raise Unsupported("sum")
    s = to_seq(x)
    c = cxx()
    c.nfresh += 1
    i = z3.Int(f"su!{c.nfresh}")
    v = s.f(i)
    if isinstance(v, (bool, SymBool)):
        return mkint(get_enum(s.n, lambda i: s_(tb(s.f(i)))).m)
    raise Unsupported("sum of a symbolic sequence")


def _minmax(x, less):
    xs = list(conc_iter(x)) if is_conc_iter(x) else None
    if xs is None:
        import classfake
        return classfake.seq_max(to_seq(x), less(2, 1))
    if not xs:
        raise deliberate(ValueError("arg is an empty sequence"))
    r = xs[0]
    for y in xs[1:]:
        b = less(y, r)
        r = ite(b.t, y, r) if isinstance(b, SymBool) else (y if b else r)
    return r


def v_max(*a, key=None, default=None):
    if key is not None:
        raise Unsupported("max with a key")
    return _minmax(a[0] if len(a) == 1 else a, lambda y, r: y > r)


def v_min(*a, key=None, default=None):
    if key is not None:
        raise Unsupported("min with a key")
    return _minmax(a[0] if len(a) == 1 else a, lambda y, r: y < r)


def v_sorted(x, key=None, reverse=False):
    """stable sort; concrete skeletons only (insertion sort with forks)"""
    if not is_conc_iter(x):
        return sorted_seq(to_seq(x), key, reverse)
    items = list(conc_iter(x))
    ks = [key(y) if key is not None else y for y in items]

    def lt(a, b):
        r = (a < b)
        if isinstance(r, SymBool):
            return cxx().fork(r.t)
        if r is NotImplemented:
            raise Unsupported("order")
        return bool(r)
    out = []
    for y, k in zip(items, ks):
        p = len(out)
        while p > 0 and (lt(k, out[p - 1][1]) if not reverse else lt(out[p - 1][1], k)):
            p -= 1
        out.insert(p, (y, k))
    return VList([y for y, _ in out])


def sorted_seq(s, key, reverse):
    """sorted(sequence of symbolic length): a permutation in order"""
    c = cxx()
    if c.binders:
        raise Unsupported("sort under a binder")
    if c.small is not None:
        for k in range(6):
            if c.fork(s.n == k):
                return v_sorted(VList([s.f(z3.IntVal(j)) for j in range(k)]), key, reverse)
    if key is not None:
        ks = loops.symbolic_comp("list", s, lambda e: [key(e)], False).as_seq()
        kf = ks.f
    else:
        kf = s.f
    k0 = kf(z3.Int("sp_j"))
    if isinstance(k0, tuple) and len(k0) > 1:
        # keys whose first components are pairwise distinct are ordered by the first component alone
        a, b = z3.Int(c.name("ind")), z3.Int(c.name("ind"))
        if c.entails(z3.Implies(z3.And(0 <= a, a < b, b < s.n), z3.Not(eq_term(kf(a)[0], kf(b)[0])))):
            k1 = kf
            kf = lambda i: k1(i)[0]
    p = sort_perm(s.n, kf, reverse)
    q = c.memo["perminv"][p.name()]
    inv = None
    if s.inv is not None:
        def inv(x):
            r = s.inv(x)
            return None if r is None else (r[0], q(r[1]))
    return VList(None, Seq(s.n, lambda i: s.f(p(i)), inv))


def sort_perm(n, kf, reverse=False):
    """the stable sorting permutation p of 0..n-1 by the keys kf: memoised on the key terms"""
    c = cxx()
    j = z3.Int("sp_j")
    kj = kf(j)
    sig = tuple(str(z3.simplify(t)) for t in terms(kj))
    for (n2, sig2, rev2, p2) in c.memo.setdefault("perms", []):
        if n2.eq(n) and sig2 == sig and rev2 == reverse:
            return p2
    p = c.fun("perm", I, I)
    q = c.fun("perminv", I, I)
    i, k = z3.Ints("sp_i sp_k")
    inr = lambda x: z3.And(0 <= x, x < n)
    c.axiom(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    c.axiom(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q(i)), p(q(i)) == i)), patterns=[q(i)]))

    def le(a, b):
        """not (b < a)"""
        r = lt_term(b, a) if not reverse else lt_term(a, b)
        return z3.Not(r)
    c.axiom(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n),
                                         z3.And(le(kf(p(i)), kf(p(k))),
                                                z3.Implies(eq_term(kf(p(i)), kf(p(k))), p(i) < p(k)))),
                      patterns=[z3.MultiPattern(p(i), p(k))]))
    c.memo["perms"].append((n, sig, reverse, p))
    c.memo.setdefault("perminv", {})[p.name()] = q
    return p


def terms(v):
    if isinstance(v, tuple):
        return [t for x in v for t in terms(x)]
    if isinstance(v, (SInt, SymBool, Str, Uop)):
        return [v.t]
    if isinstance(v, FV):
        return [v.nan, v.pinf, v.ninf, v.val]
    if isinstance(v, (int, bool)):
        return [z3.IntVal(int(v))]
    raise Unsupported("sort key")


def lt_term(a, b):
    if isinstance(a, tuple):
        r = tuple_lt(a, b)
    else:
        r = a < b
    t = tbool(r)
    if t is None:
        raise Unsupported("order of keys")
    return t


def eq_term(a, b):
    if isinstance(a, tuple):
        return z3.And(*[eq_term(x, y) for x, y in zip(a, b)])
    return veq(a, b)


def v_zip(*its):
    if all(is_conc_iter(x) for x in its):
        return zip(*[conc_iter(x) for x in its])
    ss = [to_seq(x) for x in its]
    n = ss[0].n
    for s in ss[1:]:
        if not s.n.eq(n) and not cxx().entails(s.n == n, 1500):
            n = z3.If(s.n < n, s.n, n)
    return VList(None, Seq(z3.simplify(n), lambda i: tuple(s.f(i) for s in ss)))


def v_zipstar(x):
    """zip(*x)"""
    if is_conc_iter(x):
        return v_zip(*conc_iter(x))
    s = to_seq(x)
    c = cxx()
    if not c.fork(s.n > 0):
        return VList([])
    c.nfresh += 1
    v = s.f(z3.Int(f"zs!{c.nfresh}"))
    if not isinstance(v, tuple):
        raise Unsupported("zip(*sequence)")
    return VList([mktuple(Seq(s.n, lambda i, k=k: s.f(i)[k])) for k in range(len(v))])


def v_enumerate(x, start=0):
    if is_conc_iter(x):
        return enumerate(conc_iter(x), start)
    s = to_seq(x)
    return VList(None, Seq(s.n, lambda i: (mkint(i + start), s.f(i))))


def v_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        t = ti(a[0])
        n = t if not cxx().feasible(t < 0) else z3.simplify(z3.If(t > 0, t, 0))
        return VList(None, Seq(n, lambda i: mkint(i), lambda x: (z3.And(0 <= ti(x), ti(x) < n), ti(x))))
    if len(a) == 2:
        lo, hi = ti(a[0]), ti(a[1])
        return VList(None, Seq(z3.simplify(z3.If(hi > lo, hi - lo, 0)), lambda i: mkint(lo + i)))
    raise Unsupported("range with a step")


def v_reversed(x):
    if is_conc_iter(x):
        return reversed(list(conc_iter(x)))
    s = to_seq(x)
    return VList(None, Seq(s.n, lambda i: s.f(z3.simplify(s.n - 1 - i))))


def v_map(f, *xs):
    if len(xs) == 1 and not is_conc_iter(xs[0]):
        return loops.vc_comp("list", xs[0], lambda e: [f(e)], False)
    return map(f, *[conc_iter(x) if is_conc_iter(x) else _u("map") for x in xs])


def v_filter(f, x):
    if not is_conc_iter(x):
        return loops.vc_comp("list", x, lambda e: [e] if (f(e) if f else e) else [], False)
    return filter(f, conc_iter(x))


def v_abs(x):
    return abs(x)


def v_round(x, k=None):
    """nearest multiple of 10**-k, ties to the even one"""
    if not isinstance(x, Vc):
        return round(x) if k is None else round(x, k)
    if k is not None and not isinstance(k, int) or not isinstance(x, FV):
        raise Unsupported("round")
    p = 10 ** (k or 0) if (k or 0) >= 0 else z3.Q(1, 10 ** -k)
    t = x.val * p
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    r = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if k is None:
        if cxx().fork(x.nan):
            raise deliberate(ValueError("cannot convert float NaN to integer"))
        if cxx().fork(z3.Or(x.pinf, x.ninf)):
            raise deliberate(OverflowError("cannot convert float infinity to integer"))
        return mkint(r)
    return FV(x.nan, x.pinf, x.ninf, z3.simplify(z3.ToReal(r) / p))


HashS = I
_hashf = {}


def v_hash(x):
    """equal values have equal hashes (congruence only)"""
    if isinstance(x, (str, int, float, bool, type(None))) and not isinstance(x, Vc):
        return hash(x)
    if isinstance(x, SymText):
        return SInt(hash_text(x))
    if isinstance(x, tuple) and not any(isinstance(y, (Vc, tuple)) for y in x):
        return hash(x)
    if isinstance(x, (tuple, VSet, VTuple, FV, SInt, Str)):
        # equal values have equal hashes; nothing else is known
        c = cxx()
        h = c.int("hash")
        for y, hy in c.memo.setdefault("hashes", []):
            if type(y) is type(x) or is_num(x) and is_num(y):
                r = (x == y) if not isinstance(x, tuple) else veqs(x, y)
                if not (isinstance(r, bool) and not r):
                    c.axiom(z3.Implies(tbool(r) if not isinstance(r, z3.BoolRef) else r, h == hy))
        c.memo["hashes"].append((x, h))
        return SInt(h)
    if isinstance(x, Vc):
        raise Unsupported("hash")
    m = type(x).__hash__
    if m is None:
        raise deliberate(TypeError("unhashable"))
    return m(x)


def hash_text(x):
    raise Unsupported("hash of a text")


def v_iter(x):
    return iter(conc_iter(x)) if is_conc_iter(x) else _u("iter")


def v_next(x, *a):
    return next(x, *a)


def v_print(*a, **k):
    return None


def vc_list(*a):
    return VList(a)


def vc_set_disp(*a):
    return v_set(VList(a))


def vc_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            lam, conv, spec = p
            try:
                v = lam()
                if spec not in ("", None):
                    if isinstance(v, Vc):
                        out.append(Val(("opaque", id(v), v)))
                    else:
                        out.append(format(v, spec))
                    continue
                out += repr_of(v) if conv == 114 else text_of(v)
            except Unsupported:
                out.append(Val(("opaque", id(lam), lam)))
    return mktext(out)


def vc_in(a, b):
    if isinstance(b, str):
        if isinstance(a, str):
            return a in b
        if isinstance(a, SymText):
            raise Unsupported("text in a literal")
        if isinstance(a, Str):
            raise Unsupported("string in a literal")
    if isinstance(b, SymText):
        if isinstance(a, str):
            return b.has_char(a)
        raise Unsupported("text search")
    if isinstance(b, (VList, VTuple, VSet)):
        if isinstance(b, VSet):
            return b.__contains__(a)
        return seq_contains(b, a)
    if isinstance(b, tuple):
        return seq_contains(b, a)
    if isinstance(b, dict):
        if isinstance(a, Vc):
            acc = False
            for k in b:
                r = (a == k)
                if isinstance(r, SymBool):
                    r = cxx().fork(r.t)
                if r:
                    return True
            return False
        return a in b
    if isinstance(b, Vc):
        m = getattr(type(b), "__contains__", None)
        if m is None:
            raise Unsupported(f"in {type(b).__name__}")
        return m(b, a)
    m = getattr(type(b), "__contains__", None)
    if m is not None and not isinstance(b, (set, frozenset, range)):
        return m(b, a)
    return a in b


def vc_meth(s, name, *args, **kw):
    if isinstance(s, (str, SymText)):
        if name == "join":
            return join(s, args[0])
        if name == "format":
            if isinstance(s, str) and not any(isinstance(a, Vc) for a in args) and not kw:
                return s.format(*args)
            return SymText([Val(("opaque", id(s), s))])
    return getattr(s, name)(*args, **kw)


def join(sep, it):
    if is_conc_iter(it):
        out = []
        for k, x in enumerate(conc_iter(it)):
            if k:
                out += text_of(sep)
            if not isinstance(x, (str, SymText, Str)):
                raise deliberate(TypeError("sequence item: expected str instance"))
            out += text_of(x)
        return mktext(out)
    s = to_seq(it)
    c = cxx()
    c.nfresh += 1
    i = z3.Int(f"jn!{c.nfresh}")
    v = s.f(i)
    if isinstance(v, SymText) and len(v.pieces) == 1:
        p = v.pieces[0]
        if isinstance(p, Num):
            num = lambda k: s.f(k).pieces[0].t
            if sep == "":
                if c.entails(z3.Implies(z3.And(0 <= i, i < s.n), z3.Or(p.t == 0, p.t == 1))):
                    def bit(k):
                        t = z3.simplify(num(k))
                        if z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(1).eq(z3.IntVal(1)) and t.arg(2).eq(z3.IntVal(0)):
                            return t.arg(0)
                        return s_(t == 1)
                    return SymText([Bits(s.n, bit)])
                raise Unsupported("join of numbers without separator")
            return SymText([Ints(Seq(s.n, lambda k: mkint(num(k))), sep)])
        if isinstance(p, Bits) and sep == "" and c.entails(z3.Implies(z3.And(0 <= i, i < s.n), p.n == 1)):
            return SymText([Bits(s.n, lambda k: s.f(k).pieces[0].f(z3.IntVal(0)))])
    if isinstance(v, str) and len(v) == 1 and sep == "":
        return SymText([Rep(v, s.n)])
    raise Unsupported("join over a symbolic sequence")


def vc_mark(e):
    if isinstance(e, type) and issubclass(e, BaseException):
        e = e()
    if isinstance(e, BaseException):
        e._vc = True
    return e


def semantic(e):
    """could the real program raise this exception?"""
    if getattr(e, "_vc", False):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    import loader
    fn = last.tb_frame.f_code.co_filename if last else ""
    if fn.startswith(loader.REPO) and isinstance(e, (KeyError, IndexError, ZeroDivisionError, ValueError)):
        return True
    return False


def vc_exc():
    import sys
    e = sys.exc_info()[1]
    if not semantic(e):
        raise Unsupported(f"{type(e).__name__}: {e}")


def vc_unsupported(m):
    raise Unsupported(m)


class Lazy:
    """attribute whose value is chosen when it is first read"""

    def __init__(self, fn):
        self.fn = fn


def v_getattr(o, k, *d):
    if isinstance(k, (Str, SymText)):
        raise Unsupported("getattr with a symbolic name")
    return getattr(o, k, *d)


def hook_class(cls):
    if cls.__dict__.get("_vc_hooked"):
        return
    own_set = cls.__dict__.get("__setattr__")

    def __setattr__(self, k, v):
        c = cxx()
        if c is not None and c.log is not None:
            log_write((self, k))
        elif c is not None and c.binders:
            raise Unsupported("attribute written inside a comprehension over a symbolic sequence")
        object.__setattr__(self, k, v)

    def __getattribute__(self, k):
        v = object.__getattribute__(self, k)
        if isinstance(v, Lazy):
            v = v.fn()
            object.__setattr__(self, k, v)
        return v
    try:
        if own_set is None:
            cls.__setattr__ = __setattr__
        cls.__getattribute__ = __getattribute__
        cls._vc_hooked = True
    except TypeError:
        pass


# ------------------------------------------------------------------------------------------------ numpy
def np_shape_arg(n):
    if isinstance(n, tuple):
        if len(n) == 1:
            n = n[0]
        else:
            return n
    return n


def filled(x, dt):
    def f(n, dtype=None, order=None):
        n = np_shape_arg(n)
        d = NA.dtype_of(dtype) or dt
        if dtype is not None and NA.dtype_of(dtype) is None:
            raise Unsupported("dtype")
        if isinstance(n, tuple) and len(n) == 2:
            cell = fconst(x) if d.kind == "f" else (z3.IntVal(int(x)) if d.kind == "i" else z3.BoolVal(bool(x)))
            return Mat(ti(n[0]), ti(n[1]), lambda i, j: cell, d.kind, d, (x, x))
        if isinstance(n, (float, FV)):
            raise deliberate(TypeError("'float' object cannot be interpreted as an integer"))
        t = z3.simplify(ti(n))
        if cxx().fork(t < 0):
            raise deliberate(ValueError("negative dimensions are not allowed"))
        cell = fconst(x) if d.kind == "f" else (z3.IntVal(int(x)) if d.kind == "i" else z3.BoolVal(bool(x)))
        return Arr(t, lambda i: cell, d.kind, d, (x, x))
    return f


def np_full(n, v, dtype=None):
    n = np_shape_arg(n)
    if isinstance(n, tuple):
        raise Unsupported("np.full 2-D")
    t = z3.simplify(ti(n))
    d = NA.dtype_of(dtype)
    kind = NA.kind_of([v])
    if kind == "x":
        raise Unsupported("np.full")
    a = Arr(t, lambda i: NA.tocell(v, kind), kind, {"i": NA.INT64, "b": NA.BOOL, "f": NA.FLOAT, "o": NA.OBJ}[kind])
    if d is not None and d is not a.dtype:
        if d.kind == "o":
            a.kind, a.dtype = "o", d
            a.f = lambda i: v
            return a
        return NA.astype(a, d)
    return a


def np_array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, Arr):
        if x.is_series:
            y = x.copy()
            y.is_series, y.index = False, None
            x = y
        if dtype is None:
            y = x.copy()
            return y
        return NA.astype(x, dtype)
    if isinstance(x, Mat):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, (VList, VTuple, tuple, list)):
        return NA.from_seq(to_seq(x), dtype)
    if isinstance(x, BitArr):
        return NA.from_seq(x.as_seq(), dtype)
    if hasattr(type(x), "_vc_array"):
        return x._vc_array(dtype)
    raise Unsupported(f"np.array({type(x).__name__})")


def np_asarray(x, dtype=None):
    if isinstance(x, Arr) and not x.is_series and (dtype is None or NA.dtype_of(dtype) is x.dtype):
        return x
    return np_array(x, dtype)


def np_fromiter(x, dtype=None, count=-1):
    if isinstance(x, str):
        x = SymText([x])
    if isinstance(x, SymText):
        b = x.bits()
        if b is None:
            raise Unsupported("np.fromiter of a text")
        n, f = b
        d = NA.dtype_of(dtype)
        return NA.astype(Arr(n, lambda i: b2i(f(i)), "i", NA.INT64, (0, 1)), d)
    return NA.from_seq(to_seq(x), dtype)


def np_diff(a):
    if not isinstance(a, Arr):
        raise Unsupported("np.diff")
    f, k = a.f, a.kind
    n = z3.simplify(z3.If(a.n > 0, a.n - 1, 0))
    if cxx().entails(a.n >= 1, 800):
        n = z3.simplify(a.n - 1)
    if k == "b":
        return Arr(n, lambda i: z3.Xor(f(i + 1), f(i)), "b", NA.BOOL, (0, 1))
    if k == "f":
        return Arr(n, lambda i: f_add(f(i + 1), f_neg(f(i))), "f", a.dtype)
    r = NA.interval(a.rng, a.rng, "-")
    d = a.dtype
    g = lambda i: f(i + 1) - f(i)
    if d.lo is not None and (r is None or r[0] < d.lo or r[1] > d.hi):
        M = d.hi - d.lo + 1
        return Arr(n, lambda i: (g(i) - d.lo) % M + d.lo, "i", d, (d.lo, d.hi))
    return Arr(n, g, "i", d, r)


def np_where(cond, *ab):
    if not isinstance(cond, Arr):
        raise Unsupported("np.where")
    f, k = cond.f, cond.kind
    P = lambda i: s_(NA.truth(f(i), k))
    if not ab:
        n = cond.n
        if not cxx().entails(n >= 0, 500):
            n = z3.simplify(z3.If(n > 0, n, 0))
        e = get_enum(n, P)
        return (Arr(e.m, lambda j: e.pos(j), "i", NA.INT64),)
    a, b = ab

    def cell(x):
        if isinstance(x, Arr):
            n, ia, ib = NA.common_len(cond, x)
            return (lambda i: x_f(ib(i))), x.kind, NA.rngs(x)
        if isinstance(x, (str, Str)):
            return (lambda i: x), "o", None
        s = NA._scalar(x)
        if s is None:
            if x is None:
                return (lambda i: None), "o", None
            raise Unsupported("np.where value")
        return s[0], s[1], s[3]
    outs = []
    for x in (a, b):
        if isinstance(x, Arr):
            x_f = x.f
            outs.append(((lambda i, g=x.f: g(i)), x.kind, NA.rngs(x)))
            NA.common_len(cond, x)
        else:
            outs.append(cell(x))
    kinds = {outs[0][1], outs[1][1]}
    if "o" in kinds and len(kinds) > 1:
        raise Unsupported("np.where with mixed types")
    kind = "o" if "o" in kinds else "f" if "f" in kinds else "i" if "i" in kinds else "b"
    g = lambda i: NA.cell_ite(P(i), lambda: NA.cast_cell(outs[0][0](i), outs[0][1], kind),
                              lambda: NA.cast_cell(outs[1][0](i), outs[1][1], kind))
    rr = [o[2] for o in outs]
    rng = None if any(r is None for r in rr) else (min(r[0] for r in rr), max(r[1] for r in rr))
    out = Arr(cond.n, g, kind, {"i": NA.INT64, "b": NA.BOOL, "f": NA.FLOAT, "o": NA.OBJ}[kind], rng)
    return out


def np_vstack(x):
    c = cxx()
    # the real call may run out of memory: the code has a path for that
    if c.memo.get("vstack_may_fail") and not c.binders:
        if c.choose(2) == 1:
            raise deliberate(MemoryError("Unable to allocate"))
    if isinstance(x, VList) and not x.conc:
        return NA.vstack_seq(x.seq)
    return NA.mat_rows(list(conc_iter(x)))


def np_isnan(x):
    if isinstance(x, Arr):
        if x.kind == "o":
            raise deliberate(TypeError("ufunc 'isnan' not supported for the input types"))
        f, k = x.f, x.kind
        out = Arr(x.n, lambda i: NA.cast_cell(f(i), k, "f").nan, "b", NA.BOOL, (0, 1))
        NA._ser(out, x if x.is_series else None)
        return out
    if isinstance(x, (str, Str, SymText)) or x is None:
        raise deliberate(TypeError("ufunc 'isnan' not supported for the input types"))
    if is_num(x):
        return mkbool(fv(x).nan)
    raise Unsupported("isnan")


def np_isfinite(x):
    if isinstance(x, Arr):
        if x.kind == "o":
            raise deliberate(TypeError("ufunc 'isfinite' not supported for the input types"))
        f, k = x.f, x.kind
        out = Arr(x.n, lambda i: NA.cast_cell(f(i), k, "f").fin, "b", NA.BOOL, (0, 1))
        NA._ser(out, x if x.is_series else None)
        return out
    if isinstance(x, Mat):
        return Mat(x.n, x.m, lambda i, j: NA.cast_cell(x.f(i, j), x.kind, "f").fin, "b", NA.BOOL, (0, 1))
    if is_num(x):
        return mkbool(fv(x).fin)
    raise Unsupported("isfinite")


def np_isinf(x):
    if isinstance(x, Arr):
        f, k = x.f, x.kind
        return Arr(x.n, lambda i: (lambda v: z3.Or(v.pinf, v.ninf))(NA.cast_cell(f(i), k, "f")), "b", NA.BOOL, (0, 1))
    if is_num(x):
        v = fv(x)
        return mkbool(z3.Or(v.pinf, v.ninf))
    raise Unsupported("isinf")


def np_save(f, a, allow_pickle=True):
    if not isinstance(f, VFile) or not isinstance(a, Arr):
        raise Unsupported("np.save")
    cxx().fs.contents.append((f.p, a.copy()))


def np_load(f, *a, **k):
    if not isinstance(f, VFile):
        raise Unsupported("np.load")
    return cxx().fs.read(f.p).copy()


def np_arg1(fn):
    def g(x, *a, **k):
        if a or any(v is not None for v in k.values()):
            raise Unsupported("axis")
        if isinstance(x, VList):
            x = NA.from_seq(x.as_seq())
        if not isinstance(x, Arr):
            raise Unsupported("array expected")
        return fn(x)
    return g


def np_sqrt(x):
    if hasattr(type(x), "vc_sqrt"):
        return x.vc_sqrt()
    if isinstance(x, Arr):
        f, k = x.f, x.kind
        return Arr(x.n, lambda i: NA.fsqrt(NA.cast_cell(f(i), k, "f")), "f", NA.FLOAT)
    return NA.fsqrt(x)


def np_logical(g):
    def f(a, b, out=None):
        if isinstance(a, Arr) and isinstance(b, Arr):
            r = NA.bitop(NA.astype(a, NA.BOOL), NA.astype(b, NA.BOOL), g, "logical")
            return r
        raise Unsupported("logical ufunc")
    return f


def np_array_equal(a, b):
    a, b = np_asarray(a), np_asarray(b)
    return mkbool(z3.And(a.n == b.n, NA.FA(z3.IntVal(0), a.n, lambda i: tbool(veq(wrap(a.f(i)), wrap(b.f(i)))))))


def np_abs(x):
    return abs(x)


def np_sign(x):
    if is_num(x):
        v = fv(x)
        return FV(v.nan, F_, F_, z3.If(z3.Or(v.pinf, z3.And(v.fin, v.val > 0)), z3.RealVal(1),
                                       z3.If(z3.Or(v.ninf, z3.And(v.fin, v.val < 0)), z3.RealVal(-1), z3.RealVal(0))))
    raise Unsupported("sign")


class Errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"no contract for {self.__name__}.{k}")


np = Mod("numpy")
np.ndarray = ndarray_cls
import types as _types
np.core = _types.SimpleNamespace(_exceptions=_types.SimpleNamespace(_ArrayMemoryError=type("_ArrayMemoryError", (MemoryError,), {})))
np.ubyte = np.uint8 = NA.UBYTE
np.byte = np.int8 = NA.BYTE
np.int32, np.int64, np.bool_, np.float64, np.float_, np.object_ = NA.INT32, NA.INT64, NA.BOOL, NA.FLOAT, NA.FLOAT, NA.OBJ
np.float32 = NA.FLOAT32
np.nan = np.NaN = np.NAN = float("nan")
np.inf = np.Inf = float("inf")
np.zeros, np.ones = filled(0, NA.FLOAT), filled(1, NA.FLOAT)
np.full = np_full
np.array, np.asarray, np.fromiter = np_array, np_asarray, np_fromiter
np.diff, np.where, np.vstack = np_diff, np_where, np_vstack
np.nonzero = lambda a: np_where(a)
np.flatnonzero = lambda a: np_where(a)[0]
np.count_nonzero = NA.count_nonzero
np.isnan, np.isfinite, np.isinf = np_isnan, np_isfinite, np_isinf
np.save, np.load = np_save, np_load
np.mean, np.nanmean, np.sum, np.nansum = np_arg1(lambda a: NA.nanmean(a) if a.is_series else NA.mean(a)), np_arg1(NA.nanmean), np_arg1(lambda a: a.sum()), np_arg1(lambda a: NA.fsum(NA.dropnan(a)))
np.argsort = lambda a, **k: a.argsort(**k)
np.sqrt, np.abs, np.absolute, np.sign = np_sqrt, np_abs, np_abs, np_sign
np.all = np_arg1(lambda a: NA.arr_all(a))
np.any = np_arg1(lambda a: NA.arr_any(a))
np.logical_and = np_logical(lambda x, y: z3.And(x, y))
np.logical_or = np_logical(lambda x, y: z3.Or(x, y))
np.logical_xor = np_logical(lambda x, y: z3.Xor(x, y))
np.logical_not = lambda a: ~NA.astype(a, NA.BOOL)
np.invert = lambda a: ~a
np.array_equal = np_array_equal
np.errstate = Errstate
np.zeros_like = lambda a, dtype=None: filled(0, NA.FLOAT)(mkint(a.n), dtype or a.dtype)
np.ones_like = lambda a, dtype=None: filled(1, NA.FLOAT)(mkint(a.n), dtype or a.dtype)
np.copy = lambda a: a.copy()
np.greater_equal = lambda a, b: a >= b
np.less_equal = lambda a, b: a <= b
np.greater = lambda a, b: a > b
np.less = lambda a, b: a < b
np.equal = lambda a, b: a == b
np.not_equal = lambda a, b: a != b
np.bitwise_and = lambda a, b: a & b
np.bitwise_or = lambda a, b: a | b


class np_integer_cls:
    _vc_instance = staticmethod(lambda x: isinstance(x, SInt) and x.np)


class np_floating_cls:
    _vc_instance = staticmethod(lambda x: isinstance(x, FV))


np.integer, np.floating, np.number = np_integer_cls, np_floating_cls, Number_cls


def np_issubdtype(a, b):
    if b is np_integer_cls:
        if a is vint or isinstance(a, NA.DType) and a.kind == "i":
            return True
        if a in (vfloat, vbool, vstr, vlist, vtuple, vset, vdict) or isinstance(a, NA.DType):
            return False
    raise Unsupported("np.issubdtype")


np.issubdtype = np_issubdtype


def np_std(x, axis=None, ddof=0):
    if axis is not None or not isinstance(x, Arr):
        raise Unsupported("np.std")
    return NA.nan_stat(x, lambda a: NA.std(a, ddof)) if x.is_series else NA.std(x, ddof)


def np_extract(cond, a):
    if not isinstance(cond, Arr) or not isinstance(a, Arr):
        raise Unsupported("np.extract")
    c = cxx()
    if not cond.n.eq(a.n) and not c.entails(cond.n == a.n):
        raise Unsupported("np.extract with different lengths")
    b = plain_array(a)
    k = plain_array(cond)
    if k.kind == "i" and is01(k):
        k_ = k
        k = Arr(k.n, lambda i: bitof(k_, i), "b", NA.BOOL, (0, 1))
    elif k.kind != "b":
        f, kd = k.f, k.kind
        k = Arr(k.n, lambda i: s_(NA.truth(f(i), kd)), "b", NA.BOOL, (0, 1))
    return NA.mask(b, k)


def plain_array(a):
    if not a.is_series:
        return a
    b = a.copy()
    b.is_series, b.index = False, None
    return b


def np_median(a, axis=None):
    """a number determined by the values (their order statistics); nan if one is missing"""
    if axis is not None or not isinstance(a, Arr) or a.kind == "o":
        raise Unsupported("np.median")
    c = cxx()
    N, P, g = NA.src(a)
    k = a.kind
    if c.small is not None and z3.is_int_value(z3.simplify(a.n)) and a.filt is None:
        return median_small(a)
    cell = lambda i: NA.cast_cell(g(i), k, "f")
    i = z3.Int(c.name("gs"))
    for (n2, P2, cell2, m) in c.memo.setdefault("medians", []):
        if c.entails(z3.And(N == n2, z3.Implies(z3.And(0 <= i, i < N), z3.And(P(i) == P2(i), z3.Implies(P(i), f_same(cell(i), cell2(i)))))), 1500):
            return m
    anynan = NA.exists(N, lambda i: z3.And(P(i), cell(i).nan))
    p, q, v = c.bool("med_pinf"), c.bool("med_ninf"), c.real("med")
    empty = a.n <= 0
    nan = s_(z3.Or(anynan, empty))
    m = FV(nan, s_(z3.And(p, z3.Not(nan))), s_(z3.And(q, z3.Not(p), z3.Not(nan))), v)
    if not c.entails(z3.Implies(z3.And(0 <= i, i < N, P(i)), z3.Or(cell(i).fin, cell(i).nan)), 800):
        pass
    else:
        c.axiom(z3.And(z3.Not(p), z3.Not(q)))
    c.memo["medians"].append((N, P, cell, m))
    return m


def median_small(a):
    n = z3.simplify(a.n).as_long()
    if n == 0:
        return float("nan")
    xs = [NA.cast_cell(a.f(z3.IntVal(i)), a.kind, "f") for i in range(n)]
    if not all(z3.is_false(z3.simplify(x.pinf)) and z3.is_false(z3.simplify(x.ninf)) for x in xs):
        raise Unsupported("median with infinities")
    v = [x.val for x in xs]
    for i in range(n):                      # sorting network
        for j in range(n - 1 - i):
            lo, hi = z3.If(v[j] <= v[j + 1], v[j], v[j + 1]), z3.If(v[j] <= v[j + 1], v[j + 1], v[j])
            v[j], v[j + 1] = lo, hi
    m = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    return FV(s_(z3.Or(*[x.nan for x in xs])), F_, F_, s_(m))


np.extract, np.median = np_extract, np_median


def np_nanstd(x, axis=None, ddof=0):
    if axis is not None:
        raise Unsupported("axis")
    return NA.nan_stat(x, lambda a: NA.std(a, ddof))


np.std, np.nanstd = np_std, np_nanstd
np.var = lambda x, axis=None, ddof=0: NA.var(x, ddof) if axis is None else _u("axis")
np.nanvar = lambda x, axis=None, ddof=0: NA.nan_stat(x, lambda a: NA.var(a, ddof)) if axis is None else _u("axis")
core_ns = types.SimpleNamespace(_exceptions=types.SimpleNamespace(_ArrayMemoryError=MemoryError))
np.core = core_ns


# ------------------------------------------------------------------------------------------------ other modules
class _Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


logging_m = Mod("logging")
logging_m.getLogger = lambda *a: _Log()

time_m = Mod("time")


def v_time():
    c = cxx()
    if c.binders:
        return 0.0
    return freal(c.real("time"))


time_m.time = v_time

random_m = Mod("random")


def v_randint(a, b):
    c = cxx()
    x = c.int("rand")
    c.assume(z3.And(ti(a) <= x, x <= ti(b)))
    return SInt(x)


random_m.randint = v_randint

psutil_m = Mod("psutil")


def v_vm():
    c = cxx()
    if c.binders:
        raise Unsupported("psutil under a binder")
    x = c.int("avail")
    c.assume(x >= 0)
    return types.SimpleNamespace(available=SInt(x))


psutil_m.virtual_memory = v_vm

sys_m = Mod("sys")


def v_getsizeof(x):
    c = cxx()
    if c.binders:
        return 0
    v = c.int("sizeof")
    c.assume(v >= 0)
    return SInt(v)


sys_m.getsizeof = v_getsizeof
sys_m.maxsize = 2 ** 63 - 1
sys_m.float_info = __import__("sys").float_info

tempfile_m = Mod("tempfile")
tempfile_m.gettempdir = lambda: "TMPDIR"

pathlib_m = Mod("pathlib")
pathlib_m.Path = Path_cls

bitarray_m = Mod("bitarray")
bitarray_m.bitarray = bitarray_cls

ast_m = Mod("ast")


def v_literal_eval(x):
    if isinstance(x, str):
        import ast
        try:
            r = ast.literal_eval(x)
        except (ValueError, TypeError, SyntaxError, MemoryError, RecursionError) as e:
            raise deliberate(e)
        return VList(r) if isinstance(r, list) else r
    if isinstance(x, SymText):
        ps = x.pieces
        if len(ps) == 1 and isinstance(ps[0], Ints) and ps[0].sep.strip() == ",":
            s = ps[0].seq
            if cxx().fork(s.n < 2):
                raise Unsupported("literal of fewer than two numbers")
            return mktuple(s)
        if len(ps) == 1 and isinstance(ps[0], Num):
            return mkint(ps[0].t)
        if len(ps) == 3 and ps[0] == "[" and ps[2] == "]" and isinstance(ps[1], Ints) and ps[1].sep.strip() == ",":
            return VList(None, ps[1].seq)
        import tablefake
        return tablefake.literal(x)
    raise Unsupported("literal_eval")


ast_m.literal_eval = v_literal_eval

copy_m = Mod("copy")


def v_copy(x):
    if isinstance(x, (Arr, BitArr, VList)):
        return x.copy()
    if x is None or isinstance(x, (str, int, float, bool, tuple, SymText, BitInt, SInt, FV, SymBool, VPath, Str, VTuple, type, Uop)):
        return x
    if isinstance(x, dict):
        return type(x)(x)
    if isinstance(x, VSet):
        return v_set(x)
    if isinstance(x, Vc):
        m = getattr(type(x), "copy", None)
        if m:
            return x.copy()
        raise Unsupported("copy")
    m = getattr(type(x), "__copy__", None)
    if m is not None:
        return m(x)
    y = object.__new__(type(x))
    for k, v in object.__getattribute__(x, "__dict__").items():
        object.__setattr__(y, k, v)
    return y


def v_deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, VList):
        if not x.conc:
            raise Unsupported("deepcopy of a symbolic list")
        r = VList([v_deepcopy(y, memo) for y in x.items])
    elif isinstance(x, tuple):
        r = tuple(v_deepcopy(y, memo) for y in x)
    elif isinstance(x, dict):
        r = type(x)((k, v_deepcopy(v, memo)) for k, v in x.items())
    elif isinstance(x, Vc) or x is None or isinstance(x, (str, int, float, bool, type)) or callable(x):
        r = v_copy(x) if isinstance(x, Vc) else x
    else:
        if hasattr(type(x), "__deepcopy__"):
            r = x.__deepcopy__(memo)
        else:
            r = object.__new__(type(x))
            memo[id(x)] = r
            for k, v in object.__getattribute__(x, "__dict__").items():
                if isinstance(v, Lazy):
                    v = getattr(x, k)
                object.__setattr__(r, k, v_deepcopy(v, memo))
    memo[id(x)] = r
    return r


copy_m.copy, copy_m.deepcopy = v_copy, v_deepcopy

numbers_m = Mod("numbers")
numbers_m.Number = numbers_m.Real = Number_cls

warnings_m = Mod("warnings")
warnings_m.warn = lambda *a, **k: None
warnings_m.catch_warnings = Errstate
warnings_m.simplefilter = lambda *a, **k: None
warnings_m.filterwarnings = lambda *a, **k: None

math_m = Mod("math")
math_m.isnan = lambda x: mkbool(fv(x).nan) if is_num(x) else _u("isnan")
math_m.isinf = np_isinf
math_m.isfinite = np_isfinite
math_m.inf, math_m.nan = float("inf"), float("nan")
math_m.sqrt = lambda x: NA.fsqrt(x)
_exp, _log = z3.Function("exp", R, R), z3.Function("ln", R, R)


def m_exp(x):
    x = fv(x)
    c = cxx()
    t = _exp(x.val)
    if not c.binders:
        c.axiom(t > 0)
    return FV(x.nan, x.pinf, F_, s_(z3.If(x.ninf, z3.RealVal(0), t)))


def m_log(x, *base):
    if base:
        raise Unsupported("logarithm in another base")
    x = fv(x)
    if cxx().fork(z3.Or(x.ninf, z3.And(x.fin, x.val <= 0))):
        raise deliberate(ValueError("math domain error"))
    return FV(x.nan, x.pinf, F_, _log(x.val))


def m_sqrt(x):
    x = fv(x)
    if cxx().fork(z3.Or(x.ninf, z3.And(x.fin, x.val < 0))):
        raise deliberate(ValueError("math domain error"))
    return NA.fsqrt(x)


math_m.exp, math_m.log, math_m.sqrt = m_exp, m_log, m_sqrt


def it_chain(*xs):
    if all(is_conc_iter(x) for x in xs):
        import itertools
        return itertools.chain(*[conc_iter(x) for x in xs])
    s = Seq.of([])
    for x in xs:
        s = s.concat(to_seq(x))
    return VList(None, s)


import itertools as _it
itertools_m = Mod("itertools")
for _k in dir(_it):
    if not _k.startswith("_"):
        setattr(itertools_m, _k, getattr(_it, _k))
itertools_m.chain = it_chain


def opaque_module(nm):
    m = Mod(nm)
    top = m
    return m


import pdfake
MODULES = {"pandas": pdfake.make(Mod), "numpy": np, "logging": logging_m, "time": time_m, "random": random_m, "psutil": psutil_m, "sys": sys_m,
           "tempfile": tempfile_m, "pathlib": pathlib_m, "bitarray": bitarray_m, "ast": ast_m, "copy": copy_m, "numbers": numbers_m,
           "warnings": warnings_m, "math": math_m, "itertools": itertools_m}
import classfake, collections as _coll
coll_m = Mod("collections")
for _k in ("OrderedDict", "defaultdict", "namedtuple", "deque", "abc"):
    setattr(coll_m, _k, getattr(_coll, _k))
coll_m.Counter = classfake.Counter
MODULES["collections"] = coll_m
REAL = {"abc", "typing", "inspect", "collections.abc", "functools", "json", "enum", "dataclasses", "operator", "__future__"}
ABSENT = {"transparentpath"}

NA.TYPEMAP.update({vint: NA.INT64, vfloat: NA.FLOAT, vbool: NA.BOOL, vstr: NA.STR, int: NA.INT64, float: NA.FLOAT, bool: NA.BOOL,
                   object: NA.OBJ, str: NA.STR})

BUILTINS = {
    "int": vint, "float": vfloat, "bool": vbool, "str": vstr, "list": vlist, "tuple": vtuple, "set": vset, "frozenset": vset,
    "dict": vdict, "len": v_len, "isinstance": v_isinstance, "type": v_type, "bin": v_bin, "any": v_any, "all": v_all, "sum": v_sum,
    "min": v_min, "max": v_max, "sorted": v_sorted, "zip": v_zip, "enumerate": v_enumerate, "range": v_range,
    "reversed": v_reversed, "map": v_map, "filter": v_filter, "abs": v_abs, "round": v_round, "hash": v_hash, "iter": v_iter,
    "next": v_next, "print": v_print, "open": v_open, "getattr": v_getattr,
    "__vc_list__": vc_list, "__vc_set__": vc_set_disp, "__vc_dict__": vc_dict, "__vc_comp__": loops.vc_comp, "__vc_fstr__": vc_fstr, "__vc_zipstar__": v_zipstar,
    "__vc_in__": vc_in, "__vc_meth__": vc_meth, "__vc_mark__": vc_mark, "__vc_exc__": vc_exc, "__vc_for__": loops.vc_for,
    "__vc_while__": loops.vc_while, "__vc_unsupported__": vc_unsupported,
}
