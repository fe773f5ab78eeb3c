"""Contracts of ruleskit/activation.py.

Ghost state of an Activation object: a vector V (a Bool function of the position) and its length n >= 1.
Class invariant I(self, V, n): the stored data represent V in the stored format, and each cached statistic is either absent or
the value determined by V (see inv()).  Every constructor establishes I for the vector it was given; every reader returns the
value determined by V and preserves I; every operation builds an object with I for the pointwise combination."""
import z3
from core import Cx, Unsupported, PathEnd, touch
from values import *
import nparr as NA
from nparr import FA, Mat
import fakes
from fakes import BitArr, VPath, PathS, Lazy, FS, apath, adir, amatch
import loader

FIELDS = {"_entropy", "_rel_entropy", "_nones", "_coverage", "_length", "data", "optimize", "to_file", "data_format", "loaded", "lasy"}
FORMATS = ("raw", "bitarray", "integer", "compressed_str", "compressed_array", "file", "lazy")


class Ghost:
    """a 0/1 vector: length n, V(i)"""

    def __init__(self, c, n=None, V=None, label="V", lemmas=True):
        self.c = c
        self.n = n if n is not None else length(c)
        if V is None:
            f = c.fun(label, I, B)
            V = lambda i: f(i)
        self.V = V
        self._ones = self._chg = None

    @property
    def ones(self):
        if self._ones is None:
            self._ones = get_enum(self.n, lambda i: s_(self.V(i)))
        return self._ones

    @property
    def chg(self):
        if self._chg is None:
            e = get_enum(z3.simplify(self.n - 1), lambda i: s_(self.V(i) != self.V(z3.simplify(i + 1))))
            self._chg = e
            self.seg_lemma(e)
        return self._chg

    def alt(self, k):
        """value after k changes"""
        return z3.Xor(self.V(z3.IntVal(0)), k % 2 == 1)

    def seg_lemma(self, e):
        """V(i) is the first value flipped as often as there are changes before i (by induction on i)"""
        c = self.c
        if getattr(e, "expl", False):
            return
        q = lambda i: z3.Implies(z3.And(0 <= i, i < self.n), self.V(i) == self.alt(e.rank(i)))
        i = z3.Int(c.name("ind"))
        # base and step are discharged by the solver, then the conclusion is used
        if not c.memo.get(("seg", id(e))):
            c.memo[("seg", id(e))] = e
            base = c.entails(q(z3.IntVal(0)))
            step = c.entails(z3.Implies(z3.And(0 <= i, i + 1 < self.n, q(i)), q(i + 1)))
            c.results.append((c.prefix_name + "lemma: a vector is determined by its first value and change positions (induction)",
                              "proved" if base and step else "undecided", "z3", 0.0, ""))
            if base and step:
                j = z3.Int("seg_j")
                pats = [e.rank(j), touch(j)]
                c.axiom(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.V(j) == self.alt(e.rank(j))),
                                  patterns=pats))

    def rle(self):
        """[V0] + positions where the value changes + [n]"""
        e = self.chg
        m = z3.simplify(e.m + 2)
        V, n = self.V, self.n
        if not getattr(e, "expl", False) and not self.c.memo.get(("rle", id(e))):
            self.c.memo[("rle", id(e))] = e
            self.c.axiom(e.pos(e.m) == n - 1)       # instance of the enumeration's totality

        def f(k):
            k = z3.simplify(k)
            if z3.is_int_value(k) and k.as_long() == 0:
                return mkint(b2i(V(z3.IntVal(0))))
            return mkint(z3.If(k == 0, b2i(V(z3.IntVal(0))), z3.simplify(e.pos(z3.simplify(k - 1)) + 1)))
        return Seq(m, f)

    @property
    def entropy(self):
        return self.chg.m + 2

    # representations
    def raw(self, dtype=NA.UBYTE):
        V = self.V
        if dtype.kind == "b":
            return Arr(self.n, lambda i: V(i), "b", NA.BOOL, (0, 1))
        if dtype.kind == "f":
            return Arr(self.n, lambda i: freal(z3.If(V(i), z3.RealVal(1), z3.RealVal(0))), "f", dtype, (0, 1))
        return Arr(self.n, lambda i: b2i(V(i)), "i", dtype, (0, 1))

    def bits(self):
        return BitArr(self.n, self.V)

    def integer(self):
        return BitInt(self.n, self.V)

    def text(self):
        return SymText([Ints(self.rle(), ",")])

    def bittext(self):
        return SymText([Bits(self.n, self.V)])

    def carr(self, dtype=NA.INT64):
        s = self.rle()
        return Arr(s.n, lambda i: ti(s.f(i)), "i", dtype)


def length(c, base="n", lo=1):
    if base in c.sizes:
        return z3.IntVal(c.sizes[base])
    if c.small is not None:
        return z3.IntVal(lo + c.choose(c.small - lo + 1))
    n = c.int(base)
    c.assume(n >= lo)
    return n


# ------------------------------------------------------------------------------------------------ predicates on results
def same_arr(a, g):
    """the array a holds the vector g (as numbers 0/1), as z3 Bool"""
    if not isinstance(a, Arr):
        raise Unsupported(f"array expected, got {type(a).__name__}")
    if a.kind == "i":
        cell = lambda i: a.f(i) == b2i(g.V(i))
        if is01(a):
            cell = lambda i: bitof(a, i) == g.V(i)
    elif a.kind == "b":
        cell = lambda i: a.f(i) == g.V(i)
    elif a.kind == "f":
        cell = lambda i: z3.And(a.f(i).fin, a.f(i).val == z3.If(g.V(i), z3.RealVal(1), z3.RealVal(0)))
    else:
        raise Unsupported("array of objects")
    return z3.And(a.n == g.n, FA(z3.IntVal(0), g.n, cell))


def same_bits(b, g):
    if not isinstance(b, BitArr):
        raise Unsupported(f"bitarray expected, got {type(b).__name__}")
    return z3.And(b.n == g.n, FA(z3.IntVal(0), g.n, lambda i: b.f(i) == g.V(i)))


def same_int(x, g):
    if isinstance(x, BitInt):
        return x.same(g.n, g.V)
    if isinstance(x, int) and x == 0:
        return FA(z3.IntVal(0), g.n, lambda i: z3.Not(g.V(i)))
    raise Unsupported(f"digit integer expected, got {type(x).__name__}")


def same_rle(s, g):
    r = g.rle()
    return z3.And(s.n == r.n, FA(z3.IntVal(0), r.n, lambda i: ti(s.f(i)) == ti(r.f(i))))


def same_text(t, g):
    if isinstance(t, SymText) and len(t.pieces) == 1 and isinstance(t.pieces[0], Ints) and t.pieces[0].sep == ",":
        return same_rle(t.pieces[0].seq, g)
    if isinstance(t, str) or isinstance(t, SymText):
        # concrete skeleton: numbers separated by commas
        ps = [t] if isinstance(t, str) else t.pieces
        nums, cur = [], []
        for p in ps:
            if isinstance(p, str):
                for k, part in enumerate(p.split(",")):
                    if k:
                        nums.append(cur)
                        cur = []
                    if part:
                        cur.append(part)
            else:
                cur.append(p)
        nums.append(cur)
        out = []
        for x in nums:
            if len(x) != 1:
                raise Unsupported("compressed text")
            x = x[0]
            if isinstance(x, str):
                out.append(int(x))
            elif isinstance(x, Num):
                out.append(mkint(x.t))
            else:
                raise Unsupported("compressed text")
        return same_rle(Seq.of(out), g)
    raise Unsupported(f"compressed text expected, got {type(t).__name__}")


def same_carr(a, g):
    if not isinstance(a, Arr) or a.kind != "i":
        raise Unsupported("compressed array expected")
    return same_rle(Seq(a.n, lambda i: mkint(a.f(i))), g)


def same_num(x, t):
    """number x equals the real term t"""
    v = fv(x)
    return z3.And(v.fin, v.val == t)


# ------------------------------------------------------------------------------------------------ objects satisfying I
def world(c, flags=True, fs=True):
    w = loader.World(fakes)
    c.fs = FS(c)
    m = w.get("ruleskit.activation")
    A = m.Activation
    rule = c.memo.get("file_rule")
    if rule:
        rule(c, A)
    if flags:
        free_flags(c, A)
    c.world = w
    return w, A


def free_flags(c, A):
    for k in ("WILL_COMPARE", "FORCE_STAT", "STORE_RAW"):
        if k in A.__dict__:
            setattr(A, k, SymBool(c.bool(k)))
    if c.choose(2) == 1:
        A.DTYPE = fakes.ndarray_cls
    # number of processes: any positive integer
    n = c.int("NCPUS")
    c.assume(n >= 1)
    A.NCPUS = SInt(n)


def field_check(c, obj):
    d = object.__getattribute__(obj, "__dict__")
    for k in d:
        if k in FIELDS or k.startswith(("_time_", "_sizeof_", "_n_", "_vc_")):
            continue
        raise Unsupported(f"field {k} of Activation is unknown to the invariant")


def mk(c, A, g, fmt, label="a", fresh=False):
    """an arbitrary object satisfying I(obj, g) stored in format fmt"""
    obj = object.__new__(A)
    A._reset_data_related_attributes(obj)
    put = lambda k, v: object.__setattr__(obj, k, v)
    field_check(c, obj)
    for k in list(object.__getattribute__(obj, "__dict__")):
        if k.startswith(("_time_", "_sizeof_")):
            put(k, Lazy(lambda k=k: freal(c.real(k))))
        elif k.startswith("_n_"):
            put(k, Lazy(lambda k=k: SInt(c.int(k))))
    put("optimize", SymBool(c.bool("optimize")))
    put("to_file", SymBool(c.bool("to_file")))
    put("_vc_ghost", g)
    put("_vc_serial", c.next_serial())
    c.memo.setdefault("ghosts", []).append(g)
    if fmt == "any":
        state = []

        def pick():
            if not state:
                state.append(1)
                k = c.choose(len(ANY))
                store(c, A, obj, g, ANY[k], fresh)
        for k in ("data", "data_format", "loaded", "lasy", "_length", "_nones", "_coverage", "_entropy", "_rel_entropy"):
            put(k, Lazy(lambda k=k: (pick(), getattr(obj, k))[1]))
    else:
        store(c, A, obj, g, fmt, fresh)
    return obj


ANY = ("raw", "bitarray", "integer", "compressed_str", "compressed_array", "file", "lazy")


def store(c, A, obj, g, fmt, fresh=False):
    """fields of an arbitrary object that satisfies I(obj, g) and stores g in the format fmt"""
    put = lambda k, v: object.__setattr__(obj, k, v)
    put("lasy", False)
    put("loaded", True)
    put("_length", mkint(g.n))
    if fmt == "raw":
        put("data", g.raw())
    elif fmt == "bitarray":
        put("data", g.bits())
    elif fmt == "integer":
        put("data", g.integer())
    elif fmt == "compressed_str":
        put("data", g.text())
    elif fmt == "compressed_array":
        put("data", g.carr())
    elif fmt in ("file", "lazy"):
        k = c.int("num")
        p = VPath(apath(A.DEFAULT_TEMPDIR.t, k))
        put("data", p)
        if fresh:        # made by the operation under way: a file of its own that did not exist before
            c.assume(z3.Not(c.fs.exists(p.t)))
            c.assume(z3.Not(c.fs.ex0(p.t)))
            c.fs.updates.append((p.t, True))
        else:
            c.assume(c.fs.exists(p.t))
        c.fs.contents.append((p.t, g.raw()))
        for q in c.memo.setdefault("own_files", []):
            c.assume(q != p.t)
        c.memo["own_files"].append(p.t)
        if fmt == "lazy":
            put("loaded", False)
            put("lasy", True)
            put("_length", Lazy(lambda: None if c.choose(2) == 0 else mkint(g.n)))
        else:
            put("lasy", SymBool(c.bool("lasy")))
    put("data_format", "file" if fmt == "lazy" else fmt)
    must_n = fmt in ("raw", "bitarray")
    must_e = fmt.startswith("compressed")
    opt = lambda v, must=False: Lazy(lambda: v() if must or c.choose(2) == 0 else None)
    put("_nones", opt(lambda: mkint(g.ones.m), must_n))
    put("_coverage", opt(lambda: f_div(fv(SInt(g.ones.m)), fv(SInt(g.n)))))
    put("_entropy", opt(lambda: mkint(g.entropy), must_e))
    put("_rel_entropy", opt(lambda: f_div(fv(SInt(g.entropy)), fv(SInt(g.n))), must_e))


def inv(c, obj, g, what):
    """obligations: I(obj, g)"""
    d = object.__getattribute__(obj, "__dict__")
    get = lambda k: d.get(k)
    field_check(c, obj)
    fmt = get("data_format")
    if isinstance(fmt, Lazy):
        if isinstance(get("data"), Lazy):
            fmt = None
        else:
            obj.data_format
            d = object.__getattribute__(obj, "__dict__")
            fmt = get("data_format")
    if isinstance(fmt, Str):
        raise Unsupported("symbolic format")
    ok = True
    ln = get("_length")
    loaded = get("loaded")
    if not isinstance(ln, Lazy):
        if ln is None:
            ok &= c.prove(what + " [length known unless lazy]", fmt == "file" and get("lasy") is True)
        else:
            ok &= c.prove(what + " [length]", ti(ln) == g.n)
    data = get("data")
    if fmt is None and isinstance(data, Lazy):
        pass
    elif fmt == "raw":
        ok &= c.prove(what + " [raw data]", same_arr(data, g))
    elif fmt == "bitarray":
        ok &= c.prove(what + " [bitarray data]", same_bits(data, g))
    elif fmt == "integer":
        ok &= c.prove(what + " [integer data]", same_int(data, g))
    elif fmt == "compressed_str":
        ok &= c.prove(what + " [compressed text data]", same_text(data, g))
    elif fmt == "compressed_array":
        ok &= c.prove(what + " [compressed array data]", same_carr(data, g))
    elif fmt == "file":
        if not isinstance(data, VPath):
            raise Unsupported("file data")
        v = c.fs.read(data.t)
        ok &= c.prove(what + " [file content]", z3.And(same_arr(v, g), c.fs.exists(data.t)))
    else:
        raise Unsupported(f"data format {fmt!r}")
    x = get("_nones")
    if not isinstance(x, Lazy):
        if x is None:
            ok &= c.prove(what + " [ones known]", fmt is not None and fmt not in ("raw", "bitarray"))
        else:
            ok &= c.prove(what + " [ones]", ti(x) == g.ones.m)
    x = get("_coverage")
    if not isinstance(x, Lazy) and x is not None:
        ok &= c.prove(what + " [coverage]", same_num(x, z3.ToReal(g.ones.m) / z3.ToReal(g.n)))
    x = get("_entropy")
    if not isinstance(x, Lazy):
        if x is None:
            ok &= c.prove(what + " [entropy known]", fmt is not None and not fmt.startswith("compressed"))
        else:
            ok &= c.prove(what + " [entropy]", ti(x) == g.entropy)
    x = get("_rel_entropy")
    if not isinstance(x, Lazy) and x is not None:
        ok &= c.prove(what + " [relative entropy]", same_num(x, z3.ToReal(g.entropy) / z3.ToReal(g.n)))
    return ok


# ------------------------------------------------------------------------------------------------ loop invariants
def decode_invariants(g):
    """for the loop that expands a run-length compressed vector: after k run ends have been read, ..."""

    def prov(loop, env, k):
        if loop.kind != "for":
            return {}
        e = g.chg
        # p(k): the k-th run end; p(0) = 0
        p = e.pos(z3.simplify(k - 1)) + 1
        out = {}
        for nm, v in env.items():
            if nm not in loop.names:
                if not any(m[0] == "var" and m[1] == nm for m in loop.st["mods"]):
                    continue
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out[f"{nm} = value of the current run"] = ti(v) == b2i(g.alt(k))
                out[f"{nm} = start of the current run"] = ti(v) == p
            elif isinstance(v, Arr) and v.kind == "i" and is01(v):
                out[f"{nm} holds the vector before the current run, zero after"] = z3.And(
                    v.n == g.n, FA(z3.IntVal(0), g.n, lambda i: bitof(v, i) == z3.And(g.V(i), z3.Or(i < p, i == 0))))
                out[f"{nm} holds the vector before the current run"] = z3.And(
                    v.n == g.n, FA(z3.IntVal(0), g.n, lambda i: z3.Implies(i < p, bitof(v, i) == g.V(i))))
        return out
    return prov


READERS = {
    "raw": lambda c, r, g: same_arr(r, g),
    "as_bitarray": lambda c, r, g: same_bits(r, g),
    "as_integer": lambda c, r, g: same_int(r, g),
    "as_compressed_str": lambda c, r, g: same_text(r, g),
    "as_compressed": lambda c, r, g: same_text(r, g),
    "as_compressed_array": lambda c, r, g: same_carr(r, g),
}
STATS = {
    "length": lambda c, r, g: ti(r) == g.n,
    "nones": lambda c, r, g: ti(r) == g.ones.m,
    "coverage": lambda c, r, g: same_num(r, z3.ToReal(g.ones.m) / z3.ToReal(g.n)),
    "entropy": lambda c, r, g: ti(r) == g.entropy,
    "rel_entropy": lambda c, r, g: same_num(r, z3.ToReal(g.entropy) / z3.ToReal(g.n)),
    "ones": lambda c, r, g: ones_list(r, g),
}


def ones_list(r, g):
    s = to_seq(r)
    return z3.And(s.n == g.ones.m, FA(z3.IntVal(0), g.ones.m, lambda j: ti(s.f(j)) == g.ones.pos(j)))


def guarded(c, what, fn, allow=()):
    """runs code under test; an exception the real program could raise is a failed obligation"""
    try:
        return True, fn()
    except (Unsupported, PathEnd):
        raise
    except allow:
        raise PathEnd()
    except Exception as e:
        if fakes.semantic(e):
            c.prove(what + f" [raises nothing, here {type(e).__name__}: {str(e)[:80]}]", False)
            raise PathEnd()
        import traceback
        tb = traceback.format_exc().strip().splitlines()
        raise Unsupported(f"{type(e).__name__}: {e} | " + " / ".join(x.strip() for x in tb[-9:-1])[:700])


def reader_unit(fmt, attr, table, target=None):
    """target: only the executions where a lazy vector, once loaded, is stored in that format"""
    def unit(c):
        w, A = world(c)
        c.memo["target"] = target
        g = Ghost(c)
        g.chg
        obj = mk(c, A, g, fmt)
        c.invariants.append(decode_invariants(g))
        if fmt == "lazy":
            contract_init_any(c, A)
        ok, r = guarded(c, f"reading {attr} of a vector stored as {fmt}", lambda: getattr(obj, attr))
        c.reach("returned")
        if isinstance(table.get(attr), type(lambda: 0)):
            c.prove(f"{attr} of a vector stored as {fmt} is the vector's", table[attr](c, r, g))
        inv(c, obj, g, f"invariant after reading {attr} (stored as {fmt})")
    return unit


def ctor_unit(kind, after=None):
    """constructor, for each form the vector may be given in"""
    def unit(c):
        w, A = world(c)
        g = Ghost(c)
        c.invariants.append(decode_invariants(g))
        kw = {"optimize": SymBool(c.bool("optimize_arg")), "to_file": SymBool(c.bool("to_file_arg"))}
        if kind.startswith("array-"):
            x = g.raw({"ubyte": NA.UBYTE, "int": NA.INT64, "byte": NA.BYTE, "bool": NA.BOOL, "float": NA.FLOAT}[kind[6:]])
        elif kind == "bitarray":
            x = g.bits()
        elif kind == "integer":
            x = g.integer()
            kw["length"] = mkint(g.n)
        elif kind == "bit text":
            x = g.bittext()
        elif kind == "compressed text":
            x = g.text()
        elif kind == "compressed array":
            c.assume(g.n >= 2)
            x = g.carr(NA.INT32 if c.choose(2) else NA.INT64)
        elif kind in ("path", "lazy path"):
            k = c.int("num")
            x = VPath(apath(A.DEFAULT_TEMPDIR.t, k))
            c.fs.contents.append((x.t, g.raw()))
            c.assume(c.fs.exists(x.t))
            kw["lasy"] = kind == "lazy path"
        x0 = x.f if isinstance(x, (Arr, BitArr)) else None
        ok, obj = guarded(c, f"Activation({kind})", lambda: A(x, **kw))
        c.reach("constructed")
        inv(c, obj, g, f"Activation({kind}) establishes the invariant")
        if x0 is not None and x.f is not x0:
            c.prove(f"Activation({kind}) leaves its argument unchanged", same_arr(x, g) if isinstance(x, Arr) else same_bits(x, g))
        elif x0 is not None:
            c.prove(f"Activation({kind}) leaves its argument unchanged", True)
        if after:
            after(obj)
    return unit


CTORS = ("array-ubyte", "array-int", "array-byte", "array-bool", "array-float", "bitarray", "integer", "bit text", "compressed text",
         "compressed array", "path", "lazy path")


# ------------------------------------------------------------------------------------------------ callees by contract
def ghost_of(obj):
    return object.__getattribute__(obj, "_vc_ghost")


def hand_out(c, x, check):
    """a value handed out by a reader may be the stored one: whoever gets it must not change it"""
    c.memo.setdefault("handed", []).append((x, x.f, check))
    return x


def frozen(c, what):
    for x, f, check in c.memo.get("handed", ()):
        if x.f is not f:
            c.prove(what + " [vectors read from operands are not modified]", check())
    c.prove(what + " [vectors read from operands are not modified]", True)


def contract_readers(c, A):
    """raw, as_*, length, nones, ... as verified by reader_unit for every format"""
    def prop(name, fn):
        old = A.__dict__.get(name)
        if isinstance(old, property):
            setattr(A, name, property(fn, old.fset))
    prop("raw", lambda self: hand_out(c, ghost_of(self).raw(), lambda x=None: True) if False else raw_contract(c, ghost_of(self)))
    prop("as_bitarray", lambda self: bits_contract(c, ghost_of(self)))
    prop("as_integer", lambda self: ghost_of(self).integer())
    prop("length", lambda self: mkint(ghost_of(self).n))
    prop("nones", lambda self: mkint(ghost_of(self).ones.m))
    prop("coverage", lambda self: f_div(fv(SInt(ghost_of(self).ones.m)), fv(SInt(ghost_of(self).n))))
    prop("entropy", lambda self: mkint(ghost_of(self).entropy))
    prop("rel_entropy", lambda self: f_div(fv(SInt(ghost_of(self).entropy)), fv(SInt(ghost_of(self).n))))
    prop("ones", lambda self: VList(None, Seq(ghost_of(self).ones.m, lambda j: mkint(ghost_of(self).ones.pos(j)))))


def raw_contract(c, g):
    x = g.raw()
    return hand_out(c, x, lambda: same_arr(x, g))


def bits_contract(c, g):
    x = g.bits()
    return hand_out(c, x, lambda: same_bits(x, g))


def vector_of(c, x, length_arg=None):
    """the 0/1 vector an argument of the constructor stands for; None when it stands for none"""
    if isinstance(x, Arr):
        if x.kind == "f" and not is01(x):
            i = z3.Int(c.name("ind"))
            if not c.entails(z3.Implies(z3.And(0 <= i, i < x.n), z3.And(x.f(i).fin, z3.Or(x.f(i).val == 0, x.f(i).val == 1)))):
                raise Unsupported("constructor given floats")
            return Ghost(c, x.n, lambda i: s_(x.f(i).val == 1))
        if x.kind == "b":
            return Ghost(c, x.n, x.f)
        if x.kind == "f":
            return Ghost(c, x.n, lambda i: s_(x.f(i).val == 1))
        if x.kind == "i":
            if is01(x):
                return Ghost(c, x.n, lambda i: bitof(x, i))
            if c.fork(x.n > 0) and c.fork(x.f(z3.simplify(x.n - 1)) > 1):
                for g in c.memo.get("ghosts", ()):
                    if c.entails(same_carr(x, g)):
                        return g
                raise Unsupported("constructor given a compressed array the contract does not know")
            i = z3.Int(c.name("ind"))
            if c.entails(z3.Implies(z3.And(0 <= i, i < x.n), z3.Or(x.f(i) == 0, x.f(i) == 1))):
                return Ghost(c, x.n, lambda i: s_(x.f(i) == 1))
        raise Unsupported("constructor given an array that is not provably 0/1")
    if isinstance(x, BitArr):
        return Ghost(c, x.n, x.f)
    if isinstance(x, BitInt):
        if length_arg is None:
            if c.fork(z3.Bool("WILL_COMPARE_ctor")):
                raise Unsupported("integer without length")
            raise fakes.deliberate(ValueError("When giving an integer to Activation, you must also specify its length."))
        if c.entails(x.n == ti(length_arg)):
            return Ghost(c, x.n, x.f)
        raise Unsupported("integer of another length")
    if isinstance(x, (SymText, str)):
        for g in c.memo.get("ghosts", ()):
            try:
                if c.entails(same_text(x, g)):
                    return g
            except Unsupported:
                pass
        raise Unsupported("constructor given a text the contract does not know")
    if isinstance(x, VPath):
        v = c.fs.read(x.t)
        return vector_of(c, v)
    raise Unsupported(f"constructor given {type(x).__name__}")


def contract_ctor(c, A):
    """Activation(x, ...) as verified by ctor_unit: an object satisfying I for the vector x stands for"""
    def __init__(self, activation, optimize=True, length=None, to_file=True, lasy=False):
        g = vector_of(c, activation, length)
        if c.fork(g.n < 1):
            raise Unsupported("empty vector")
        tmp = mk(c, A, g, "any")
        for k, v in object.__getattribute__(tmp, "__dict__").items():
            object.__setattr__(self, k, v)
        relazy(c, A, self, g)
        object.__setattr__(self, "optimize", optimize)
        c.memo.setdefault("made", []).append(self)
    A.__init__ = __init__


def relazy(c, A, obj, g):
    state = []

    def pick():
        if not state:
            state.append(1)
            t = c.memo.get("target")
            store(c, A, obj, g, t if t else ANY[c.choose(len(ANY) - 1)], fresh=True)
    for k in ("data", "data_format", "loaded", "lasy", "_length", "_nones", "_coverage", "_entropy", "_rel_entropy"):
        object.__setattr__(obj, k, Lazy(lambda k=k: (pick(), getattr(obj, k))[1]))


def contract_init_any(c, A):
    """_init_with_any, where it exists: (re)initialises self for the vector given (same body as the constructor's)"""
    if "_init_with_any" not in A.__dict__:
        return
    params = A._init_with_any.__code__.co_varnames[:A._init_with_any.__code__.co_argcount]
    if "activation" not in params:
        return

    def _init_with_any(self, activation, length=None, to_file=True):
        g = vector_of(c, activation, length)
        relazy(c, A, self, g)
    A._init_with_any = _init_with_any


# ------------------------------------------------------------------------------------------------ operations
OPS = {
    "and": (lambda a, b: a & b, z3.And), "or": (lambda a, b: a | b, z3.Or), "xor": (lambda a, b: a ^ b, z3.Xor),
    "sum": (lambda a, b: a + b, z3.Or), "difference": (lambda a, b: a - b, lambda x, y: z3.And(x, z3.Not(y))),
}


def vec_is(r, n, f):
    """the object r represents the vector (n, f)"""
    g = ghost_of(r)
    return z3.And(g.n == n, FA(z3.IntVal(0), n, lambda i: g.V(i) == f(i)))


def is_act(c, A, r, what):
    if not isinstance(r, A):
        c.prove(what + " [is an activation]", False)
        raise PathEnd()


def contract_ops(c, A, names=("and", "or", "xor")):
    """the binary operators as verified by op_unit / op_len_unit"""
    for nm in names:
        def op(self, other, sem=OPS[nm][1]):
            if not isinstance(other, A):
                raise Unsupported("operand")
            g, h = ghost_of(self), ghost_of(other)
            if not g.n.eq(h.n) and not c.fork(g.n == h.n):
                raise fakes.deliberate(ValueError("Activations have different lengths."))
            r = mk(c, A, Ghost(c, g.n, lambda i: s_(sem(g.V(i), h.V(i)))), "any", fresh=True)
            return r
        setattr(A, f"__{nm}__", op)


def op_unit(op, same_object=False):
    code, sem = OPS[op]

    def unit(c):
        w, A = world(c)
        g1 = Ghost(c, label="V")
        g2 = g1 if same_object else Ghost(c, n=g1.n, label="W")
        a = mk(c, A, g1, "any")
        b = a if same_object else mk(c, A, g2, "any")
        contract_readers(c, A)
        contract_ctor(c, A)
        if op in ("sum", "difference"):
            contract_ops(c, A)
        ok, r = guarded(c, f"{op} of two vectors of equal length", lambda: code(a, b))
        c.reach("returned")
        is_act(c, A, r, f"{op} of two vectors")
        c.prove(f"{op} is taken position by position", vec_is(r, g1.n, lambda i: sem(g1.V(i), g2.V(i))))
        inv(c, a, g1, f"{op} leaves the first operand unchanged")
        inv(c, b, g2, f"{op} leaves the second operand unchanged")
        frozen(c, op)
    return unit


def op_len_unit(op):
    code, sem = OPS[op]

    def unit(c):
        w, A = world(c)
        g1, g2 = Ghost(c, label="V"), Ghost(c, label="W")
        c.assume(g1.n != g2.n)
        a, b = mk(c, A, g1, "any"), mk(c, A, g2, "any")
        contract_readers(c, A)
        contract_ctor(c, A)
        must_raise(c, f"{op} of vectors of different lengths", lambda: code(a, b))
        inv(c, a, g1, f"{op} leaves the first operand unchanged")
        inv(c, b, g2, f"{op} leaves the second operand unchanged")
    return unit


def must_raise(c, what, fn, kinds=(Exception,)):
    try:
        r = fn()
    except (Unsupported, PathEnd):
        raise
    except Exception as e:
        if fakes.semantic(e):
            c.reach("raised")
            return c.prove(what + " raises an error", isinstance(e, kinds))
        raise Unsupported(f"{type(e).__name__}: {e}")
    c.prove(what + " raises an error", False)
    raise PathEnd()


def symbolic_acts(c, A, k, n, f):
    """k activation vectors of length n; the u-th is j -> f(u, j)"""
    opt = c.fun("opt", I, B)
    fmt = c.fun("fmt", I, StrSort)

    def elem(u):
        o = object.__new__(A)
        put = lambda kk, v: object.__setattr__(o, kk, v)
        g = Ghost(c, n, lambda j: f(u, j))
        put("_vc_ghost", g)
        put("_vc_serial", 0)
        put("optimize", SymBool(opt(u)))
        put("data_format", Str(fmt(u)))

        def no(what):
            def fn():
                raise Unsupported(f"{what} of one among many activations")
            return fn
        for kk in ("data", "loaded", "lasy", "_length", "_nones", "_coverage", "_entropy", "_rel_entropy", "to_file"):
            put(kk, Lazy(no(kk)))
        return o
    return VList(None, Seq(k, elem))


def many_invariants(n, f):
    def prov(loop, env, k):
        out = {}
        for nm, v in env.items():
            if not (isinstance(v, Arr) and (v.kind == "b" or v.kind == "i" and is01(v))):
                continue
            if nm not in loop.names and not any(m[0] == "var" and m[1] == nm for m in loop.st["mods"]):
                continue
            b = (lambda j: v.f(j)) if v.kind == "b" else (lambda j: bitof(v, j))
            for lab, m in (("the vectors read so far and the first", k + 1), ("the vectors read so far", k)):
                out[f"{nm} = AND of {lab}"] = z3.And(v.n == n, FA(z3.IntVal(0), n, lambda j: b(j) == FA(z3.IntVal(0), m, lambda u: f(u, j))))
                out[f"{nm} = OR of {lab}"] = z3.And(v.n == n, FA(z3.IntVal(0), n, lambda j: b(j) == EX(z3.IntVal(0), m, lambda u: f(u, j))))
        return out
    return prov


def EX(lo, hi, p):
    return z3.Not(FA(lo, hi, lambda u: z3.Not(p(u))))


def multi_unit(op, asarray):
    def unit(c):
        w, A = world(c)
        n, k = length(c), length(c, "k")
        vv = c.fun("VV", I, I, B)
        f = lambda u, j: vv(u, j)
        acs = symbolic_acts(c, A, k, n, f)
        contract_readers(c, A)
        contract_ctor(c, A)
        c.memo["vstack_may_fail"] = True
        c.invariants.append(many_invariants(n, f))
        fn = getattr(A, "multi_logical_" + op)
        if asarray is None:
            ok, r = guarded_mem(c, f"{op} of many vectors", lambda: fn(acs))
        else:
            ok, r = guarded_mem(c, f"{op} of many vectors", lambda: fn(acs, asarray))
        c.reach("returned")
        AND = lambda j: FA(z3.IntVal(0), k, lambda u: f(u, j))
        OR = lambda j: EX(z3.IntVal(0), k, lambda u: f(u, j))
        want = {"and": AND, "or": OR, "xor": lambda j: z3.If(k == 1, f(z3.IntVal(0), j), z3.And(OR(j), z3.Not(AND(j))))}[op]
        if asarray:
            if not isinstance(r, Arr):
                c.prove(f"many-vector {op} as array gives an array", False)
                raise PathEnd()
            c.prove(f"many-vector {op} (as array) is taken position by position", same_arr(r, Ghost(c, n, want)))
        else:
            is_act(c, A, r, f"{op} of many vectors")
            c.prove(f"many-vector {op} is taken position by position", vec_is(r, n, want))
        frozen(c, f"many-vector {op}")
    return unit


def guarded_mem(c, what, fn):
    """as guarded, but running out of memory is allowed"""
    try:
        return True, fn()
    except (Unsupported, PathEnd):
        raise
    except MemoryError as e:
        raise PathEnd()
    except Exception as e:
        if fakes.semantic(e):
            c.prove(what + f" [raises nothing, here {type(e).__name__}: {str(e)[:80]}]", False)
            raise PathEnd()
        import traceback
        tb = traceback.format_exc().strip().splitlines()
        raise Unsupported(f"{type(e).__name__}: {e} | " + " / ".join(x.strip() for x in tb[-9:-1])[:700])


def contains_unit():
    def unit(c):
        w, A = world(c)
        g1 = Ghost(c, label="V")
        g2 = Ghost(c, n=g1.n, label="W")
        a, b = mk(c, A, g1, "any"), mk(c, A, g2, "any")
        contract_readers(c, A)
        contract_ctor(c, A)
        contract_ops(c, A)
        ok, r = guarded(c, "containment", lambda: a.__contains__(b))
        t = tbool(r)
        c.reach("returned")
        c.prove("contained exactly when every activated point is activated in the other",
                t == FA(z3.IntVal(0), g1.n, lambda i: z3.Implies(g2.V(i), g1.V(i))))
        inv(c, a, g1, "containment leaves the container unchanged")
        inv(c, b, g2, "containment leaves the contained unchanged")
        frozen(c, "containment")
    return unit


def corr_unit():
    def unit(c):
        w, A = world(c)
        g1 = Ghost(c, label="V")
        g2 = Ghost(c, n=g1.n, label="W")
        a, b = mk(c, A, g1, "any"), mk(c, A, g2, "any")
        contract_readers(c, A)
        contract_ctor(c, A)
        ok, r = guarded(c, "correlation", lambda: a.get_correlation(b))
        m = count(g1.n, lambda i: s_(g1.V(i) == g2.V(i)))
        c.reach("returned")
        c.prove("correlation is the fraction of positions where the vectors agree", same_num(r, z3.ToReal(m) / z3.ToReal(g1.n)))
        inv(c, a, g1, "correlation leaves the first vector unchanged")
        inv(c, b, g2, "correlation leaves the second vector unchanged")
        frozen(c, "correlation")
    return unit


def corr_len_unit():
    def unit(c):
        w, A = world(c)
        g1, g2 = Ghost(c, label="V"), Ghost(c, label="W")
        c.assume(g1.n != g2.n)
        a, b = mk(c, A, g1, "any"), mk(c, A, g2, "any")
        contract_readers(c, A)
        contract_ctor(c, A)
        must_raise(c, "correlation of vectors of different lengths", lambda: a.get_correlation(b))
    return unit


def copy_unit(fmt):
    def unit(c):
        w, A = world(c)
        g = Ghost(c)
        g.chg
        a = mk(c, A, g, fmt)
        contract_readers(c, A)
        contract_ctor(c, A)
        ok, r = guarded(c, f"copy of a vector stored as {fmt}", lambda: a.__copy__())
        c.reach("returned")
        is_act(c, A, r, "copy")
        c.prove(f"the copy of a vector stored as {fmt} is equal to it", vec_is(r, g.n, g.V))
        inv(c, a, g, "copying leaves the vector unchanged")
        frozen(c, "copy")
    return unit


def clear_unit(fmt):
    def unit(c):
        w, A = world(c)
        g = Ghost(c)
        a = mk(c, A, g, fmt)
        z = Ghost(c, n=g.n, V=lambda i: z3.BoolVal(False))
        z.chg
        ok, r = guarded(c, f"clearing a vector stored as {fmt}", lambda: a.clear())
        c.reach("returned")
        inv(c, a, z, f"clearing a vector stored as {fmt} gives zeros of the same length")
    return unit


def profile_unit(fmt, attr):
    def unit(c):
        w, A = world(c)
        g = Ghost(c)
        g.chg
        obj = mk(c, A, g, fmt)
        c.invariants.append(decode_invariants(g))
        contract_as(c, A)
        guarded(c, f"reading {attr} of a vector stored as {fmt}", lambda: getattr(obj, attr))
        c.reach("returned")
        inv(c, obj, g, f"invariant after reading {attr} (stored as {fmt})")
    return unit


def contract_as(c, A):
    """the as_* readers and raw by contract, for the methods that only measure (they may store statistics: verified by
    reader_unit; the fields the invariant leaves open stay open)"""
    def prop(name, fn):
        old = A.__dict__.get(name)
        if isinstance(old, property):
            def get(self):
                g = ghost_of(self)
                d = object.__getattribute__(self, "__dict__")
                if not (d.get("loaded") is True and not isinstance(d.get("data_format"), Lazy)):
                    relazy(c, A, self, g)      # reading loads a lazy vector, in whatever format
                return fn(g)
            setattr(A, name, property(get, old.fset))
    prop("raw", lambda g: raw_contract(c, g))
    prop("as_bitarray", lambda g: bits_contract(c, g))
    prop("as_integer", lambda g: g.integer())
    prop("as_compressed_str", lambda g: g.text())
    prop("as_compressed_array", lambda g: g.carr())


# ------------------------------------------------------------------------------------------------ registry
def profile_names(_cache=[]):
    """the measuring properties (sizeof_*, time_*, n_*) the current source defines"""
    if not _cache:
        import ast, os
        tree = ast.parse(open(os.path.join(loader.REPO, "ruleskit", "activation.py")).read())
        for cl in tree.body:
            if isinstance(cl, ast.ClassDef) and cl.name == "Activation":
                for f in cl.body:
                    if isinstance(f, ast.FunctionDef) and f.name.startswith(("sizeof_", "time_", "n_")) and any(
                            isinstance(d, ast.Name) and d.id == "property" for d in f.decorator_list):
                        _cache.append(f.name)
    return _cache


def units(prop):
    from main import Unit
    out = []
    T = {**READERS, **STATS}
    fn = lambda *n: ["ruleskit/activation.py: Activation." + x for x in n]
    if prop in ("C01", "C02"):
        for fmt in FORMATS:
            for attr in T:
                if fmt == "lazy" and attr in ("raw", "nones", "coverage", "ones"):
                    for t in ANY[:-1]:
                        out.append(Unit(f"Activation.{attr} of a vector stored as lazy, loaded as {t}",
                                        lambda attr=attr, t=t: reader_unit("lazy", attr, T, t), fn(attr, "load", "_read"), 9))
                    continue
                w = 12 if fmt == "lazy" else 6
                out.append(Unit(f"Activation.{attr} of a vector stored as {fmt}", lambda fmt=fmt, attr=attr: reader_unit(fmt, attr, T),
                                fn(attr, "data_format", "load", "_decompress", "_compress", "_read", "get_correct_length"), w))
        for k in CTORS:
            out.append(Unit(f"Activation(...) of a vector given as {k}", lambda k=k: ctor_unit(k),
                            fn("__init__", "_init_with_any", "_init_with_raw", "_init_with_bitarray", "_init_with_integer",
                               "_init_with_compressed"), 15))
        for fmt in FORMATS:
            out.append(Unit(f"Activation.__copy__ of a vector stored as {fmt}", lambda fmt=fmt: copy_unit(fmt), fn("__copy__"), 2))
            out.append(Unit(f"Activation.clear of a vector stored as {fmt}", lambda fmt=fmt: clear_unit(fmt), fn("clear"), 2))
    if prop == "C01":
        for fmt in FORMATS:
            for attr in profile_names():
                out.append(Unit(f"Activation.{attr} of a vector stored as {fmt}", lambda fmt=fmt, attr=attr: profile_unit(fmt, attr),
                                fn(attr), 1))
    if prop == "C02":
        out.append(Unit("Activation.get_correlation", corr_unit, fn("get_correlation"), 5))
        out.append(Unit("Activation.get_correlation, lengths differ", corr_len_unit, fn("get_correlation"), 5))
    if prop == "C03":
        for op in OPS:
            out.append(Unit(f"Activation {op}", lambda op=op: op_unit(op), fn(f"__{op}__"), 5))
            out.append(Unit(f"Activation {op} with itself", lambda op=op: op_unit(op, True), fn(f"__{op}__"), 5))
            out.append(Unit(f"Activation {op}, lengths differ", lambda op=op: op_len_unit(op), fn(f"__{op}__"), 3))
        for op in ("and", "or", "xor"):
            for asarray in (None, False, True):
                out.append(Unit(f"Activation.multi_logical_{op}(asarray={asarray})", lambda op=op, x=asarray: multi_unit(op, x),
                                fn(f"multi_logical_{op}"), 5))
    if prop == "C04":
        out.append(Unit("Activation.__contains__", contains_unit, fn("__contains__"), 5))
    return out
