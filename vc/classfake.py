"""Contracts of collections.Counter, argsort and the tables of (class, share) a classification rule keeps."""
import z3
from core import Cx, Unsupported
from values import *
import nparr as NA
from nparr import FA, Mat


def cxx():
    return Cx.cur


def key_term(v):
    """the value as a term that identifies it: a real number or a text"""
    if isinstance(v, (Str, str)):
        return tstr(v)
    if isinstance(v, TV):
        return v.t
    if is_num(v):
        return fv(v).val
    raise Unsupported("key of a counter")


class Count(Vc):
    """Counter(sequence): K distinct keys in order of first appearance; key j is element first(j); count j is the number of its
    occurrences.  kpos(v): the position of the key of value v."""
    __slots__ = ("s", "n", "K", "first", "cnt", "kpos", "items_")

    def __init__(self, s):
        c = cxx()
        self.s, self.n = s, s.n
        self.items_ = None
        n = z3.simplify(s.n)
        if c.small is not None and not z3.is_int_value(n):
            for k in range(6):
                if c.fork(n == k):
                    n = z3.IntVal(k)
                    break
        if z3.is_int_value(n):
            keys = []
            for i in range(n.as_long()):
                x = s.f(z3.IntVal(i))
                for e in keys:
                    if c.fork(key_term(e[0]) == key_term(x)):
                        e[1] += 1
                        break
                else:
                    keys.append([x, 1, i])
            self.items_ = keys
            self.K = z3.IntVal(len(keys))
            self.first = lambda j: pick([z3.IntVal(e[2]) for e in keys], j)
            self.cnt = lambda j: pick([z3.IntVal(e[1]) for e in keys], j)

            def kpos(t):
                r = z3.IntVal(-1)
                for j, e in list(enumerate(keys))[::-1]:
                    r = z3.If(key_term(e[0]) == t, z3.IntVal(j), r)
                return r
            self.kpos = kpos
            return
        if c.binders:
            raise Unsupported("Counter under a binder")
        K = c.int("nkeys")
        fi, cnt = c.fun("firstof", I, I), c.fun("countof", I, I)
        i, j, k = z3.Ints("cn_i cn_j cn_k")
        sort = key_term(s.f(i)).sort()
        kp = c.fun("keypos", sort, I)
        el = lambda t: key_term(s.f(t))
        inn = lambda t: z3.And(0 <= t, t < n)
        ink = lambda t: z3.And(0 <= t, t < K)
        c.axiom(z3.And(0 <= K, K <= n, (K == 0) == (n == 0)))
        e_i = el(i)
        c.axiom(z3.ForAll([i], z3.Implies(inn(i), z3.And(ink(kp(e_i)), fi(kp(e_i)) <= i, el(fi(kp(e_i))) == e_i)), patterns=[kp(e_i)]))
        if z3.is_app(e_i) and e_i.num_args() and e_i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            c.axiom(z3.ForAll([i], z3.Implies(inn(i), ink(kp(e_i))), patterns=[e_i]))
        c.axiom(z3.ForAll([j], z3.Implies(ink(j), z3.And(inn(fi(j)), kp(el(fi(j))) == j)), patterns=[fi(j)]))
        c.axiom(z3.ForAll([j], z3.Implies(ink(j), z3.And(1 <= cnt(j), cnt(j) <= n)), patterns=[cnt(j)]))
        c.axiom(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < K), fi(j) < fi(k)), patterns=[z3.MultiPattern(fi(j), fi(k))]))
        c.axiom(z3.Implies(K == 1, cnt(0) == n))
        self.K, self.first, self.cnt, self.kpos = K, fi, cnt, kp

    def key(self, j):
        return self.s.f(self.first(j))

    def vlen(self):
        return mkint(self.K)

    def __bool__(self):
        return cxx().fork(self.K > 0)

    def keys(self):
        return VList(None, Seq(self.K, lambda j: self.key(j)))

    def values(self):
        return VList(None, Seq(self.K, lambda j: mkint(self.cnt(j))))

    def items(self):
        return VList(None, Seq(self.K, lambda j: (self.key(j), mkint(self.cnt(j)))))

    def as_seq(self):
        return self.keys().as_seq()

    def __getitem__(self, v):
        t = key_term(v)
        p = self.kpos(t)
        if cxx().fork(z3.And(0 <= p, p < self.K, key_term(self.key(p)) == t)):
            return mkint(self.cnt(p))
        return 0

    def member(self, t):
        p = self.kpos(t)
        return z3.And(0 <= p, p < self.K, key_term(self.key(p)) == t)


def pick(vals, j):
    j = z3.simplify(j)
    if z3.is_int_value(j) and 0 <= j.as_long() < len(vals):
        return vals[j.as_long()]
    r = vals[-1] if vals else z3.IntVal(0)
    for k in range(len(vals) - 2, -1, -1):
        r = z3.If(j == k, vals[k], r)
    return r


def Counter(x=None):
    if x is None:
        raise Unsupported("empty Counter")
    c = cxx()
    if isinstance(x, Arr):
        a = x
        c.nfresh += 1
        probe = z3.Int(f"cv!{c.nfresh}")
        if a.kind == "f" and not c.entails(z3.Implies(z3.And(0 <= probe, probe < a.n), a.f(probe).fin)):
            raise Unsupported("Counter of numbers that may be missing")
        if a.kind == "t" and not c.entails(z3.Implies(z3.And(0 <= probe, probe < a.n), z3.Not(a.f(probe).nan))):
            raise Unsupported("Counter of texts that may be missing")
        if a.kind == "o":
            raise Unsupported("Counter")

        def el(i):
            v = a.f(i)
            return Str(v.t) if a.kind == "t" else mkint(v) if a.kind == "i" else mkbool(v) if a.kind == "b" else v
        s = Seq(a.n, el)
    else:
        s = to_seq(x)
    return counter_of(s)


def counter_of(s):
    """the same multiset gives the same counter"""
    c = cxx()
    for o in c.memo.setdefault("counters", []):
        if o.n.eq(s.n) or c.entails(o.n == s.n):
            i = z3.Int(c.name("same"))
            a, b = key_term(o.s.f(i)), key_term(s.f(i))
            if a.sort() == b.sort() and c.entails(z3.Implies(z3.And(0 <= i, i < s.n), a == b)):
                return o
    o = Count(s)
    c.memo["counters"].append(o)
    return o


# ------------------------------------------------------------------------------------------------ tables
numtext = z3.Function("numtext", R, StrSort)
numval = z3.Function("numval", StrSort, R)


def num_text(c, v):
    """the text numpy writes for a finite number: reading it back gives the number"""
    if not c.memo.get("numtext"):
        x = z3.Real("nt_x")
        c.axiom(z3.ForAll([x], numval(numtext(x)) == x, patterns=[numtext(x)]))
        c.memo["numtext"] = True
    return numtext(fv(v).val)


def read_number(s):
    """float(text): only of a text written from a number"""
    c = cxx()
    t = z3.simplify(tstr(s))
    i = t
    if z3.is_app(t) and t.decl().name() == "numtext":
        return freal(t.arg(0))
    v = numval(t)
    if c.memo.get("numtext") and c.entails(numtext(v) == t):
        return freal(v)
    raise Unsupported("float(text)")


def table(seq, width):
    """np.array of a sequence of tuples"""
    c = cxx()
    c.nfresh += 1
    i0 = z3.Int(f"tb!{c.nfresh}")
    n = z3.simplify(seq.n)
    if z3.is_int_value(n):
        rows = [seq.f(z3.IntVal(k)) for k in range(n.as_long())]
        if not rows:
            return Arr(z3.IntVal(0), lambda i: freal(z3.RealVal(0)), "f", NA.FLOAT)
        v0 = rows[0]
    else:
        v0 = seq.f(i0)
    text = [isinstance(x, (Str, str)) for x in v0]
    if not all(t or is_num(x) for t, x in zip(text, v0)):
        raise Unsupported("table of other things")
    if any(text):
        def cell(x):
            if isinstance(x, (Str, str)):
                return TV(z3.BoolVal(False), tstr(x))
            v = fv(x)
            return TV(z3.BoolVal(False), num_text(c, v))
        if not all(text):
            # str and float: numpy makes the column wide enough for both
            for k, x in enumerate(v0):
                if not text[k] and not z3.is_true(s_(fv(x).fin)):
                    rng = z3.BoolVal(True) if z3.is_int_value(n) else z3.And(0 <= i0, i0 < n)
                    if not c.entails(z3.Implies(rng, fv(x).fin)):
                        raise Unsupported("missing number in a table of texts")
        kind, dt = "t", NA.TextDType(None)
    else:
        ints = all(isinstance(x, (int, SInt)) for x in v0)
        kind, dt = ("i", NA.INT64) if ints else ("f", NA.FLOAT)
        cell = (lambda x: ti(x)) if ints else (lambda x: fv(x))

    def f(i, j):
        r = seq.f(i)
        j = z3.simplify(j)
        if z3.is_int_value(j):
            return cell(r[j.as_long()])
        v = cell(r[-1])
        for k in range(len(r) - 2, -1, -1):
            a = cell(r[k])
            v = NA_ite(j == k, a, v)
        return v
    return Mat(n, z3.IntVal(width), f, kind, dt)


def NA_ite(b, x, y):
    if isinstance(x, TV):
        return t_ite(b, x, y)
    if isinstance(x, FV):
        return f_ite(b, x, y)
    return z3.If(b, x, y)


def argsort(a, axis=-1, kind=None, order=None):
    from fakes import sort_perm, lt_term
    c = cxx()
    f, k = a.f, a.kind
    val = (lambda i: Str(f(i).t)) if k == "t" else (lambda i: mkint(f(i))) if k == "i" else (lambda i: f(i))
    if k not in "tif":
        raise Unsupported("argsort")
    n = z3.simplify(a.n)
    if c.small is not None and not z3.is_int_value(n):
        for q in range(6):
            if c.fork(n == q):
                n = z3.IntVal(q)
                break
    if z3.is_int_value(n):
        from fakes import v_sorted
        r = v_sorted(VList(list(range(n.as_long()))), key=lambda i: val(z3.IntVal(i)))
        return NA.from_seq(r.as_seq(), None) if r.items else Arr(z3.IntVal(0), lambda i: z3.IntVal(0), "i", NA.INT64)
    if c.binders:
        raise Unsupported("argsort under a binder")
    i = z3.Int(c.name("as"))
    rng = z3.And(0 <= i, i < n)
    if k == "f" and not c.entails(z3.Implies(rng, z3.Not(f(i).nan))):
        raise Unsupported("argsort of missing numbers")
    if kind not in ("stable", "mergesort"):
        i2 = z3.Int(c.name("as"))
        if not c.entails(z3.Implies(z3.And(0 <= i, i < i2, i2 < n), z3.Not(eqt(val(i), val(i2))))):
            raise Unsupported("argsort of values that may repeat")
    p = sort_perm(n, val)
    out = Arr(n, lambda i: p(i), "i", NA.INT64)
    c.memo.setdefault("permarr", {})[id(out)] = (out, n)
    return out


def eqt(a, b):
    return veq(a, b)


Arr.argsort = argsort


def take_rows(m, k):
    """matrix[array of positions]"""
    c = cxx()
    if k.kind == "b":
        raise Unsupported("rows by a mask")
    i = z3.Int(c.name("tr"))
    if not c.entails(z3.Implies(z3.And(0 <= i, i < k.n), z3.And(0 <= k.f(i), k.f(i) < m.n))):
        raise Unsupported("rows maybe out of bounds")
    return Mat(k.n, m.m, lambda i, j: m.f(k.f(i), j), m.kind, m.dtype, m.rng)


def seq_max(s, greatest=True):
    """max / min of a sequence of numbers of symbolic length"""
    c = cxx()
    if c.binders:
        raise Unsupported("max under a binder")
    if not c.fork(s.n > 0):
        from fakes import deliberate
        raise deliberate(ValueError("max() arg is an empty sequence"))
    i = z3.Int(c.name("mx"))
    v = s.f(i)
    if not is_num(v):
        raise Unsupported("max of a symbolic sequence")
    if not c.entails(z3.Implies(z3.And(0 <= i, i < s.n), fv(v).fin)):
        raise Unsupported("max of numbers that may be missing")
    w = c.int("argmax")
    c.axiom(z3.And(0 <= w, w < s.n))
    q = z3.Int("mx_q")
    top = fv(s.f(w)).val
    a = fv(s.f(q)).val
    c.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < s.n), a <= top if greatest else top <= a)))
    d = quotient(s.f(q), q)
    if d is not None and c.entails(d[1] > 0):
        # quotients by the same positive number compare as their numerators
        t = z3.substitute(d[0], (q, w))
        c.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < s.n), d[0] <= t if greatest else t <= d[0])))
    return s.f(w)
