"""The invariant rule for loops over symbolic sequences, and comprehensions at a generic index.

For a loop over a sequence of symbolic length n:  the candidates supplied by the unit's contract (cx.invariants) are proved at
entry; the variables assigned in the body and the pre-existing objects it writes to are forgotten (havoc); the candidates are
assumed at an arbitrary iteration k; the body is executed once on that state and the candidates are proved again for k + 1.
A candidate that fails is dropped and the unit starts again (Houdini); what is left is an inductive invariant, used on exit
(k = n).  In small mode (cx.small) sequences are unrolled instead, which is only used to look for definite countermodels."""
import time
import z3
from core import Cx, Unsupported, PathEnd, Restart, Sub
from values import *

ITER_LIMIT = 200


def cxx():
    return Cx.cur


def havoc(c, v, label):
    """an arbitrary value of the same shape"""
    if isinstance(v, bool) or isinstance(v, SymBool):
        return SymBool(c.bool(label))
    if isinstance(v, (int, SInt)):
        return SInt(c.int(label), getattr(v, "np", False))
    if isinstance(v, (float, FV)):
        return fresh_float(c, label)
    if isinstance(v, Arr):
        w = v.copy()
        havoc_arr(c, w, label)
        return w
    if hasattr(type(v), "_havoc"):
        return v._havoc(c, label)
    if v is None or isinstance(v, (str, type)):
        return v          # must be unchanged: checked at the end of the iteration
    return None if v is None else Opaque(label)


class Opaque(Vc):
    """a variable whose value after the loop is unknown: any use is undecided"""
    __slots__ = ("label",)

    def __init__(self, label):
        self.label = label

    def __getattr__(self, k):
        raise Unsupported(f"value of {self.label} after a loop")

    def _u(self, *a):
        raise Unsupported(f"value of {self.label} after a loop")

    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __add__ = __radd__ = __iter__ = __getitem__ = __call__ = _u
    __hash__ = None


def havoc_list(c, l, label):
    """arbitrary contents of the same length and kind"""
    s = l.as_seq()
    c.nfresh += 1
    v = s.f(z3.Int(f"hl!{c.nfresh}")) if not l.conc else (l.items[0] if l.items else None)
    if isinstance(v, (FV, float)):
        g = [c.fun(label + x, I, B) for x in ("_nan", "_pinf", "_ninf")] + [c.fun(label, I, R)]
        l.items, l.seq = None, Seq(s.n, lambda i: FV(*[x(i) for x in g]))
    elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
        g = c.fun(label, I, I)
        l.items, l.seq = None, Seq(s.n, lambda i: SInt(g(i)))
    elif isinstance(v, Str):
        g = c.fun(label, I, StrSort)
        l.items, l.seq = None, Seq(s.n, lambda i: Str(g(i)))
    else:
        raise Unsupported("list modified in a loop")


def havoc_arr(c, a, label):
    if a.kind == "b":
        f = c.fun(label, I, B)
        a.f = lambda i: f(i)
    elif a.kind == "i":
        if a.rng is not None and a.rng[0] >= 0 and a.rng[1] <= 1:
            f = c.fun(label, I, B)
            a.f = lambda i: b2i(f(i))
        else:
            f = c.fun(label, I, I)
            a.f = lambda i: f(i)
            a.rng = None
    elif a.kind == "f":
        g = [c.fun(label + s, I, B) for s in ("_nan", "_pinf", "_ninf")] + [c.fun(label, I, R)]
        a.f = lambda i: FV(*[x(i) for x in g])
    else:
        raise Unsupported("object array modified in a loop")
    a.filt = None


def same_shape(c, v0, v1):
    """v1 (after the iteration) fits the havocked shape of v0"""
    if isinstance(v0, Opaque):
        return True
    if isinstance(v0, (bool, SymBool)):
        return isinstance(v1, (bool, SymBool))
    if isinstance(v0, (int, SInt)):
        return isinstance(v1, (int, SInt)) and not isinstance(v1, bool)
    if isinstance(v0, (float, FV)):
        return isinstance(v1, (float, FV))
    if isinstance(v0, Arr):
        if not isinstance(v1, Arr) or v1.kind != v0.kind or v1.dtype is not v0.dtype or v1.is_series != v0.is_series:
            return False
        if not (v0.n.eq(v1.n) or c.entails(v0.n == v1.n)):
            return False
        if v0.kind == "i" and v0.rng is not None and v0.rng[1] <= 1 and v0.rng[0] >= 0 and not is01(v1):
            i = z3.Int(c.name("sh"))
            if not c.entails(z3.Implies(z3.And(0 <= i, i < v1.n), z3.Or(v1.f(i) == 0, v1.f(i) == 1))):
                return False
        return True
    if v0 is None or isinstance(v0, (str, type)):
        return v1 is v0 or v1 == v0
    if hasattr(type(v0), "_shape"):
        return v0._shape(c, v1)
    return True


def state(c, site):
    return c.persist.setdefault(site, {"drop": set(), "mods": [], "opaque": set()})


def aliasable(v):
    return isinstance(v, (Arr, VList)) or hasattr(type(v), "_havoc_inplace")


def alias_pattern(env, names, opaque):
    names = [v for v in names if v in env and v not in opaque and aliasable(env[v])]
    return {frozenset(w for w in names if env[w] is env[v]) for v in names if sum(env[w] is env[v] for w in names) > 1}


class Cut:
    """common part of for and while"""
    kind = "?"

    def __init__(self, site, names):
        self.site, self.names = site, names

    # -- candidates
    def cands(self, env, k):
        c = cxx()
        out = {}
        for prov in getattr(c, "invariants", ()):
            try:
                d = prov(self, env, k)
            except (Restart, PathEnd):
                raise
            except Unsupported as e:
                c.notes.add(f"invariant provider: {e}")
                continue
            if d:
                out.update(d)
        return out

    def enter(self, env):
        c = cxx()
        if getattr(self, "done", False):
            return {}
        env = {k: v for k, v in env.items() if not k.startswith("__vc")}
        st = self.st = state(c, self.site)
        self.env0 = env
        self.shape0 = {v: x.copy() if isinstance(x, Arr) else x for v, x in env.items()}
        if c.binders:
            raise Unsupported("loop inside a comprehension over a symbolic sequence")
        # entry
        t0 = time.time()
        self.held0 = None
        c0 = self.cands(env, z3.IntVal(st.get("peel", 0)))
        live = [n for n in c0 if n not in st["drop"]]
        live = [n for n in live if c.entails(c0[n], 2500)]
        for n in live:
            c.results.append((c.prefix_name + f"{self.site} invariant '{n}' holds on entry", "proved", "z3", time.time() - t0, ""))
        # lists held by objects in sight, before the loop
        self.held0 = {}
        for nm, v in env.items():
            if hasattr(type(v), "_vc_hooked") and not isinstance(v, type):
                for a, x in object.__getattribute__(v, "__dict__").items():
                    if isinstance(x, VList):
                        self.held0[nm, a] = x.as_seq()
            elif isinstance(v, VList):
                self.held0[nm, None] = v.as_seq()
        # havoc
        self.outer_log = c.log
        c.log = []
        self.serial0 = c.serial
        c.abstract = True
        new, twin = {}, {}
        self.pinned, self.twins = [], []
        for v in self.names:
            if v in env:
                if v in st["opaque"]:
                    new[v] = Opaque(v)
                elif aliasable(env[v]):
                    # names bound to one object stay bound to one object
                    if id(env[v]) not in twin:
                        same = [w for w in self.names if env.get(w) is env[v]]
                        if any(("twin", w) in st["mods"] for w in same):
                            # written in place by the body: the object itself is forgotten, and must stay bound
                            if isinstance(env[v], Arr):
                                havoc_arr(c, env[v], v)
                            else:
                                env[v]._havoc_inplace(c, v)
                            twin[id(env[v])] = env[v]
                            self.pinned += same
                        else:
                            twin[id(env[v])] = havoc(c, env[v], v)
                            self.twins.append((twin[id(env[v])], v))
                    new[v] = twin[id(env[v])]
                else:
                    new[v] = havoc(c, env[v], v)
        env2 = dict(env)
        env2.update(new)
        for m in st["mods"]:
            if m[0] != "twin":
                self.havoc_mod(c, m, env2)
        self.k = c.int("iter")
        c.assume(self.k >= st.get("peel", 0))
        self.havoc_env = dict(env2)
        self.on_havoc(c)
        c1 = self.cands(env2, self.k)
        for n in live:
            if n in c1:
                c.assume(c1[n])
        self.live = live
        return new

    def havoc_mod(self, c, m, env):
        if m[0] == "var":
            o = env.get(m[1])
            if isinstance(o, Arr):
                havoc_arr(c, o, m[1])
                return
            if o is not None and hasattr(type(o), "_havoc_inplace"):
                o._havoc_inplace(c, m[1])
                return
            raise Unsupported(f"object {m[1]} modified in a loop")
        if m[0] == "fs":
            c.fs.havoc(c)
            return
        if m[0] == "held":
            o = self.held(m, env)
            if isinstance(o, VList):
                havoc_list(c, o, m[2])
                return
        if m[0] == "attr":
            o = env.get(m[1])
            v = o.__dict__.get(m[2])
            object.__setattr__(o, m[2], havoc(c, v, m[2]))
            return
        raise Unsupported("modified object in a loop")

    def held(self, m, env):
        v = env.get(m[1])
        return getattr(v, "__dict__", {}).get(m[2])

    def on_havoc(self, c):
        pass

    def end(self, env):
        c = cxx()
        env = dict(env)
        # frame: everything written that existed before the iteration must have been havocked
        for o in c.log:
            self.check_mod(c, o, env)
        for v in self.names:
            if v in self.env0 and v in env and v not in self.st["opaque"]:
                if not same_shape(c, self.shape0[v], env[v]):
                    if self.kind == "for" and self.st.get("peel", 0) < 3:
                        # the kind of value changes in the first iterations: execute one more of them explicitly
                        self.st["peel"] = self.st.get("peel", 0) + 1
                    else:
                        self.st["opaque"].add(v)
                    raise Restart()
        if any(env.get(v) is not self.env0[v] for v in self.pinned):
            if self.kind == "for" and self.st.get("peel", 0) < 3:
                self.st["peel"] = self.st.get("peel", 0) + 1
                raise Restart()
            raise Unsupported("a variable is both rebound and written in place in a loop")
        if alias_pattern(env, self.names, self.st["opaque"]) != alias_pattern(self.env0, self.names, self.st["opaque"]):
            if self.kind == "for" and self.st.get("peel", 0) < 3:
                self.st["peel"] = self.st.get("peel", 0) + 1
                raise Restart()
            raise Unsupported("variables are bound to one object in some iterations only")
        t0 = time.time()
        c1 = self.cands(env, self.k + 1)
        for n in self.live:
            if n not in c1 or not c.entails(c1[n], 8000):
                self.st["drop"].add(n)
                raise Restart()
            c.results.append((c.prefix_name + f"{self.site} invariant '{n}' is preserved", "proved", "z3", time.time() - t0, ""))
        raise PathEnd()

    def check_mod(self, c, o, env):
        if isinstance(o, tuple):
            obj, attr = o
            ser = getattr(obj, "_vc_serial", 0)
            if ser > self.serial0:
                return
            for m in self.st["mods"]:
                if m[0] == "attr" and m[2] == attr and self.havoc_env.get(m[1]) is obj:
                    return
            for nm, v in self.havoc_env.items():
                if v is obj:
                    self.st["mods"].append(("attr", nm, attr))
                    raise Restart()
            raise Unsupported(f"attribute {attr} of an object out of sight is written in a loop")
        if o is getattr(c, "fs", None):
            if ("fs",) not in self.st["mods"]:
                self.st["mods"].append(("fs",))
                raise Restart()
            return
        for x, nm in self.twins:
            if x is o:
                self.st["mods"].append(("twin", nm))
                raise Restart()
        if any(self.havoc_env.get(v) is o for v in self.pinned):
            return
        if getattr(o, "serial", 0) > self.serial0:
            return
        for m in self.st["mods"]:
            if m[0] == "var" and self.havoc_env.get(m[1]) is o:
                return
        for m in self.st["mods"]:
            if m[0] == "held" and self.held(m, self.havoc_env) is o:
                return
        for nm, v in self.havoc_env.items():
            if v is o:
                self.st["mods"].append(("var", nm))
                raise Restart()
        if isinstance(o, VList):
            for nm, v in self.havoc_env.items():
                d = getattr(v, "__dict__", None)
                if d is None or isinstance(v, (Vc, type)) or not hasattr(type(v), "_vc_hooked"):
                    continue
                for k, x in d.items():
                    if x is o:
                        self.st["mods"].append(("held", nm, k))
                        raise Restart()
        raise Unsupported("an object out of sight is written in a loop")

    def leave(self):
        c = cxx()
        log = c.log
        c.log = self.outer_log
        if c.log is not None:
            c.log.extend(log)


class ForLoop(Cut):
    kind = "for"

    def __init__(self, it, site, names):
        super().__init__(site, names)
        c = cxx()
        self.symbolic = False
        self.it = it
        if not is_conc_iter(it):
            s = to_seq(it)
            n = z3.simplify(s.n)
            if z3.is_int_value(n):
                self.it = [s.f(z3.IntVal(k)) for k in range(max(0, n.as_long()))]
            elif c.small is not None:
                for k in range(ITER_LIMIT):
                    if c.fork(n == k):
                        self.it = [s.f(z3.IntVal(j)) for j in range(k)]
                        break
                else:
                    raise Unsupported("small mode: long loop")
            elif len(getattr(c, "unroll_seen", ())) and site in c.unroll_seen:
                raise Unsupported("nested")
            else:
                if not c.feasible(n > 0):
                    self.it = []
                    return
                self.symbolic = True
                self.seq = s

    def items(self):
        return iter(self.it)

    def on_havoc(self, c):
        c.assume(self.k <= z3.If(self.seq.n > 0, self.seq.n, 0))
        self.go = c.choose(2) == 0
        if self.go:
            c.assume(self.k < self.seq.n)
        else:
            c.assume(self.k == z3.If(self.seq.n > 0, self.seq.n, 0))
        if not c.feasible():
            raise PathEnd()

    def peel(self):
        """the first iterations, executed explicitly (as many as the shape of the variables needs)"""
        c = cxx()
        self.done = True
        for k in range(state(c, self.site).get("peel", 0)):
            if not c.fork(self.seq.n > k):
                return
            yield self.seq.f(z3.IntVal(k))
        self.done = False

    def peeled(self):
        pass

    def iterate(self):
        if self.done:
            return
        if self.go:
            yield self.seq.f(self.k)
        # exit: nothing

    def end(self, env):
        if self.done:
            return
        if not self.go:
            self.leave()
            return
        super().end(env)


class WhileLoop(Cut):
    kind = "while"

    def __init__(self, site, names):
        super().__init__(site, names)
        self.ticks = 0

    def is_symbolic(self, cnd):
        if cxx().small is not None:
            return False
        return isinstance(cnd, SymBool)

    def tick(self):
        self.ticks += 1
        if self.ticks > (6 if cxx().small is not None else 2000):
            raise Unsupported("long while loop")


def vc_for(it, site, names):
    return ForLoop(it, site, names)


def vc_while(site, names):
    return WhileLoop(site, names)


# ------------------------------------------------------------------------------------------------ comprehensions
def vc_comp(kind, it, body, flat):
    c = cxx()
    if not is_conc_iter(it):
        s = to_seq(it)
        n = z3.simplify(s.n)
        conc = None
        if z3.is_int_value(n):
            conc = [s.f(z3.IntVal(k)) for k in range(max(0, n.as_long()))]
        elif c.small is not None and not c.binders:
            for k in range(ITER_LIMIT):
                if c.fork(n == k):
                    conc = [s.f(z3.IntVal(j)) for j in range(k)]
                    break
        if conc is None:
            return symbolic_comp(kind, s, body, flat)
        it = conc
    if kind == "gen" and not flat:
        def g():
            for e in it:
                for x in body(e):
                    yield x
        return g()
    out = []
    for e in it:
        for x in body(e):
            if flat:
                out.extend(list(x))
            else:
                out.append(x)
    if kind in ("list", "gen"):
        return VList(out)
    import fakes
    if kind == "set":
        return fakes.v_set(out)
    return fakes.vc_dict(*out)


def same_term(a, b):
    """the two values are the same term"""
    try:
        x, y = sort_terms(a), sort_terms(b)
    except Unsupported:
        return False
    return len(x) == len(y) and all(u.eq(w) for u, w in zip(x, y))


def sort_terms(v):
    import fakes
    return fakes.terms(v)


def symbolic_comp(kind, s, body, flat):
    c = cxx()
    if flat:
        raise Unsupported("nested comprehension over a symbolic sequence")
    c.nfresh += 1
    i = z3.Int(f"ci!{c.nfresh}")
    sub = Sub(c, [0 <= i, i < s.n])
    alts = sub.run(lambda: body(s.f(i)))
    good = []
    for cond, k, v in alts:
        if k == "raise":
            # the real program raises if this is possible for some element
            if c.entails(z3.Implies(z3.And(0 <= i, i < s.n), z3.Not(cond))):
                continue
            raise v if False else Unsupported(f"a comprehension body may raise {type(v).__name__}: {v}")
        good.append((cond, v))
    if all(len(v) == 1 for _, v in good):
        def f(j):
            vals = [(z3.substitute(cond, (i, j)), subst(v[0], i, j)) for cond, v in good]
            r = vals[-1][1]
            for cc, v in vals[:-1][::-1]:
                r = ite(cc, v, r)
            return r
        if not good:
            raise PathEnd()
        inv = None
        if len(good) == 1:
            v = good[0][1][0]
            x0 = s.f(i)
            if isinstance(v, Found) and s.inv is not None and same_term(v.x, x0):
                # [L.index(x) for x in s]: position p is there exactly when L[p] is in s
                L = v.lst

                def inv(p):
                    r = s.inv(L.f(ti(p)))
                    return None if r is None else (z3.And(0 <= ti(p), ti(p) < L.n, r[0]), r[1])
            elif same_term(v, x0):
                inv = s.inv
        out = Seq(s.n, f, inv)
    else:
        keep = [(cond, v) for cond, v in good if len(v) == 1]
        P = lambda j: z3.substitute(z3.Or(*[cond for cond, _ in keep]) if keep else z3.BoolVal(False), (i, j))
        e = get_enum(z3.simplify(z3.If(s.n > 0, s.n, 0)), P)

        def f(j):
            p = e.pos(j)
            vals = [(z3.substitute(cond, (i, p)), subst(v[0], i, p)) for cond, v in keep]
            if not vals:
                raise PathEnd()
            r = vals[-1][1]
            for cc, v in vals[:-1][::-1]:
                r = ite(cc, v, r)
            return r
        inv = None
        if s.inv is not None and all(same_term(v[0], s.f(i)) for _, v in keep):
            def inv(x):
                r = s.inv(x)
                return None if r is None else (z3.And(r[0], P(r[1])), e.rank(r[1]))
        out = Seq(e.m, f, inv)
    if kind in ("list", "gen"):
        return VList(None, out)
    raise Unsupported(f"{kind} comprehension over a symbolic sequence")
