"""C01 C02 C03 C04 C18: activation vectors."""
from common import *
import itertools

P = {}

READERS = ["raw", "as_bitarray", "as_integer", "as_compressed_str", "as_compressed_array", "as_compressed"]
STATS = ["nones", "ones", "coverage", "entropy", "rel_entropy", "length", "len"]
PROFILE = ["sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array",
           "sizeof_compressed_str", "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer",
           "time_raw_to_bitarray", "time_compressed_to_raw", "time_bitarray_to_raw", "time_integer_to_raw",
           "time_compressed_to_bitarray", "time_bitarray_to_compressed", "time_integer_to_compressed",
           "time_bitarray_to_integer", "time_integer_to_bitarray", "time_compressed_to_integer", "n_read"]


def check_read(a, name, v, who):
    n = len(v)
    if name == "raw":
        x = a.raw
        need(isinstance(x, np.ndarray) and arr_eq(x, v), "%s: raw is %s, expected %s", who, short(x), short(v))
    elif name == "as_bitarray":
        x = a.as_bitarray
        need(isinstance(x, bitarray) and x == bitarray(v), "%s: as_bitarray is %s, expected %s", who, short(x), short(v))
    elif name == "as_integer":
        x = a.as_integer
        e = int("".join(map(str, v)), 2)
        need(not isinstance(x, (np.ndarray, bitarray, str)) and x == e, "%s: as_integer is %s, expected %s", who,
             short(x), short(e))
    elif name in ("as_compressed_str", "as_compressed"):
        x = getattr(a, name)
        e = ",".join(map(str, rle_of(v)))
        need(isinstance(x, str) and x == e, "%s: %s is %s, expected %s", who, name, short(x), short(e))
    elif name == "as_compressed_array":
        x = a.as_compressed_array
        need(isinstance(x, np.ndarray) and arr_eq(x, rle_of(v)), "%s: as_compressed_array is %s, expected %s", who,
             short(x), short(rle_of(v)))
    elif name == "nones":
        need(a.nones == sum(v), "%s: nones is %s, expected %s", who, a.nones, sum(v))
    elif name == "ones":
        x = a.ones
        need(list(x) == [i for i in range(n) if v[i]], "%s: ones is %s for %s", who, short(x), short(v))
    elif name == "coverage":
        need(close(a.coverage, sum(v) / n, 1e-12, 0), "%s: coverage is %s, expected %s", who, a.coverage, sum(v) / n)
    elif name == "entropy":
        need(a.entropy == len(rle_of(v)), "%s: entropy is %s, expected %s", who, a.entropy, len(rle_of(v)))
    elif name == "rel_entropy":
        need(close(a.rel_entropy, len(rle_of(v)) / n, 1e-12, 0), "%s: rel_entropy is %s, expected %s", who,
             a.rel_entropy, len(rle_of(v)) / n)
    elif name == "length":
        need(a.length == n, "%s: length is %s, expected %s", who, a.length, n)
    elif name == "len":
        need(len(a) == n, "%s: len() is %s, expected %s", who, len(a), n)
    elif name in PROFILE:
        getattr(a, name)
    else:
        raise AssertionError(name)


def short(x):
    s = repr(x if not isinstance(x, np.ndarray) else x.tolist())
    return s if len(s) < 160 else s[:120] + f"...({len(s)} chars)"


def desc(spec):
    return f"vector {short(mkvec(spec['vec']))} given as {spec['form']} optimize={spec['optimize']} to_file={spec['to_file']} settings={spec['settings']}"


# ------------------------------------------------------------------------------------------------- C01
def gen01(r):
    a = rnd_act(r)
    k = r.randint(0, 5)
    pool = READERS * 3 + STATS + PROFILE
    reads = [r.choice(pool) for _ in range(k)]
    ops = []
    if r.random() < 0.4:
        ops.append("copy")
    if r.random() < 0.3:
        ops.append("clear")
    return dict(act=a, reads=reads, ops=ops, rsettings=rnd_settings(r) if r.random() < 0.3 else None,
                rounds=r.randint(1, 2))


def check01(i):
    apply_settings(i["act"]["settings"])
    a, v = build_act(i["act"])
    who = desc(i["act"])
    if i["rsettings"]:
        apply_settings(i["rsettings"])
        who += f" then settings {i['rsettings']}"
    for n in i["reads"]:
        check_read(a, n, v, who + f" reads {i['reads']}") if n in READERS + ["length", "len"] else getattr_any(a, n)
    if "copy" in i["ops"]:
        from copy import copy
        b = copy(a)
        for n in READERS + ["length"]:
            check_read(b, n, v, "copy of " + who)
        b.delete() if b.data_format == "file" else None
    for _ in range(i["rounds"]):
        for n in READERS + ["length", "len"]:
            check_read(a, n, v, who + f" after {i['reads']}")
    if "clear" in i["ops"]:
        a.clear()
        for n in READERS + ["length", "len"]:
            check_read(a, n, [0] * len(v), "cleared " + who)


def getattr_any(a, n):
    return len(a) if n == "len" else getattr(a, n)


def sys01():
    vs = [[int(c) for c in s] for n in range(1, 7) for s in itertools.product("01", repeat=n)]
    for v in vs:
        for f in FORMS:
            for (o, t) in ((True, True), (True, False), (False, False), (False, True)):
                for d in ("str", "array"):
                    for wc in (False, True):
                        for sr in (False, True):
                            yield dict(act=dict(vec=tospec(v), form=f, optimize=o, to_file=t, settings=dict(
                                DTYPE=d, WILL_COMPARE=wc, STORE_RAW=sr)), reads=[], ops=["copy", "clear"],
                                rsettings=None, rounds=1)


P["C01"] = (gen01, check01, sys01)


# ------------------------------------------------------------------------------------------------- C02
def gen02(r):
    x = r.random()
    if x < 0.6:
        pool = READERS + STATS * 2 + PROFILE
        return dict(kind="stat", act=rnd_act(r), reads=[r.choice(pool) for _ in range(r.randint(0, 5))],
                    last=r.sample(STATS, len(STATS)), copy=r.random() < 0.2,
                    then=r.choice([None, None, "clear", "copy", "op"]), op=r.choice(["and", "or", "xor", "add", "sub"]),
                    bseed=r.randint(0, 10 ** 6))
    if x < 0.85:
        n = r.choice([1, 2, 3, 7, 40, 257])
        same = r.random() < 0.85
        return dict(kind="corr", a=rnd_act(r, n), b=rnd_act(r, n if same else n + r.randint(1, 3)),
                    flip=r.random() < 0.3)
    n = r.choice([1, 2, 3, 7, 40])
    return dict(kind="rule", a=rnd_act(r, n), b=rnd_act(r, n if r.random() < 0.9 else n + 1),
                pa=r.choice([-1.5, -3, 2, 0.25, -1, 1]), pb=r.choice([-1.5, -3, 2, 0.25, 1, -1]),
                ka=r.randint(1, 2), kb=r.randint(1, 2))


def check02(i):
    if i["kind"] == "stat":
        apply_settings(i["act"]["settings"])
        a, v = build_act(i["act"])
        if i["copy"]:
            from copy import copy
            a = copy(a)
        who = desc(i["act"]) + f" reads {i['reads']}"
        for n in i["reads"]:
            check_read(a, n, v, who) if n in STATS else getattr_any(a, n)
        for n in i["last"]:
            check_read(a, n, v, who)
        for n in i["last"]:
            check_read(a, n, v, who + " (again)")
        t = i.get("then")
        if t == "clear":
            a.clear()
            v = [0] * len(v)
        elif t == "copy":
            from copy import copy
            a = copy(a)
        elif t == "op":
            rb = random.Random(i["bseed"])
            w = [rb.randint(0, 1) for _ in v]
            b = Activation(np.array(w))
            getattr_any(b, rb.choice(STATS))
            f, e = OPS[i["op"]]
            a = f(a, b)
            v = [e(x, y) for x, y in zip(v, w)]
        if t:
            for n in i["last"]:
                check_read(a, n, v, who + f" then {i['op'] if t == 'op' else t}")
        return
    apply_settings(i["a"]["settings"])
    a, va = build_act(i["a"])
    apply_settings(i["b"]["settings"])
    b, vb = build_act(i["b"])
    if i["kind"] == "corr":
        if i["flip"]:
            a, va, b, vb = b, vb, a, va
        if len(va) != len(vb):
            expect_error(lambda: a.get_correlation(b), "correlation of vectors of lengths %d and %d" % (len(va), len(vb)))
            return
        c = a.get_correlation(b)
        e = sum(x == y for x, y in zip(va, vb)) / len(va)
        need(close(c, e, 1e-12, 0), "correlation of %s and %s is %s, expected %s", desc(i["a"]), desc(i["b"]), c, e)
        return
    ra = RegressionRule(mkcond(dict(idx=list(range(i["ka"])), mins=[0] * i["ka"], maxs=[1] * i["ka"])), a)
    rb = RegressionRule(mkcond(dict(idx=list(range(i["kb"])), mins=[0] * i["kb"], maxs=[1] * i["kb"])), b)
    ra._prediction, rb._prediction = i["pa"], i["pb"]
    if len(va) != len(vb):
        expect_error(lambda: ra.get_correlation(rb), "correlation of rules with activations of different lengths")
        return
    c = ra.get_correlation(rb)
    s = (1 if i["pa"] > 0 else -1) * (1 if i["pb"] > 0 else -1)
    e = s * sum(x == y for x, y in zip(va, vb)) / len(va)
    need(close(c, e, 1e-12, 0), "rule correlation of %s and %s is %s, expected %s", desc(i["a"]), desc(i["b"]), c, e)


def expect_error(f, what, kinds=(Exception,)):
    try:
        x = f()
    except kinds:
        return
    except Violation:
        raise
    raise Violation(f"{what} should raise an error, returned {short(x)}")


P["C02"] = (gen02, check02, None)

# ------------------------------------------------------------------------------------------------- C03
OPS = {"and": (lambda a, b: a & b, lambda x, y: x & y), "or": (lambda a, b: a | b, lambda x, y: x | y),
       "xor": (lambda a, b: a ^ b, lambda x, y: x ^ y), "add": (lambda a, b: a + b, lambda x, y: x | y),
       "sub": (lambda a, b: a - b, lambda x, y: x & (1 - y))}
MULTI = {"multi_logical_and": lambda l: int(all(l)), "multi_logical_or": lambda l: int(any(l)),
         "multi_logical_xor": lambda l: int(any(l) and (len(l) == 1 or not all(l)))}


def gen03(r):
    n = r.choice([1, 1, 2, 3, 5, 8, 17, 64, 65, 255, 256, 257, 600])
    if r.random() < 0.03:
        n = 40000
    if r.random() < 0.6:
        m = n if r.random() < 0.9 else n + r.randint(1, 3)
        s = rnd_settings(r)
        return dict(kind="bin", a=rnd_act(r, n, s if r.random() < 0.7 else None),
                    b=rnd_act(r, m, s if r.random() < 0.7 else None), op=r.choice(list(OPS)), settings=s,
                    same=r.random() < 0.05, swap=r.random() < 0.3)
    k = r.choice([1, 1, 2, 3, 4, 5])
    s = rnd_settings(r)
    return dict(kind="multi", acts=[rnd_act(r, n, s if r.random() < 0.7 else None) for _ in range(k)],
                op=r.choice(list(MULTI)), asarray=r.random() < 0.4, settings=s,
                mem=r.choice(["normal", "normal", "pairs", "vstack", "tiny"]), ncpus=r.choice([1, 4]))


class FakeMem:
    def __init__(self, seq):
        self.seq, self.i = seq, 0
        self.real = psutil.virtual_memory()

    def __call__(self):
        x = self.seq[self.i % len(self.seq)]
        self.i += 1
        return self.real._replace(available=x)


def check03(i):
    if i["kind"] == "bin":
        apply_settings(i["a"]["settings"])
        a, va = build_act(i["a"])
        apply_settings(i["b"]["settings"])
        b, vb = build_act(i["b"])
        apply_settings(i["settings"])
        if i["same"]:
            b, vb = a, va
        if i["swap"]:
            a, va, b, vb = b, vb, a, va
        f, e = OPS[i["op"]]
        who = f"{i['op']} of {desc(i['a'])} and {desc(i['b'])} (settings {i['settings']}{', swapped' if i['swap'] else ''})"
        if len(va) != len(vb):
            expect_error(lambda: f(a, b), who)
        else:
            c = f(a, b)
            exp = [e(x, y) for x, y in zip(va, vb)]
            need(isinstance(c, Activation), "%s returned %s", who, type(c))
            for n in ("raw", "length", "nones", "as_integer"):
                check_read(c, n, exp, who)
            check_read(c, "raw", exp, who)
        for (x, v, w) in ((a, va, "left"), (b, vb, "right")):
            for n in ("raw", "length", "nones", "as_integer"):
                check_read(x, n, v, f"{w} operand after {who}")
        return
    acts, vs = [], []
    for s in i["acts"]:
        apply_settings(s["settings"])
        a, v = build_act(s)
        acts.append(a), vs.append(v)
    apply_settings({**i["settings"], "NCPUS": i["ncpus"]})
    who = f"{i['op']} of {[desc(s) for s in i['acts']]} asarray={i['asarray']} memory={i['mem']}"
    real_vm, real_vs = psutil.virtual_memory, np.vstack
    for x in acts:  # lasy vectors are loaded first, so that a file written on the way is not counted
        x.length
    try:
        if i["mem"] == "pairs":
            psutil.virtual_memory = FakeMem([10 ** 9, 6 * 10 ** 8])
        elif i["mem"] == "tiny":
            psutil.virtual_memory = FakeMem([10 ** 9, 0])
        elif i["mem"] == "vstack":
            def vst(l, *a, **k):
                if len(l) > 2:
                    raise MemoryError("simulated")
                return real_vs(l, *a, **k)

            np.vstack = vst
        try:
            c = getattr(Activation, i["op"])(acts, i["asarray"])
        except MemoryError:
            need(i["mem"] in ("tiny", "vstack", "pairs"), "%s raised MemoryError", who)
            return
    finally:
        psutil.virtual_memory, np.vstack = real_vm, real_vs
    exp = [MULTI[i["op"]]([v[k] for v in vs]) for k in range(len(vs[0]))]
    if i["asarray"]:
        need(isinstance(c, np.ndarray) and arr_eq(c, exp), "%s is %s, expected %s", who, short(c), short(exp))
    else:
        need(isinstance(c, Activation), "%s returned %s", who, type(c))
        for n in ("raw", "length", "nones"):
            check_read(c, n, exp, who)
    for x, v in zip(acts, vs):
        for n in ("raw", "nones"):
            check_read(x, n, v, f"operand after {who}")


P["C03"] = (gen03, check03, None)


# ------------------------------------------------------------------------------------------------- C04
def gen04(r):
    n = r.choice([1, 2, 3, 5, 8, 33, 256, 300])
    a, b = rnd_act(r, n), rnd_act(r, n)
    x = r.random()
    va, vb = mkvec(a["vec"]), mkvec(b["vec"])
    if x < 0.25:
        vb = [p & q for p, q in zip(va, vb)]
    elif x < 0.4:
        va = [p | q for p, q in zip(va, vb)]
    elif x < 0.55:  # same count, or one point away from being a subset
        vb = [p & q for p, q in zip(va, vb)]
        z = [k for k in range(n) if not va[k]]
        if z:
            vb[r.choice(z)] = 1
    elif x < 0.6:
        vb = list(va)
    a["vec"], b["vec"] = tospec(va), tospec(vb)
    return dict(kind=r.choice(["act", "act", "rule", "rule", "missing"]), a=a, b=b, pre=r.sample(
        ["raw", "nones", "as_integer", "as_compressed_array", "coverage"], r.randint(0, 2)),
        ca=[r.randint(0, 1), r.randint(0, 2), r.randint(3, 4)], cb=[r.randint(0, 1), r.randint(0, 2), r.randint(3, 4)],
        cls=[r.random() < 0.8, r.random() < 0.8], pred=[r.choice([None, -1.5, 2]), r.choice([None, -1.5, 2])])


def check04(i):
    apply_settings(i["a"]["settings"])
    a, va = build_act(i["a"])
    apply_settings(i["b"]["settings"])
    b, vb = build_act(i["b"])
    for n in i["pre"]:
        getattr(a, n), getattr(b, n)
    exp = all(x >= y for x, y in zip(va, vb))
    who = f"{desc(i['b'])} in {desc(i['a'])}"
    c = lambda k: mkcond(dict(idx=[k[0]], mins=[k[1]], maxs=[k[2]]))
    ca, cb = i.get("ca", [0, 0, 1]), i.get("cb", [1, 0, 1])
    ka, kb = (RegressionRule if q else ClassificationRule for q in i.get("cls", [True, True]))
    if i["kind"] == "act":
        need((b in a) is exp, "%s is %s, expected %s", who, not exp, exp)
    elif i["kind"] == "rule":
        ra, rb = ka(c(ca), a), kb(c(cb), b)
        ra._prediction, rb._prediction = i.get("pred", [None, None])
        need((rb in ra) is exp, "rule containment (features and bounds %s in %s): %s is %s, expected %s", cb, ca, who, not exp, exp)
    else:
        ra, rb, rn = ka(c(ca), a), kb(c(cb), b), ka(c(cb))
        need(not (rn in ra) and not (ra in rn) and not (rn in rn), "a rule without activation is contained in another")
    for (x, v) in ((a, va), (b, vb)):
        for n in ("raw", "nones", "length"):
            check_read(x, n, v, "operand after " + who)


P["C04"] = (gen04, check04, None)


# ------------------------------------------------------------------------------------------------- C18
class FakeRandint:
    """random.randint drawing from a small set of numbers, so that names collide."""

    def __init__(self, seq):
        self.seq, self.i = seq, 0

    def __call__(self, a, b=None, *k):
        x = self.seq[min(self.i, len(self.seq) - 1)] if self.seq[-1] == "stick" else self.seq[self.i % len(self.seq)]
        if x == "stick":
            x = self.seq[-2]
        self.i += 1
        return x


def gen18(r):
    pre = []
    for k in range(r.randint(0, 6)):
        pre.append(r.choice([f"ACTIVATION_VECTOR_{r.randint(0, 6)}.txt", f"ACTIVATION_VECTOR_{r.randint(0, 6)}.txt",
                             f"ACTIVATION_VECTOR_{k}.npy", "other.txt", f"xACTIVATION_VECTOR_{k}.txt",
                             f"ACTIVATION_{k}.txt", "ACTIVATION_VECTOR_.txt", "notes", "activation_vector_1.txt",
                             "ACTIVATION_VECTOR_3.txt.bak", "sub/ACTIVATION_VECTOR_2.txt"]))
    mode = r.choice(["small", "small", "full", "seed"])
    seq = [r.randint(0, 8) for _ in range(r.randint(1, 12))]
    ops = []
    for _ in range(r.randint(1, 10)):
        ops.append([r.choice(["new", "new", "new", "copy", "and", "or", "evaluate", "read", "delete", "clean", "multi",
                              "reseed", "delrule", "stat", "contains", "rsdel", "clear", "fromfile"]),
                    r.randint(0, 9), r.randint(0, 9)])
    return dict(pre=pre, mode=mode, seq=seq, ops=ops, settings=rnd_settings(r, STORE_RAW=False, LOCAL=True),
                n=r.choice([1, 3, 6, 300]), elsewhere=r.random() < 0.3)


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with real_open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def check18(i):
    from copy import copy
    import random as rmod
    base = fresh_dir()
    d = base / "acts"
    d.mkdir()
    for p in i["pre"]:
        q = d / p
        q.parent.mkdir(exist_ok=True)
        with real_open(q, "w") as h:
            h.write("mine " + p)
    with real_open(base / "ACTIVATION_VECTOR_1.txt", "w") as h:
        h.write("outside")
    apply_settings(i["settings"])
    Activation.FORCE_STAT = True
    Activation.DEFAULT_TEMPDIR = d
    real = rmod.randint
    state = rmod.getstate()
    rs_ = random.Random(5)
    n = i["n"]
    live = []  # (activation, vector, own path or None)
    try:
        if i["mode"] == "full":
            rmod.randint = FakeRandint([0, 1, 2, "stick"])
        elif i["mode"] == "small":
            rmod.randint = FakeRandint(i["seq"])
        else:
            rmod.seed(7)

        def add(a, v, what):
            nonlocal before
            own = None
            after = snapshot(base)
            for f, c in before.items():
                need(after.get(f) == c, "%s changed or removed the existing file %s (pre-existing %s, mode %s)", what, f,
                     i["pre"], i["mode"])
            new = set(after) - set(before)
            if a is not None and a.data_format == "file":
                own = os.path.relpath(a.data, base)
                need(os.path.dirname(own) == "acts", "%s stored its vector in %s", what, own)
                need(own in new, "%s uses the file %s which existed before (pre-existing %s)", what, own, i["pre"])
                need(own not in [l[2] for l in live], "%s shares the file %s", what, own)
                need(new == {own}, "%s also left the files %s", what, sorted(new - {own}))
            else:
                need(not new, "%s left the files %s", what, sorted(new))
            if a is not None:
                need(arr_eq(a.raw, v), "%s holds %s, expected %s", what, short(a.raw), short(v))
                live.append((a, v, own))
            before = snapshot(base)

        before = snapshot(base)
        for (op, j, k) in i["ops"]:
            pick = lambda q: live[q % len(live)]
            what = f"op {op} of {i['ops']} mode {i['mode']} seq {i['seq']}"
            if op == "new":
                v = [rs_.randint(0, 1) for _ in range(n)]
                add(Activation(np.array(v, dtype=np.ubyte), to_file=j != 0), v, what)
            elif op == "reseed":
                if i["mode"] == "seed":
                    rmod.seed(7)
            elif op == "fromfile":
                v = [rs_.randint(0, 1) for _ in range(n)]
                p = base / f"given{len(before)}.npy"
                with real_open(p, "wb") as h:
                    np.save(h, np.array(v, dtype=np.ubyte))
                before = snapshot(base)
                add(Activation(p if j % 2 else str(p)), v, what)
            elif op == "evaluate":
                xs = np.array([[rs_.randint(0, 2)] for _ in range(n)])
                rule = RegressionRule(mkcond(dict(idx=[0], mins=[1], maxs=[2])))
                add(rule.evaluate_activation(xs), [int(x[0] >= 1) for x in xs], what)
            elif op == "clean":
                Activation.clean_files()
                after = snapshot(base)
                for f, c in before.items():
                    name = os.path.basename(f)
                    gone = os.path.dirname(f) == "acts" and name.startswith("ACTIVATION_VECTOR_") and name.endswith(".txt")
                    if gone:
                        need(f not in after, "clean_files left %s", f)
                    else:
                        need(after.get(f) == c, "clean_files changed or removed %s", f)
                need(set(after) <= set(before), "clean_files created files")
                before = after
                live = [l for l in live if l[2] is None]
            elif not live:
                continue
            elif op == "copy":
                a, v, _ = pick(j)
                add(copy(a), v, what)
            elif op in ("and", "or"):
                (a, v, _), (b, w, _) = pick(j), pick(k)
                add(a & b if op == "and" else a | b, [x & y if op == "and" else x | y for x, y in zip(v, w)], what)
            elif op == "multi":
                (a, v, _), (b, w, _) = pick(j), pick(k)
                add(Activation.multi_logical_or([a, b]), [x | y for x, y in zip(v, w)], what)
            elif op == "contains":
                (a, v, _), (b, w, _) = pick(j), pick(k)
                b in a
                add(None, None, what)
            elif op in ("read", "stat"):
                a, v, o = pick(j)
                if op == "stat":
                    Activation.FORCE_STAT = True
                    [getattr(a, q) for q in PROFILE[k % 6:]]
                else:
                    for q in READERS + STATS:
                        check_read(a, q, v, what)
                add(None, None, what)
                need(o is None or (a.data_format == "file" and os.path.relpath(a.data, base) == o),
                     "%s moved the vector to another file", what)
            elif op in ("delete", "delrule", "rsdel"):
                a, v, o = pick(j)
                if op == "delete":
                    a.delete()
                else:
                    rule = RegressionRule(mkcond(dict(idx=[0], mins=[1], maxs=[2])), a)
                    if op == "delrule":
                        rule.del_activation()
                    else:
                        rs = RuleSet([rule], compute_activation=False)
                        rs.del_activations()
                after = snapshot(base)
                for f, c in before.items():
                    if f == o:
                        need(f not in after, "%s did not remove the activation's file", what)
                    else:
                        need(after.get(f) == c, "%s changed or removed the file %s of something else", what, f)
                need(set(after) <= set(before), "%s created files", what)
                before = after
                live = [l for l in live if l[0] is not a]
            elif op == "clear":
                a, v, o = pick(j)
                c = copy(a)
                add(c, v, what)
                c.clear()
                live.pop()
                add(None, None, what)
            for (a, v, o) in live:
                need(arr_eq(a.raw, v), "after %s a live vector reads %s, expected %s", what, short(a.raw), short(v))
    finally:
        rmod.randint = real
        rmod.setstate(state)
        Activation.FORCE_STAT = False


P["C18"] = (gen18, check18, None)
