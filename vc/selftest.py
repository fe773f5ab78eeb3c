"""selftest.py -- compares the contracts of builtins, numpy, bitarray and pandas with the real packages on concrete inputs.

Every case is a small piece of source.  It is executed by the repository's interpreter (the real packages), and by the verifier
(through the same loader rewrites and stand-ins as the repository's code), where "the result equals what the real packages gave"
is an obligation.  A refuted obligation, or a proof of something false, means that a contract is wrong.  Not part of any check:
run it after changing a stand-in (python3-vt vc/selftest.py)."""
import ast, json, os, subprocess, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

A = ["[0, 1, 1, 0, 1]", "[1]", "[1, 1, 0, 0]", "[0, 0, 0]"]
F = ["[1.5, float('nan'), -2.0, 0.0]", "[3.0]", "[float('inf'), 1.0, 1.0]", "[-1.0, 2.0, 4.0, 4.0, -7.5]"]
NUMPY = [  # a: 0/1 integers, b: 0/1 integers of the same length, f: floats, g: finite floats
    ("a", "np.where(a == 1)[0]"), ("a", "np.diff(a)"), ("a", "np.count_nonzero(a)"), ("a", "a.sum()"), ("a", "sum(a)"),
    ("a", "1 - a"), ("a", "a.astype(bool)"), ("a", "(a == 1).astype(int)"), ("a", "np.array([0, 1])[a]"), ("a", "a[::-1]"), ("a", "a[1:]"),
    ("a", "a[-1]"), ("a", "len(a)"), ("a", "a.astype('ubyte')"), ("a", "a.all()"), ("a", "a.any()"), ("a", "np.zeros(len(a))"),
    ("a", "np.ones(len(a), dtype=int)"), ("a", "a * a"), ("a", "a / 2"), ("a", "np.append(a, 1)"), ("a", "a.tolist()"), ("a", "a != 1"),
    ("a", "[x + 1 for x in a]"), ("a", "''.join(str(x) for x in a)"), ("a", "int(''.join(str(x) for x in a), 2)"), ("a", "max(a)"), ("a", "min(a)"),
    ("a", "np.mean(a)"), ("a", "a.shape"), ("a", "np.array(a, dtype=float)"), ("a", "a.astype('ubyte') - np.array([1] * len(a), dtype='ubyte')"),
    ("ab", "a & b"), ("ab", "a | b"), ("ab", "a ^ b"), ("ab", "a - b"), ("ab", "a + b"), ("ab", "a <= b"), ("ab", "np.array_equal(a, b)"),
    ("ab", "(a * b).sum()"), ("ab", "np.vstack([a, b]).all(axis=0)"), ("ab", "np.vstack([a, b]).any(axis=0)"), ("ab", "np.count_nonzero(a == b)"),
    ("ab", "np.logical_and(a, b)"), ("ab", "np.logical_or(a, b)"), ("ab", "np.where(a == 1, b, 7)"),
    ("f", "np.isnan(f)"), ("f", "np.isfinite(f)"), ("f", "np.isinf(f)"), ("f", "f[~np.isnan(f)]"), ("f", "np.nanmean(f)"), ("f", "f > 0"),
    ("f", "f <= 1.0"), ("f", "f == f"), ("f", "f != f"), ("f", "np.abs(f)"), ("f", "-f"), ("f", "f * 2"), ("f", "f + 1"), ("f", "f / 2"), ("f", "np.sign(f)"),
    ("f", "f.mean()"), ("f", "f.sum()"), ("f", "f.std()"), ("f", "f * 0"), ("f", "np.where(f > 0, f, 0.0)"), ("f", "np.extract(f > 0, f)"), ("f", "f ** 2"),
    ("g", "np.mean(g)"), ("g", "np.var(g)"), ("g", "np.std(g) ** 2"), ("g", "np.nanstd(g) ** 2"), ("g", "np.median(g)"), ("g", "g.max()"), ("g", "g.min()"),
    ("g", "np.sqrt(np.abs(g)) ** 2"), ("g", "sorted(g.tolist())"), ("g", "np.argsort(g, kind='stable')"), ("g", "np.unique(g)"), ("g", "[round(x, 1) for x in g]"),
]
PANDAS = [
    ("f", "pd.Series(f).mean()"), ("f", "pd.Series(f).isna()"), ("f", "pd.Series(f).fillna(0.0)"), ("f", "pd.Series(f).notna()"), ("f", "pd.Series(f).sum()"),
    ("f", "pd.Series(f) * 2"), ("f", "pd.Series(f) > 0"), ("f", "pd.Series(f).values"), ("f", "pd.isna(pd.Series(f))"), ("f", "pd.Series(f).dropna()"),
    ("f", "pd.Series(f).std() ** 2"), ("f", "pd.Series(f).abs()"), ("f", "pd.Series(f).replace(0.0, 5.0)"), ("f", "pd.Series(f).where(np.array([x > 0 for x in f]))"),
    ("f", "pd.DataFrame({'u': f, 'v': f * 2}).sum(axis=1)"), ("f", "pd.DataFrame({'u': f, 'v': f * 2}).mean(axis=1)"),
    ("f", "pd.DataFrame({'u': f, 'v': -f}).mean()['v']"), ("f", "pd.DataFrame({'u': f, 'v': -f}).count(axis=1)"),
    ("f", "pd.DataFrame({'u': f, 'v': -f}).std()['u'] ** 2"), ("f", "pd.DataFrame({'u': f, 'v': -f}).isna()['u']"),
    ("f", "pd.DataFrame({'u': f, 'v': -f}).fillna(0)['u']"), ("f", "pd.DataFrame({'u': f, 'v': -f}).max(axis=1)"),
    ("f", "(pd.DataFrame({'u': f, 'v': -f}) * pd.Series({'v': 2.0, 'u': 3.0}))['v']"), ("f", "(pd.DataFrame({'u': f, 'v': -f}) > 0)['v']"),
    ("f", "pd.DataFrame({'u': f, 'v': -f}).replace(0, np.nan)['u']"), ("f", "pd.DataFrame({'u': f, 'v': -f}).mul(pd.Series(f), axis=0)['v']"),
    ("f", "pd.DataFrame({'u': f, 'v': -f}).abs()['v']"), ("f", "(pd.DataFrame({'u': f, 'v': -f}) ** 2)['v']"),
]
T1 = "pd.DataFrame({'u': f, 'v': f[::-1]}).apply(lambda x: x.where(np.array([j > 0 for j in range(len(x))]))).apply(lambda x: x.value_counts())"
CLASSES = [
    ("f", T1 + ".apply(lambda x: x / x.dropna().sum()).max()['u']"), ("f", T1 + ".max()['v']"), ("f", T1 + ".min()['v']"), ("f", T1 + ".sum()['u']"),
    ("f", "(lambda t: t[t == t.max()].apply(lambda x: x.dropna().sort_index().index[0])['v'])(" + T1 + ")"),
    ("f", "(lambda t: t[t == t.max()].apply(lambda x: x.dropna().sort_index().index[-1])['u'])(" + T1 + ")"),
    ("f", "(lambda t: t[t < t.max()].apply(lambda x: x.dropna().sort_index(ascending=False).index[0])['u'])(" + T1 + ")"),
    ("f", "(lambda d: ((d == pd.Series({'u': 2.0, 'v': 1.0})).sum() / (~d.isnull()).sum())['v'])(pd.DataFrame({'u': f, 'v': f[::-1]}))"),
    ("t", "(lambda t: t[t == t.max()].apply(lambda x: x.dropna().sort_index().index[0])['u'])(pd.DataFrame({'u': f, 'v': f}).apply(lambda x: x.value_counts()))"),
]
CF = ["[1.0, 2.0, 2.0, 1.0, 3.0]", "[2.0, 5.0]", "[4.0, 1.0, 1.0, 4.0, 7.0, 7.0, 4.0]"]
BITS = [
    ("l", "bitarray(l).count(1)"), ("l", "bitarray(l).to01()"), ("l", "len(bitarray(l))"), ("l", "bitarray(l).tolist()"), ("l", "(~bitarray(l)).tolist()"),
    ("lm", "(bitarray(l) & bitarray(m)).tolist()"), ("lm", "(bitarray(l) | bitarray(m)).tolist()"), ("lm", "(bitarray(l) ^ bitarray(m)).tolist()"),
    ("l", "bitarray(''.join(str(x) for x in l)).tolist()"), ("l", "bin(int('1' + ''.join(str(x) for x in l), 2))[3:]"),
    ("l", "int(bitarray([1] + l).to01(), 2)"), ("lm", "bitarray(l) == bitarray(m)"), ("l", "bitarray(l).any()"), ("l", "bitarray(l).all()"),
]
HEAD = "import numpy as np\nimport pandas as pd\nfrom bitarray import bitarray\n\n\ndef f():\n"


def cases():
    for k, e in NUMPY + PANDAS:
        if k == "a":
            for x in A:
                yield [f"a = np.array({x})"], e
        elif k == "ab":
            for x in A:
                yield [f"a = np.array({x})", f"b = np.array({[1 - v if j % 2 else v for j, v in enumerate(ast.literal_eval(x))]})"], e
        elif k == "f":
            for x in F:
                yield [f"f = np.array({x})"], e
        else:
            for x in (F[1], F[3], "[2.0, 2.0]", "[0.5, -0.5, 0.25]"):
                yield [f"g = np.array({x})"], e
    for k, e in CLASSES:
        for x in CF if k == "f" else ("['b', 'a', 'b', 'a']", "['z']", "['b', 'ab', 'a', 'ab']"):
            yield [f"f = np.array({x})"], e
    for k, e in BITS:
        for x in A:
            yield [f"l = {x}"] + ([f"m = {[1 - v if j % 2 else v for j, v in enumerate(ast.literal_eval(x))]}"] if k == "lm" else []), e


REAL = r"""
import json, sys, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from bitarray import bitarray
def norm(x):
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return "nan" if x != x else "inf" if x == np.inf else "-inf" if x == -np.inf else x
    if isinstance(x, str): return {"text": x}
    if isinstance(x, pd.Series): x = x.values
    return [norm(y) for y in x]
out = []
for src in json.load(sys.stdin):
    g = {}
    try:
        exec(src, g)
        out.append(["ok", norm(g["f"]())])
    except Exception as e:
        out.append(["raise", type(e).__name__ + ": " + str(e)])
print(json.dumps(out))
"""


def same(got, exp):
    """z3 formula: the value of the verifier equals the one the real packages gave"""
    import z3
    from values import Arr, BitInt, FV, SInt, SymBool, SymText, VList, VTuple, Str, cell_fv, to_seq, tbool, fv, text_eq
    Q = lambda x: z3.RealVal(repr(x)) if not isinstance(x, float) else z3.RealVal(str(__import__("fractions").Fraction(x)))
    if isinstance(exp, dict):
        if isinstance(got, str):
            return z3.BoolVal(got == exp["text"])
        r = (got == exp["text"])
        return tbool(r)
    if isinstance(got, BitInt):
        r = got == exp
        return z3.BoolVal(r) if isinstance(r, bool) else tbool(r)
    if isinstance(exp, list):
        if isinstance(got, Arr):
            conj = [got.n == len(exp)]
            for k, e in enumerate(exp):
                conj.append(same_cell(got.f(z3.IntVal(k)), e))
            return z3.And(*conj)
        s = to_seq(got)
        return z3.And(s.n == len(exp), *[same(s.f(z3.IntVal(k)), e) for k, e in enumerate(exp)])
    return same_cell(got, exp)


def same_cell(x, e):
    import z3
    from fractions import Fraction
    from values import FV, SInt, SymBool, mkint, fv
    if isinstance(x, SymBool):
        x = x.t
    if isinstance(x, SInt):
        x = x.t
    if isinstance(x, bool):
        x = z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x == z3.BoolVal(bool(e))
    if isinstance(x, (int, float)):
        x = fv(x)
    if isinstance(x, z3.ArithRef):
        x = fv(mkint(x)) if x.sort() == z3.IntSort() else FV(z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), x)
    if not isinstance(x, FV):
        raise TypeError(type(x).__name__)
    if e == "nan":
        return x.nan
    if e == "inf":
        return x.pinf
    if e == "-inf":
        return x.ninf
    q = z3.RealVal(str(Fraction(e)))
    tol = z3.RealVal(str(Fraction(max(1.0, abs(e)) * 1e-9)))
    return z3.And(x.fin, x.val - q <= tol, q - x.val <= tol)


def main():
    import z3, core, loader, fakes
    cs = [x for x in cases() if len(sys.argv) < 2 or sys.argv[1] in x[1]]
    srcs = [HEAD + "".join("    " + l + "\n" for l in pre) + "    return " + e + "\n" for pre, e in cs]
    out = json.loads(subprocess.run([os.environ.get("RKV_RTPY", "/opt/venv/bin/python"), "-c", REAL], input=json.dumps(srcs), text=True,
                                    capture_output=True, check=True).stdout)
    n = {"agree": 0, "weak": 0, "WRONG": 0, "undecided": 0, "unsupported": 0, "VACUOUS": 0, "raises": 0}
    unsup = {}
    for (pre, e), src, (st, exp) in zip(cs, srcs, out):
        if st == "raise":
            n["raises"] += 1
            continue
        tree = loader.Tr("selftest").visit(ast.parse(src))
        ast.fix_missing_locations(tree)
        code = compile(tree, "<selftest>", "exec")

        def unit(c):
            w = loader.World(fakes)
            m = types.ModuleType("selftest")
            m.__dict__["__builtins__"] = w.bi
            m.__package__ = ""
            exec(code, m.__dict__)
            got = m.f()
            g = same(got, exp)
            if not c.prove("the stand-in agrees", g):
                c.prove("the stand-in disagrees", z3.Not(g))
            c.reach("end")
            if not c.consistent():
                c.prove("the facts are not contradictory", False)
        r = core.explore(unit, "case", seconds=20)
        sts = {o["name"]: o["status"] for o in r.results.values()}
        who = "; ".join(pre) + "; " + e
        if r.unsupported:
            n["unsupported"] += 1
            unsup.setdefault(r.unsupported[0][:70], []).append(e)
        elif any("contradictory" in k for k in sts):
            n["VACUOUS"] += 1
            print("VACUOUS", who)
        elif any("disagrees" in k and s == "refuted" for k, s in sts.items()):
            n["weak"] += 1
            print("weak (says less than the real package, still true):", who)
        elif any(s == "refuted" for s in sts.values()):
            n["WRONG"] += 1
            print("WRONG", who, "real:", exp, [o["detail"][:200] for o in r.results.values()])
        elif sts and all(s == "proved" for s in sts.values()):
            n["agree"] += 1
        else:
            n["undecided"] += 1
            print("undecided", who, "real:", exp)
    for k, v in unsup.items():
        print("unsupported:", k, "|", sorted(set(v))[:4])
    print(n)
    sys.exit(1 if n["WRONG"] or n["VACUOUS"] else 0)


if __name__ == "__main__":
    main()
