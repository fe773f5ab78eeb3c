"""Shared parts of the run-time layer: it executes the real code of /repo on concrete inputs and compares what it does
with an independent oracle.  It is used to replay counterexamples, to look for a failing input of a refuted obligation,
to cross-check the contracts assumed for numpy/pandas/bitarray, and as a bounded stand-in (always labelled so)."""
import builtins, io, json, math, os, random, shutil, sys, tempfile, warnings

SCRATCH = tempfile.mkdtemp(prefix="rkv_rt_")
os.environ["TMPDIR"] = SCRATCH
tempfile.tempdir = SCRATCH
warnings.filterwarnings("ignore")
REPO = os.environ.get("RKV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)
import logging

logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
from pathlib import Path
from bitarray import bitarray
import psutil
import ruleskit
import ruleskit.activation as activation_module
from ruleskit import (
    Activation, Condition, HyperrectangleCondition, Rule, RegressionRule, ClassificationRule, RuleSet,
)
from ruleskit.condition import DuplicatedFeatures
from ruleskit.thresholds import Thresholds
from ruleskit.utils import rfunctions, rule_utils

assert os.path.realpath(ruleskit.__file__).startswith(os.path.realpath(REPO)), ruleskit.__file__
np.seterr(all="ignore")


class Violation(Exception):
    pass


class Escape(BaseException):
    """The code under test tried to remove or overwrite something outside the scratch directory."""


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


# ------------------------------------------------------------------------------------------------- containment
def _inside(p):
    try:
        p = os.path.realpath(os.fspath(p))
    except TypeError:
        return True  # a file descriptor
    return isinstance(p, str) and (p == SCRATCH or p.startswith(SCRATCH + os.sep)) or p in ("/dev/null",)


_off = [False]


def _guard(fn, npaths):
    def f(*a, **k):
        if _off[0]:
            return fn(*a, **k)
        for p in a[:npaths]:
            if not _inside(p):
                raise Escape(f"{fn.__name__}({p!r}) outside the scratch directory")
        return fn(*a, **k)

    return f


_real_rmtree, _real_unlink = shutil.rmtree, os.unlink
for _n, _k in (("unlink", 1), ("remove", 1), ("rmdir", 1), ("rename", 2), ("replace", 2), ("truncate", 1)):
    setattr(os, _n, _guard(getattr(os, _n), _k))
shutil.rmtree = _guard(shutil.rmtree, 1)
real_open = builtins.open


def _open(file, mode="r", *a, **k):
    if any(c in mode for c in "wax+") and not _inside(file):
        raise Escape(f"open({file!r}, {mode!r}) outside the scratch directory")
    return real_open(file, mode, *a, **k)


builtins.open = _open
io.open = _open


def scratch_cleanup():
    os.chdir("/")
    _off[0] = True
    _real_rmtree(SCRATCH, ignore_errors=True)


os.chdir(SCRATCH)
_dirno = [0]


def fresh_dir():
    _dirno[0] += 1
    d = Path(SCRATCH) / f"d{_dirno[0]}"
    d.mkdir()
    return d


# ------------------------------------------------------------------------------------------------- settings
DEFAULTS = dict(DTYPE="str", WILL_COMPARE=False, STORE_RAW=False, FORCE_STAT=False, LOCAL=True, STACKED=False,
                SORT="index", NCPUS=1)


def apply_settings(s):
    s = {**DEFAULTS, **(s or {})}
    Activation.DTYPE = str if s["DTYPE"] == "str" else np.ndarray
    Activation.WILL_COMPARE = s["WILL_COMPARE"]
    Activation.STORE_RAW = s["STORE_RAW"]
    Activation.FORCE_STAT = s["FORCE_STAT"]
    Activation.NCPUS = s["NCPUS"]
    Rule.LOCAL_ACTIVATION = s["LOCAL"]
    RuleSet.STACKED_FIT = s["STACKED"]
    HyperrectangleCondition.SORT_ACCORDING_TO = s["SORT"]


def reset_all():
    apply_settings(None)
    Activation.DEFAULT_TEMPDIR = TEMPD
    Rule.THRESHOLDS = None
    for c in (RegressionRule, ClassificationRule):
        if "THRESHOLDS" in vars(c):
            del c.THRESHOLDS
    RuleSet.all_features_indexes = {}
    RuleSet.CHECK_DUPLICATED = False


TEMPD = fresh_dir()


def purge():
    """Keeps the scratch directory small between cases."""
    _off[0] = True
    try:
        _purge()
    finally:
        _off[0] = False


def _purge():
    for e in os.scandir(SCRATCH):
        if e.is_dir():
            if e.path == str(TEMPD):
                for f in os.scandir(e.path):
                    if f.is_file():
                        _real_unlink(f.path)
            else:
                _real_rmtree(e.path, ignore_errors=True)
        else:
            _real_unlink(e.path)


def rnd_settings(r, **force):
    s = dict(DTYPE=r.choice(["str", "array"]), WILL_COMPARE=r.random() < 0.5, STORE_RAW=r.random() < 0.25,
             FORCE_STAT=r.random() < 0.3, LOCAL=r.random() < 0.5)
    s.update(force)
    return s


# ------------------------------------------------------------------------------------------------- vectors
def mkvec(spec):
    """A 0/1 python list from a JSON spec: {"v": "0101"} or {"rle": [first, len, len, ...]}."""
    if "v" in spec:
        return [int(c) for c in spec["v"]]
    first, out = spec["rle"][0], []
    for k, l in enumerate(spec["rle"][1:]):
        out += [(first + k) % 2] * l
    return out


def tospec(v):
    if len(v) <= 80:
        return {"v": "".join(map(str, v))}
    rle, last = [v[0]], None
    for b in v:
        if b == last:
            rle[-1] += 1
        else:
            rle.append(1)
            last = b
    return {"rle": rle}


def rnd_vec(r, n=None, big=0.05):
    if n is None:
        x = r.random()
        if x < 0.55:
            n = r.randint(1, 12)
        elif x < 0.8:
            n = r.randint(13, 70)
        elif x < 1 - big:
            n = r.choice([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 1000])
        else:
            n = r.choice([4097, 32767, 32768, 40000, 65535, 65536, 70000])
    k = r.random()
    if k < 0.1:
        v = [0] * n
    elif k < 0.2:
        v = [1] * n
    elif k < 0.5 or n > 5000:
        v, b = [], r.randint(0, 1)
        m = max(1, n // r.choice([2, 3, 5, 10]))
        while len(v) < n:
            v += [b] * r.randint(1, m)
            b = 1 - b
        v = v[:n]
    elif k < 0.7:
        p = r.choice([0.05, 0.95])
        v = [int(r.random() < p) for _ in range(n)]
    else:
        v = [r.randint(0, 1) for _ in range(n)]
    return v


def rle_of(v):
    out = [v[0]] + [i for i in range(1, len(v)) if v[i] != v[i - 1]] + [len(v)]
    return out


FORMS = ["ubyte", "int64", "int32", "int8", "float64", "float32", "bool", "bitarray", "int", "bitstring", "cstr",
         "carr", "carr32", "path", "pathstr", "lasypath"]


def build_act(spec, cls=None):
    """spec: {vec, form, optimize, to_file, settings}"""
    cls = cls or Activation
    v = mkvec(spec["vec"])
    f = spec["form"]
    kw = dict(optimize=spec.get("optimize", True), to_file=spec.get("to_file", True))
    n = len(v)
    if f in ("ubyte", "int64", "int32", "int8", "float64", "float32", "bool"):
        return cls(np.array(v, dtype=f), **kw), v
    if f == "bitarray":
        return cls(bitarray(v), **kw), v
    if f == "int":
        return cls(int("".join(map(str, v)), 2), length=n, **kw), v
    if f == "bitstring":
        return cls("".join(map(str, v)), **kw), v
    if f == "cstr":
        return cls(",".join(map(str, rle_of(v))), **kw), v
    if f in ("carr", "carr32"):
        if n < 2:
            return cls(np.array(v, dtype="ubyte"), **kw), v
        return cls(np.array(rle_of(v), dtype="int64" if f == "carr" else "int32"), **kw), v
    if f in ("path", "pathstr", "lasypath"):
        p = fresh_dir() / "vec.npy"
        with real_open(p, "wb") as h:
            np.save(h, np.array(v, dtype=np.ubyte))
        if f == "lasypath":
            return cls(p, lasy=True, **kw), v
        return cls(str(p) if f == "pathstr" else p, **kw), v
    raise AssertionError(f)


def rnd_act(r, n=None, settings=None, big=0.05, forms=FORMS):
    f = r.choice(forms)
    v = rnd_vec(r, n, big)
    if f == "int" and len(v) > 3000 or f == "bitstring" and len(v) > 3000:
        f = "ubyte"
    return dict(vec=tospec(v), form=f, optimize=r.random() < 0.6, to_file=r.random() < 0.5,
                settings=rnd_settings(r) if settings is None else settings)


# ------------------------------------------------------------------------------------------------- numbers
def isnan(x):
    try:
        return bool(x != x)
    except Exception:
        return False


def close(a, b, rtol=1e-7, atol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def mean(l):
    l = list(l)
    return math.fsum(l) / len(l) if l else float("nan")


def enc(x):
    """floats to JSON"""
    if isinstance(x, float):
        if x != x:
            return "NaN"
        if math.isinf(x):
            return "Inf" if x > 0 else "-Inf"
    return x


def dec(x):
    if isinstance(x, str):
        if x == "NaN":
            return float("nan")
        if x == "Inf":
            return float("inf")
        if x == "-Inf":
            return float("-inf")
    return x


def deca(l):
    return [deca(x) if isinstance(x, list) else dec(x) for x in l]


def enca(l):
    return [enca(x) if isinstance(x, list) else enc(x) for x in l]


# ------------------------------------------------------------------------------------------------- conditions, data
def mkcond(c):
    return HyperrectangleCondition(features_indexes=list(c["idx"]), bmins=deca(c["mins"]), bmaxs=deca(c["maxs"]),
                                   features_names=list(c["names"]) if c.get("names") is not None else None)


def cond_names(c):
    return c["names"] if c.get("names") is not None else ["X_" + str(i) for i in c["idx"]]


def met(c, row_by_idx):
    """Oracle: does the row (dict position -> value) meet condition spec c."""
    for i, a, b in zip(c["idx"], deca(c["mins"]), deca(c["maxs"])):
        x = row_by_idx[i]
        if x is None or x != x or math.isinf(x):
            return 0
        if not (a <= x and x <= b):
            return 0
    return 1


GRID = [0, 1, 2, 3, -1, 0.5, 1.5, 2.5, 1e9, -1e9, 1e-9]


NEAR = [1 + 2.0 ** -52, 1 - 2.0 ** -53, 2 - 1e-10, 2 + 1e-10, 0.5 + 1e-12, -1e-13, 1e-13, 3.0000001, 2.9999999, 1e9 + 1e-6]


def rnd_bound(r, infs=True):
    if r.random() < 0.04:
        return r.choice(NEAR)
    x = r.random()
    if infs and x < 0.06:
        return r.choice(["Inf", "-Inf"])
    if x < 0.6:
        return r.randint(-1, 4)
    return r.choice(GRID)


def rnd_cond(r, ncols, kmax=3, names=None, allow_inverted=True, infs=True, idx=None):
    if idx is None:
        k = r.randint(1, min(kmax, ncols))
        idx = r.sample(range(ncols), k)
    mins, maxs = [], []
    for _ in idx:
        a, b = rnd_bound(r, infs), rnd_bound(r, infs)
        if not (allow_inverted and r.random() < 0.06):
            if dec(a) > dec(b):
                a, b = b, a
        mins.append(a)
        maxs.append(b)
    return dict(idx=idx, mins=mins, maxs=maxs, names=None if names is None else [names[i] for i in idx])


def rnd_value(r, missing=0.12):
    if r.random() < 0.04:
        return r.choice(NEAR)
    x = r.random()
    if x < missing:
        return r.choice(["NaN", "NaN", "Inf", "-Inf"])
    if x < 0.7:
        return r.randint(-1, 4)
    return r.choice(GRID)


def rnd_xs(r, n, ncols, missing=0.1):
    return [[rnd_value(r, missing) for _ in range(ncols)] for _ in range(n)]


def act_of(c, xs):
    return [met(c, row) for row in deca(xs)]


def arr_eq(a, v):
    a = np.asarray(a)
    return a.shape == (len(v),) and bool(np.all(a == np.array(v)))
