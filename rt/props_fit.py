"""C08 C09 C10 C14 C17 C20 C21: fitting, evaluating and predicting with rules."""
from common import *
from props_act import expect_error, short, check_read
from props_cond import mkindex, rnd_names
import json as _json

P = {}


def mkxs(i, key="xs"):
    rows = deca(i[key])
    arr = np.array(rows, dtype=float).reshape(len(rows), i["ncols"])
    if i["kind"] == "array":
        return arr
    names = i.get("names") or ["X_" + str(k) for k in range(i["ncols"])]
    df = pd.DataFrame({names[k]: arr[:, k] for k in range(i["ncols"])}, index=mkindex(i.get("index", "range"), len(rows)))
    return df


def mky(i, key="y", dtype=None):
    y = deca(i[key])
    if i.get("ykind", "array") == "array":
        return np.array(y, dtype=dtype)
    idx = mkindex(i.get("index", "range"), len(y)) if i["kind"] == "frame" else pd.RangeIndex(len(y))
    return pd.Series(y, index=idx, dtype=dtype)


def rnd_targets(r, n, missing=True):
    mode = r.random()
    y = []
    for _ in range(n):
        x = r.random()
        if missing and mode < 0.5 and x < 0.25:
            y.append("NaN")
        elif x < 0.45:
            y.append(0.0)
        elif x < 0.7:
            y.append(float(r.randint(-3, 3)))
        else:
            y.append(round(r.uniform(-5, 5), 3))
    return y


LABELS = [[0, 1], [1, 2, 3], [-1, 1], ["a", "b"], ["a", "b", "c"], ["zero", "one"], ["", "x"], ["10", "9", "2"],
          ["class " + "z" * 40 + "1", "class " + "z" * 40 + "2"], ["e", "E", "1e5"], [0.5, 1.5, 100.25],
          [10, 9, 2, 100], ["0", "1"], ["inf", "NAN"], ["Z", "a", "é"]]


def base(r, nmax=14, missing=0.08, kmax=2, frames=True):
    ncols = r.randint(1, 3)
    n = r.choice([1, 2, 3, 5, 8, nmax, 30])
    kind = r.choice(["array", "frame"]) if frames else "array"
    return dict(ncols=ncols, kind=kind, index=r.choice(["range", "rev", "str"]), settings=rnd_settings(r),
                ykind=r.choice(["array", "series"]), names=rnd_names(r, ncols) if r.random() < 0.4 else None,
                xs=rnd_xs(r, n, ncols, missing)), n


def fresh_cond(r, i, inverted=False):
    return rnd_cond(r, i["ncols"], 2, i["names"], allow_inverted=inverted, infs=r.random() < 0.3)


def nm(l):
    return [x for x in l if x == x]


def sstd(l, ddof):
    m = mean(l)
    return math.sqrt(math.fsum((x - m) ** 2 for x in l) / (len(l) - ddof)) if len(l) > ddof else float("nan")


def unchanged(xs, xs0, y, y0, who):
    def same(a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.all((a == b) | ((a != a) & (b != b))))

    need(same(xs, xs0), "%s modified the features", who)
    need(same(y, y0), "%s modified the targets", who)
    if hasattr(xs, "columns"):
        need(list(xs.columns) == list(xs0.columns) and xs.index.equals(xs0.index), "%s modified the table", who)
    if isinstance(y, pd.Series):
        need(y.index.equals(y0.index), "%s modified the target's index", who)


# ------------------------------------------------------------------------------------------------- C08
def gen08(r):
    i, n = base(r)
    i["cond"] = fresh_cond(r, i, True)
    i["y"] = rnd_targets(r, n)
    i["horizon"] = r.choice([None, 1, 2, 5, 10])
    i["refit"] = r.random() < 0.2
    if i["refit"]:
        i["xs0"] = rnd_xs(r, n + 2, i["ncols"], 0)
        i["y0"] = rnd_targets(r, n + 2, False)
    i["inty"] = r.random() < 0.15 and "NaN" not in i["y"]
    if i["inty"]:
        i["y"] = [int(v) for v in i["y"]]
    return i


def check_reg_stats(rule, act, y, horizon, who):
    n = len(y)
    need(arr_eq(rule.activation, act), "%s: activation is %s, expected %s", who, short(rule.activation), act)
    ya = [v for v, a in zip(y, act) if a]
    k = nm(ya)
    need(close(rule.prediction, mean(k)), "%s: prediction is %s, expected %s", who, rule.prediction, mean(k))
    if len(k) >= 2:
        need(close(rule.std, sstd(k, 1), 1e-7, 1e-7), "%s: std is %s, expected %s", who, rule.std, sstd(k, 1))
    if not k or abs(mean(k)) > 1e-9 or all(v == 0 for v in k):
        s = "-" if k and mean(k) < -1e-9 else "+"
        need(rule.sign == s, "%s: sign is %s, expected %s (prediction %s)", who, rule.sign, s, rule.prediction)
    need(close(rule.coverage, sum(act) / n, 1e-12, 0), "%s: coverage is %s, expected %s", who, rule.coverage,
         sum(act) / n)
    need(rule.train_set_size == n, "%s: train set size is %s, expected %s", who, rule.train_set_size, n)
    z = nm(y)
    sd = sstd(z, 0) if z else float("nan")
    if z and k and sd > 1e-6:
        e = abs(mean(k) - mean(z)) / (math.sqrt((horizon or 1) / sum(act)) * sd)
        need(close(rule.zscore, e, 1e-6, 1e-7), "%s: zscore is %s, expected %s", who, rule.zscore, e)
    if not k:
        need(isnan(rule.zscore), "%s: zscore is %s, expected missing", who, rule.zscore)


def check08(i):
    apply_settings(i["settings"])
    rule = RegressionRule(mkcond(i["cond"]))
    kw = {} if i["horizon"] is None else {"horizon": i["horizon"]}
    if i["refit"]:
        rule.fit(np.array(deca(i["y0"])), mkxs(i, "xs0"), **kw)
    xs, y = mkxs(i), mky(i)
    xs0, y0 = xs.copy(), y.copy()
    rule.fit(y=y, xs=xs, **kw)
    who = f"regression rule {i['cond']} fitted on {i['kind']} {i['xs']} y={i['y']}"
    check_reg_stats(rule, act_of(i["cond"], i["xs"]), deca(i["y"]), i["horizon"], who)
    unchanged(xs, xs0, y, y0, who)


P["C08"] = (gen08, check08, None)


# ------------------------------------------------------------------------------------------------- C09
def gen09(r):
    i, n = base(r)
    i["cond"] = fresh_cond(r, i)
    lab = r.choice(LABELS)
    if r.random() < 0.1:
        lab = list(range(r.randint(2, 12)))
    i["y"] = [r.choice(lab) for _ in range(n)]
    m = r.choice([1, 3, 8])
    i["xt"] = rnd_xs(r, m, i["ncols"], 0.05)
    i["yt"] = [r.choice(lab) for _ in range(m)]
    i["obj"] = r.random() < 0.3
    if r.random() < 0.03:
        # many rows, shares of the classes differing by one row only
        k = r.choice([150, 700, 2500])
        lab = r.sample(["b", "a", "c"], 2) if r.random() < 0.5 else r.sample([0, 1, 2, 7], 2)
        i["y"] = [lab[0]] * k + [lab[1]] * (k + r.choice([0, 1, 1]))
        r.shuffle(i["y"])
        i["cond"] = dict(i["cond"], mins=[0] * len(i["cond"]["idx"]), maxs=[1] * len(i["cond"]["idx"]))
        i["xs"] = [[r.randint(0, 1) for _ in range(i["ncols"])] for _ in i["y"]]
        i["yt"] = [r.choice(lab) for _ in range(m)]
    return i


def ymk(i, key):
    y = mky(i, key)
    if i["obj"] and isinstance(y, np.ndarray) and isinstance(i[key][0], str):
        y = np.array(i[key], dtype=object)
    return y


def check09(i):
    apply_settings(i["settings"])
    act = act_of(i["cond"], i["xs"])
    if not any(act):
        return
    rule = ClassificationRule(mkcond(i["cond"]))
    xs, y = mkxs(i), ymk(i, "y")
    xs0, y0 = xs.copy(), y.copy()
    rule.fit(y=y, xs=xs)
    ya = [v for v, a in zip(i["y"], act) if a]
    frac = {c: ya.count(c) / len(ya) for c in set(ya)}
    best = min(c for c in frac if frac[c] == max(frac.values()))
    who = f"classification rule {i['cond']} fitted on {i['xs']} y={i['y']}"
    need(arr_eq(rule.activation, act), "%s: activation is %s", who, short(rule.activation))
    need(rule.prediction == best, "%s predicts %r, expected %r (fractions %s)", who, rule.prediction, best, frac)
    for p in (rfunctions.class_probabilities(rule.activation, y), rule._prediction):
        if isinstance(p, (str, int, float)):
            continue
        got = {(str(c) if isinstance(best, str) else float(c)): float(v) for c, v in p}
        need(set(got) == set(frac) and all(close(got[c], frac[c]) for c in frac) and len(p) == len(frac),
             "%s reports fractions %s, expected %s", who, got, frac)
    st = rfunctions.class_probabilities(pd.DataFrame({"r": np.array(act, dtype=np.ubyte)}),
                                        y.values if isinstance(y, pd.Series) else y)
    got = {c: v for c, v in st["r"].items() if v == v and v != 0}
    need(set(got) == set(frac) and all(close(got[c], frac[c]) for c in frac), "%s: stacked fractions %s, expected %s",
         who, got, frac)
    unchanged(xs, xs0, y, y0, who)
    at = act_of(i["cond"], i["xt"])
    rule.eval(y=ymk(i, "yt"), xs=mkxs(i, "xt"))
    if any(at):
        yt = [v for v, a in zip(i["yt"], at) if a]
        e = sum(v == best for v in yt) / len(yt)
        need(close(rule.criterion, e), "%s: criterion on %s %s is %s, expected %s", who, i["xt"], i["yt"],
             rule.criterion, e)
    rule.eval(y=y)
    need(close(rule.criterion, frac[best]), "%s: criterion on the train set is %s, expected %s", who, rule.criterion,
         frac[best])
    need(rule.prediction == best, "%s: prediction changed by eval", who)


P["C09"] = (gen09, check09, None)


# ------------------------------------------------------------------------------------------------- C10
def gen10(r):
    i, n = base(r)
    i["index"] = r.choice(["range", "rev", "str", "dup"])
    i["cond"] = fresh_cond(r, i, True)
    i["pred"] = r.choice([0, 1, -2.5, 3, 1e9, "a", "class", "x" * 33, "y" * 70, "1", "nan2", 0.1, ""])
    i["cls"] = r.choice(["reg", "cls"])
    if isinstance(i["pred"], str):
        i["cls"] = "cls"
    i["stored"] = r.choice([None, "same", "other"])
    i["vec"] = [r.randint(0, 1) for _ in range(r.choice([1, 2, 7, 300]))]
    i["act"] = dict(form=r.choice(["ubyte", "bitarray", "cstr", "path", "float64", "bool"]),
                    optimize=r.random() < 0.5, to_file=r.random() < 0.5)
    i["np"] = r.random() < 0.2
    return i


def check10(i):
    apply_settings(i["settings"])
    rule = (RegressionRule if i["cls"] == "reg" else ClassificationRule)(mkcond(i["cond"]))
    p = i["pred"]
    rule._prediction = (np.str_(p) if isinstance(p, str) else np.float64(p)) if i["np"] else p
    xs = mkxs(i)
    xs0 = xs.copy()
    who = f"rule {i['cond']} predicting {p!r}"
    if i["stored"] is None:
        expect_error(lambda: rule.predict(), who + " without activation nor features")
    else:
        a, v = build_act(dict(vec=tospec(i["vec"]), **i["act"]))
        rule._activation = a
        cov, non = rule.coverage, a.nones
        chk_pred(rule.predict(), v, p, who + f" on stored activation {v}")
        check_read(rule._activation, "raw", v, who)
    act = act_of(i["cond"], i["xs"])
    for _ in range(2):
        got = rule.predict(xs)
        w = who + f" on {i['kind']} {i['xs']}"
        if i["kind"] == "frame":
            need(isinstance(got, pd.Series), "%s returned a %s", w, type(got))
            need(got.index.equals(xs.index), "%s has index %s", w, list(got.index))
        chk_pred(got, act, p, w)
    unchanged(xs, xs0, [0], [0], who)
    need(rule.prediction == p, "%s changed the prediction", who)
    if i["stored"] is not None:
        need(rule._activation is a, "%s replaced the stored activation", who)
        check_read(a, "raw", v, who)
        check_read(a, "nones", v, who)
        need(rule.coverage == cov and rule.nones == non, "%s changed the statistics", who)
    else:
        need(rule._activation is None and rule.activation is None, "%s stored an activation", who)


def chk_pred(got, act, p, who):
    got = list(np.asarray(got))
    need(len(got) == len(act), "%s has %d entries, expected %d", who, len(got), len(act))
    for k, (g, a) in enumerate(zip(got, act)):
        if a:
            need(g == p, "%s is %r at row %d, expected %r", who, g, k, p)
        elif isinstance(p, str):
            need(g == "nan" or isnan(g), "%s is %r at row %d which is not activated", who, g, k)
        else:
            need(isnan(g), "%s is %r at row %d which is not activated", who, g, k)


P["C10"] = (gen10, check10, None)


# ------------------------------------------------------------------------------------------------- C17
METHODS = ["mse", "mse_norm", "mae", "mae_norm", "aae"]


def crit(pred, y, method):
    k = [(p, t) for p, t in zip(pred, y) if p == p]
    se, ae = mean((p - t) ** 2 for p, t in k), mean(abs(p - t) for p, t in k)
    m = mean(y)
    s = sorted(y)
    n = len(s)
    med = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    d = {"mse": 1, "mae": 1, "mse_norm": mean((t - m) ** 2 for t in y), "mae_norm": mean(abs(t - m) for t in y),
         "aae": mean(abs(t - med) for t in y)}[method]
    if method not in ("mse", "mae") and not d > 1e-6:
        return None
    return (se if method.startswith("mse") else ae) / d


def gen17(r):
    n = r.choice([1, 2, 3, 4, 7, 20])
    y = rnd_targets(r, n, False)
    pr = lambda: [r.choice(["NaN", 0.0, 1.5, -2.0, round(r.uniform(-3, 3), 2)]) for _ in range(n)]
    i, _ = base(r, frames=False)
    i["xs"] = rnd_xs(r, n, i["ncols"], 0.05)
    i["conds"] = []
    for _ in range(r.randint(1, 4)):
        c = fresh_cond(r, i)
        i["conds"].append(c)
    i.update(y=y, preds=[pr() for _ in range(r.randint(1, 4))], method=r.choice(METHODS + [None]),
             what=r.choice(["series", "series", "frame", "rule", "ruleset", "bad"]), fn=r.random() < 0.4,
             rpred=[r.choice([0.0, 1.5, -2.0, 3.0]) for _ in range(4)], stacked=r.random() < 0.5, up=r.random() < 0.1,
             xt=r.random() < 0.5)
    return i


FN = {"mse": "mse_function", "mse_norm": "mse_norm", "mae": "mae_function", "mae_norm": "mae_norm", "aae": "aae_function"}


def check17(i):
    apply_settings(i["settings"])
    m = i["method"] or "mse_norm"
    y = deca(i["y"])
    ya = np.array(y) if i["ykind"] == "array" else pd.Series(y)
    kw = {} if i["method"] is None else {"criterion_method": m.upper() if i["up"] else m}
    preds = [deca(p) for p in i["preds"]]
    f = lambda p: getattr(rfunctions, FN[m])(p, np.array(y)) if i["fn"] else rfunctions.calc_regression_criterion(p, ya, **kw)
    w = i["what"]
    if w == "bad":
        expect_error(lambda: rfunctions.calc_regression_criterion(pd.Series(preds[0]), ya, criterion_method="rmse"),
                     "unknown criterion method")
        expect_error(lambda: rfunctions.calc_regression_criterion(pd.Series(preds[0] + [1.0]), ya, **kw),
                     f"{m} of vectors of different lengths")
        expect_error(lambda: rfunctions.calc_regression_criterion(pd.DataFrame({"a": preds[0] + [1.0]}), ya, **kw),
                     f"{m} of vectors of different lengths")
        return
    if w in ("series", "frame"):
        exp = [crit(p, y, m) for p in preds]
        if exp[0] is None:
            return
        if w == "series":
            s = pd.Series(preds[0], dtype=float)
            s0 = s.copy()
            got = f(s)
            need(close(got, exp[0], 1e-6), "%s of %s with y=%s is %s, expected %s", m, preds[0], y, got, exp[0])
            need(s.equals(s0), "%s modified the predictions", m)
        else:
            got = f(pd.DataFrame({f"r{k}": np.array(p, dtype=float) for k, p in enumerate(preds)}))
            for k, e in enumerate(exp):
                need(close(got[f"r{k}"], e, 1e-6), "%s of column %s of a table with y=%s is %s, expected %s", m,
                     preds[k], y, got[f"r{k}"], e)
        return
    conds, seen = [], set()
    for c in i["conds"]:
        k = str(sorted(zip(cond_names(c), map(str, c["mins"]), map(str, c["maxs"]))))
        if k not in seen:
            seen.add(k)
            conds.append(c)
    rules = []
    xs = mkxs(i)
    for c, p in zip(conds, i["rpred"]):
        a = act_of(c, i["xs"])
        rule = RegressionRule(mkcond(c), Activation(np.array(a, dtype=np.ubyte), to_file=i["settings"]["LOCAL"]))
        rule._prediction, rule._fitted, rule._train_set_size = p, True, len(y)
        rules.append((rule, a, p))
    if crit([0.0] * len(y), y, m) is None:
        return
    if w == "rule":
        for rule, a, p in rules:
            e = crit([p if q else float("nan") for q in a], y, m)
            rule.eval(y=ya, xs=xs if i["xt"] else None, **kw)
            need(close(rule.criterion, e, 1e-6), "%s of a rule predicting %s on %s with y=%s is %s, expected %s", m, p,
                 a, y, rule.criterion, e)
        return
    rs = RuleSet([q[0] for q in rules], stack_activation=True)
    RuleSet.STACKED_FIT = i["stacked"]
    cs = rs.calc_criterions(y=np.array(y), predictions=pd.Series({str(q.condition): p for q, _, p in rules}), **kw)
    for k, (rule, a, p) in enumerate(rules):
        e = crit([p if q else float("nan") for q in a], y, m)
        need(close(cs.iloc[k], e, 1e-6), "stacked %s of a rule predicting %s on %s with y=%s is %s, expected %s", m, p,
             a, y, cs.iloc[k], e)
    rs.eval(y=ya, xs=xs if i["xt"] else None, **kw)
    pv = []
    for k in range(len(y)):
        l = [p for _, a, p in rules if a[k]]
        pv.append(mean(l) if l else float("nan"))
    e = crit(pv, y, m)
    need(close(rs.criterion, e, 1e-6), "%s of a ruleset predicting %s with y=%s is %s, expected %s", m, pv, y,
         rs.criterion, e)
    for rule, a, p in rules:
        e = crit([p if q else float("nan") for q in a], y, m)
        need(close(rule.criterion, e, 1e-6), "%s of rule in %s ruleset is %s, expected %s", m,
             "stacked" if i["stacked"] else "unstacked", rule.criterion, e)


P["C17"] = (gen17, check17, None)


# ------------------------------------------------------------------------------------------------- C14
def rnd_limits(r, cls):
    attrs = ["coverage", "train_set_size", "criterion"] + (["prediction", "std", "zscore"] if cls == "reg" else
                                                            ["prediction"])
    lim = {}
    for a in r.sample(attrs, r.randint(0, 3)):
        d = {}
        for q in r.sample(["min", "max", "equal", "different"], r.randint(1, 2)):
            if a == "coverage":
                v = r.choice([0, 0.1, 0.25, 0.5, 0.75, 1])
            elif a == "train_set_size":
                v = r.choice([1, 2, 3, 4, 8, 5])
            elif a == "criterion":
                v = r.choice([0, 0.5, 1, 0.25])
            else:
                v = r.choice([-1, 0, 0.5, 1, 2, "coverage"] + [x for x in attrs[1:] if x != a and r.random() < 0.4])
            d[q] = v
        if r.random() < 0.25:
            d["arg"] = r.choice(["abs", "exp"])
        lim[a] = d
    return lim


def gen14(r):
    i, _ = base(r, missing=0.05)
    n = r.choice([4, 4, 5, 8])
    i["xs"] = rnd_xs(r, n, i["ncols"], 0.02)
    i["cls"] = r.choice(["reg", "reg", "cls"])
    i["y"] = rnd_targets(r, n, False) if i["cls"] == "reg" else [r.choice([0, 1, 2]) for _ in range(n)]
    i["xt"] = rnd_xs(r, r.choice([4, 6]), i["ncols"], 0.02)
    m = len(i["xt"])
    i["yt"] = rnd_targets(r, m, False) if i["cls"] == "reg" else [r.choice([0, 1, 2]) for _ in range(m)]
    i["conds"] = [fresh_cond(r, i, True) for _ in range(r.randint(1, 5))]
    i["limits"] = rnd_limits(r, i["cls"]) if r.random() < 0.9 else None
    i["own"] = [rnd_limits(r, i["cls"]) if r.random() < 0.2 else None for _ in i["conds"]]
    i["stacked"] = r.random() < 0.5
    i["what"] = r.choice(["rule", "ruleset", "ruleset", "call"])
    i["stack"] = r.random() < 0.5
    i["attr"] = [r.choice([-2, 0.5, 1, 3, None, 0, 0.25, 7]), r.choice([0.25, 1, 2])]
    i["direct"] = {q: r.choice([-2, 0, 0.5, 1, 3, "other", 0.25, 7]) for q in
                   r.sample(["min", "max", "equal", "different"], r.randint(1, 4))}
    if r.random() < 0.3:
        i["direct"]["arg"] = r.choice(["abs", "exp", "int", "sqrt", "str0"])
    return i


def full_limits(lim):
    lim = _json.loads(_json.dumps(lim))
    lim.setdefault("coverage", {}).setdefault("min", 0.05)
    return lim


ARGF = {"abs": abs, "exp": math.exp, "int": int, "sqrt": math.sqrt}


def bad_oracle(lim, val, get, noisy=False):
    """True when the known value val breaks one of lim; None when the statement does not say."""
    if val is None:
        return False
    if "arg" in lim:
        try:
            val = ARGF[lim["arg"]](val)
        except (ValueError, OverflowError):
            return None
    if val != val:
        return None if ("equal" in lim) else False
    L = {q: (get(v) if isinstance(v, str) else v) for q, v in lim.items() if q != "arg"}
    L = {q: v for q, v in L.items() if v is not None}  # a limit whose named attribute is not known does not apply
    for q, v in L.items():  # do not decide on the noise of floating point statistics
        if isinstance(val, float) and (noisy or val != v) and abs(val - v) < 1e-9:
            return None
    return bool(("min" in L and val < L["min"]) or ("max" in L and val > L["max"]) or ("equal" in L and val != L["equal"])
                or ("different" in L and val == L["different"]))


def thr_file(lim):
    d = fresh_dir() / "t.json"
    with real_open(d, "w") as h:
        _json.dump(lim, h)
    return d


class Dummy:
    pass


def oracle_stats(i, c, limits):
    """values of the limited attributes after fit, from the data alone"""
    act = act_of(c, i["xs"])
    y = deca(i["y"])
    n = len(y)
    st = {"coverage": sum(act) / n, "train_set_size": n}
    ya = nm([v for v, a in zip(y, act) if a])
    if i["cls"] == "reg":
        st["prediction"] = mean(ya)
        st["std"] = sstd(ya, 1) if len(ya) > 1 else (0.0 if len(ya) == 1 else float("nan"))
        sd = sstd(y, 0)
        st["zscore"] = (abs(mean(ya) - mean(y)) / (math.sqrt(1 / sum(act)) * sd)) if ya and sd > 1e-6 else float("nan")
        st["unsure"] = {"std"} if len(ya) < 2 else set()
        if not sd > 1e-6:
            st["unsure"].add("zscore")
    else:
        st["prediction"] = min(c_ for c_ in set(ya) if ya.count(c_) == max(map(ya.count, ya))) if ya else None
        st["unsure"] = set()
    return act, st


def judge(st, limits):
    """True bad / False good / None unsure"""
    if limits is None:
        return False
    res = False
    for a, lim in full_limits(limits).items():
        if a not in st:
            continue
        names = [a] + [v for q, v in lim.items() if q != "arg" and isinstance(v, str)]
        b = bad_oracle(lim, st[a], lambda q: st.get(q), any(x in ("std", "zscore") or (x == "criterion" and st.get(x) not in (0, 1, None)) for x in names))
        if any(x in st["unsure"] for x in names):
            return None
        if b is None:
            return None
        res = res or b
    return res


def check14(i):
    apply_settings(i["settings"])
    if i["what"] == "call":
        lim = dict(i["direct"])
        if lim.get("arg") == "str0":
            lim.pop("arg")
        t = Thresholds(thr_file({"thing": lim}) if i["stack"] else str(thr_file({"thing": lim})))
        d = Dummy()
        d.thing, d.other, d.third = i["attr"][0], i["attr"][1], -99
        e = bad_oracle(lim, d.thing, lambda q: getattr(d, q))
        if e is None:
            return
        for _ in range(2):
            got = t("thing", d)
            need(got is (not e), "threshold %s on value %s (other=%s) answers %s, expected %s", lim, d.thing, d.other,
                 got, not e)
        need(t("third", d) is True, "an attribute without limit is flagged")
        return
    if i["limits"] is not None:
        Rule.SET_THRESHOLDS(str(thr_file(i["limits"])))
    cls = RegressionRule if i["cls"] == "reg" else ClassificationRule
    xs, y = mkxs(i), mky(i)
    rules, exp, stats = [], [], []
    seen = set()
    for c, own in zip(i["conds"], i["own"]):
        k = str(sorted(zip(cond_names(c), map(str, c["mins"]), map(str, c["maxs"]))))
        act, st = oracle_stats(i, c, i["limits"])
        if k in seen or (i["cls"] == "cls" and not any(act)):
            continue
        seen.add(k)
        rule = cls(mkcond(c))
        L = i["limits"]
        if own is not None:
            rule.set_thresholds(str(thr_file(own)))
            L = own
        e = judge(st, L)
        if e is None:
            continue
        rules.append(rule)
        exp.append(e)
        stats.append((c, act, st, L))
    if not rules:
        return
    who = f"{i['cls']} rules {[s[0] for s in stats]} thresholds {i['limits']} own {i['own']} xs={i['xs']} y={i['y']} stacked={i['stacked']}"
    if i["what"] == "rule":
        for r_, e, s in zip(rules, exp, stats):
            r_.fit(y=y, xs=xs)
            need(r_.good is (not e), "rule %s fitted is good=%s (because %s), expected %s; %s; %s", s[0], r_.good,
                 r_.bad_because, not e, s[2:], who)
        dropped = None
        kept = [r_ for r_ in rules if r_.good]
    else:
        RuleSet.STACKED_FIT = i["stacked"]
        rs = RuleSet(rules, stack_activation=i["stack"])
        dropped = rs.fit(y=y, xs=xs)
        want = [r_ for r_, e in zip(rules, exp) if not e]
        need(len(rs.rules) == len(want) and all(p is q for p, q in zip(rs.rules, want)),
             "fitting kept rules %s, expected %s: %s", [rules.index(q) for q in rs.rules],
             [k for k, e in enumerate(exp) if not e], who)
        bad = [r_ for r_, e in zip(rules, exp) if e]
        need(len(dropped) == len(bad) and all(any(p is q for q in dropped) for p in bad),
             "fitting returned %d bad rules, expected %d: %s", len(dropped), len(bad), who)
        kept = want
    # evaluation
    if not kept:
        return
    exp2 = []
    for r_, e, (c, act, st, L) in zip(rules, exp, stats):
        if e:
            exp2.append(True)
            continue
        at = act_of(c, i["xt"])
        yt = deca(i["yt"])
        st2 = dict(st)
        if i["cls"] == "reg":
            cv = crit([st["prediction"] if q else float("nan") for q in at], yt, "mse")
            st2["criterion"] = cv
        else:
            ya = [v for v, a in zip(yt, at) if a]
            st2["criterion"] = sum(v == st["prediction"] for v in ya) / len(ya) if ya else float("nan")
        exp2.append(judge(st2, L))
    if any(e is None for e in exp2):
        return
    kw = {"criterion_method": "mse"} if i["cls"] == "reg" else {}
    xt, yt = mkxs(i, "xt"), mky(i, "yt")
    if i["what"] == "rule":
        for r_, e in zip(rules, exp2):
            r_.eval(y=yt, xs=xt, **kw)
            need(r_.good is (not e), "evaluated rule is good=%s, expected %s: %s xt=%s yt=%s", r_.good, not e, who,
                 i["xt"], i["yt"])
    else:
        try:
            dropped = rs.eval(y=yt, xs=xt, **kw)
        except ValueError as e_:
            if "No rules had" in str(e_):
                return
            raise
        want = [r_ for r_, e in zip(rules, exp2) if not e]
        need(len(rs.rules) == len(want) and all(p is q for p, q in zip(rs.rules, want)),
             "evaluating kept %d rules, expected %d: %s xt=%s yt=%s", len(rs.rules), len(want), who, i["xt"], i["yt"])
        bad = [r_ for r_, e, e0 in zip(rules, exp2, exp) if e and not e0]
        need(len(dropped) == len(bad) and all(any(p is q for q in dropped) for p in bad),
             "evaluating returned %d bad rules, expected %d: %s", len(dropped), len(bad), who)


P["C14"] = (gen14, check14, None)


# ------------------------------------------------------------------------------------------------- C20 / C21
def dedup(conds):
    out, seen = [], set()
    for c in conds:
        k = str(sorted(zip(cond_names(c), map(str, c["mins"]), map(str, c["maxs"]))))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def gen20(r):
    i, _ = base(r, missing=0.05)
    n, m = r.choice([2, 4, 8, 20]), r.choice([1, 3, 4, 9])
    i["xs"], i["xt"] = rnd_xs(r, n, i["ncols"], 0.03), rnd_xs(r, m, i["ncols"], 0.03)
    i["cls"] = r.choice(["reg", "cls"])
    lab = r.choice(LABELS)
    i["y"] = rnd_targets(r, n, r.random() < 0.3) if i["cls"] == "reg" else [r.choice(lab) for _ in range(n)]
    i["yt"] = rnd_targets(r, m, False) if i["cls"] == "reg" else [r.choice(lab) for _ in range(m)]
    i["conds"] = dedup([fresh_cond(r, i) for _ in range(r.randint(1, 4))])
    i["stacked"] = r.random() < 0.5
    i["stack"] = r.random() < 0.5
    i["what"] = r.choice(["rule", "ruleset", "ruleset"])
    i["keep"] = r.random() < 0.35
    i["limits"] = {"coverage": {"min": 0}, "criterion": {"max": r.choice([0.2, 0.5, 1, 5])}} if r.random() < 0.3 else None
    i["twice"] = r.random() < 0.3
    return i


STAT = {"reg": ["prediction", "std", "sign", "zscore", "train_set_size", "coverage"],
        "cls": ["prediction", "train_set_size", "coverage"]}


def pick_rules(i):
    cls = RegressionRule if i["cls"] == "reg" else ClassificationRule
    out = []
    for c in i["conds"]:
        act = act_of(c, i["xs"])
        if i["cls"] == "cls" and not any(act):
            continue
        out.append((c, act, cls(mkcond(c))))
    return out


def check20(i):
    apply_settings(i["settings"])
    rl = pick_rules(i)
    if not rl:
        return
    RuleSet.STACKED_FIT = i["stacked"]
    xs, y, xt, yt = mkxs(i), mky(i), mkxs(i, "xt"), mky(i, "yt")
    xt0, yt0, xs0, y0 = xt.copy(), yt.copy(), xs.copy(), y.copy()
    kw = {"criterion_method": "mse"} if i["cls"] == "reg" else {}
    who = f"{i['what']} {[c for c, _, _ in rl]} fitted on {i['xs']} {i['y']} evaluated on {i['xt']} {i['yt']} keep={i['keep']} stacked={i['stacked']} stack={i['stack']} limits={i['limits']}"
    if i["what"] == "ruleset":
        rs = RuleSet([q[2] for q in rl], stack_activation=i["stack"])
        rs.fit(y=y, xs=xs)
    else:
        for q in rl:
            q[2].fit(y=y, xs=xs)
    unchanged(xs, xs0, y, y0, who)
    before = [{a: getattr(q[2], a) for a in STAT[i["cls"]]} for q in rl]
    if i["limits"]:
        Rule.SET_THRESHOLDS(thr_file(i["limits"]))
    for rnd in range(2 if i["twice"] else 1):
        if i["what"] == "ruleset":
            try:
                rs.eval(y=yt, xs=xt, keep_new_activations=i["keep"], **kw)
            except ValueError as e:
                if "No rules had" in str(e):
                    return
                raise
            left = list(rs.rules)
        else:
            for q in rl:
                q[2].eval(y=yt, xs=xt, recompute_activation=i["keep"], **kw)
            left = [q[2] for q in rl if q[2].good]
        unchanged(xt, xt0, yt, yt0, who)
        for (c, act, rule), b in zip(rl, before):
            if not any(rule is q for q in left):
                continue
            exp = act_of(c, i["xt"]) if i["keep"] else act
            need(arr_eq(rule.activation, exp), "%s: rule %s has activation %s after eval, expected %s", who, c,
                 short(rule.activation), exp)
            for a in STAT[i["cls"]]:
                v = getattr(rule, a)
                if a == "coverage" and i["keep"]:
                    need(close(v, sum(exp) / len(exp)), "%s: coverage %s does not describe the kept activation", who, v)
                    continue
                need(close(v, b[a], 0, 0) or (v == b[a]), "%s: eval changed %s of rule %s from %s to %s", who, a, c,
                     b[a], v)
            at = act_of(c, i["xt"])
            ytv = deca(i["yt"])
            if i["cls"] == "reg":
                e = crit([b["prediction"] if q else float("nan") for q in at], ytv, "mse")
            else:
                ya = [v for v, q in zip(ytv, at) if q]
                e = sum(v == b["prediction"] for v in ya) / len(ya) if ya else float("nan")
            need(close(rule.criterion, e, 1e-6), "%s: criterion of %s is %s, expected %s", who, c, rule.criterion, e)
        if i["what"] == "ruleset" and left:
            acts = [act_of(c, i["xt"]) if i["keep"] else act for c, act, rule in rl if any(rule is q for q in left)]
            u = [int(any(a[k] for a in acts)) for k in range(len(acts[0]))]
            need(arr_eq(rs.activation, u), "%s: ruleset activation is %s after eval, expected %s", who,
                 short(rs.activation), u)
            need(close(rs.ruleset_coverage, sum(u) / len(u)), "%s: ruleset coverage is %s", who, rs.ruleset_coverage)
            need(rs.test_set_size == len(i["yt"]), "%s: test size %s", who, rs.test_set_size)
            need(rs.train_set_size == len(i["y"]), "%s: train size %s", who, rs.train_set_size)
            if i["stack"] and rs.stacked_activations is not None:
                sa = rs.stacked_activations
                for (c, act, rule) in rl:
                    if any(rule is q for q in left):
                        e = act_of(c, i["xt"]) if i["keep"] else act
                        need(arr_eq(sa[str(rule.condition)].values, e), "%s: stacked column is %s, expected %s", who,
                             short(sa[str(rule.condition)].values), e)


P["C20"] = (gen20, check20, None)


def gen21(r):
    i = gen20(r)
    i["horizon"] = r.choice([None, 2, 5])
    i["obj"] = r.random() < 0.3
    i["yt"] = i["yt"]
    return i


def check21(i):
    apply_settings(i["settings"])
    out = []
    kwf = {"horizon": i["horizon"]} if i["horizon"] and i["cls"] == "reg" else {}
    kwe = {"criterion_method": "mse"} if i["cls"] == "reg" else {}
    who = f"{i['cls']} ruleset {i['conds']} fitted on {i['kind']} {i['xs']} {i['ykind']} {i['y']} evaluated on {i['xt']} {i['yt']}"
    attrs = (["prediction", "sign", "zscore", "train_set_size", "criterion", "std", "coverage"] if i["cls"] == "reg" else
             ["prediction", "train_set_size", "criterion", "coverage"])
    for st in (False, True):
        rl = pick_rules(i)
        if not rl:
            return
        RuleSet.STACKED_FIT = st
        rs = RuleSet([q[2] for q in rl], stack_activation=i["stack"] and st)
        y, yt = mky(i), mky(i, "yt")
        if i["obj"] and i["cls"] == "cls" and isinstance(y, np.ndarray) and isinstance(i["y"][0], str):
            y, yt = np.array(i["y"], dtype=object), np.array(i["yt"], dtype=object)
        y0, yt0 = y.copy(), yt.copy()
        rs.fit(y=y, xs=mkxs(i), **kwf)
        res = []
        for (c, act, rule) in rl:
            res.append({a: getattr(rule, a) for a in attrs if a != "criterion"})
        try:
            rs.eval(y=yt, xs=mkxs(i, "xt") if not i["twice"] else None, keep_new_activations=False, **kwe) \
                if not i["twice"] or len(i["yt"]) == len(i["y"]) else rs.eval(y=y, **kwe)
        except ValueError as e:
            if "No rules had" in str(e):
                return
            raise
        for q, (c, act, rule) in zip(res, rl):
            q["criterion"] = rule.criterion
        out.append(res)
        need(np.array_equal(np.asarray(y0).astype(str), np.asarray(y).astype(str)), "fit modified the targets")
    yv = deca(i["y"])
    sd = sstd(nm(yv), 0) if i["cls"] == "reg" and nm(yv) else 0
    for (c, act, _), u, s in zip(rl, *out):
        k = nm([v for v, a in zip(yv, act) if a]) if i["cls"] == "reg" else None
        for a in attrs:
            if a == "std" and len(k) < 2:
                continue
            if a == "zscore" and (not k or not sd > 1e-6):
                continue
            need(close(u[a], s[a], 1e-6, 1e-7), "%s: %s of rule %s is %s rule by rule and %s stacked", who, a, c, u[a],
                 s[a])


P["C21"] = (gen21, check21, None)
