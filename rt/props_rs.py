"""C11 C12 C13 C15 C16 C19: rulesets and trees."""
from common import *
from props_act import expect_error, short, check_read
from props_cond import mkindex, rnd_names
from props_fit import (mkxs, mky, base, fresh_cond, rnd_targets, LABELS, dedup, thr_file, crit, sstd, nm, unchanged,
                       STAT)

P = {}


def ckey(c):
    return tuple(sorted(zip(cond_names(c), map(dec, c["mins"]), map(dec, c["maxs"]))))


def distinct_conds(r, i, k):
    out, seen = [], set()
    for _ in range(4 * k):
        c = fresh_cond(r, i, True)
        if ckey(c) not in seen:
            seen.add(ckey(c))
            out.append(c)
        if len(out) == k:
            break
    return out


# ------------------------------------------------------------------------------------------------- C11
OPS = ["append", "iadd_rule", "iadd_rs", "add_rule", "add_rs", "fit", "fit", "eval", "eval", "self", "calc", "sort",
       "sortby", "slice", "loadless"]


def gen11(r):
    i, _ = base(r, missing=0.03)
    n = r.choice([1, 2, 4, 7, 20, 70])
    i["n"] = n
    i["xs"] = rnd_xs(r, n, i["ncols"], 0.03)
    i["cls"] = r.choice(["reg", "cls"])
    i["y"] = rnd_targets(r, n, False) if i["cls"] == "reg" else [r.choice([0, 1, 2]) for _ in range(n)]
    conds = distinct_conds(r, i, 14)
    if i["cls"] == "cls":
        conds = [c for c in conds if any(act_of(c, i["xs"]))]
    i["conds"] = conds
    i["start"] = r.randint(0, 3)
    i["stack"] = r.random() < 0.5
    i["stacked"] = r.random() < 0.5
    ops = []
    for _ in range(r.randint(1, 6)):
        o = r.choice(OPS)
        d = {"op": o}
        if o in ("iadd_rs", "add_rs"):
            d.update(k=r.randint(0, 3), stack=r.random() < 0.5)
        if o in ("fit", "eval"):
            d["limits"] = r.choice([None, None, {"coverage": {"min": r.choice([0, 0.3, 0.6])}},
                                    {"coverage": {"min": 0, "max": r.choice([0.3, 0.9])}},
                                    {"coverage": {"min": 0}, "criterion": {"max": r.choice([0.1, 0.5, 2])}}])
            d["xs"] = r.choice(["same", "none", "other"])
            d["m"] = r.choice([1, 3, 8])
            d["seed"] = r.randint(0, 10 ** 6)
            d["keep"] = r.random() < 0.5
        if o == "calc":
            d.update(m=r.choice([1, 3, 8, n]), seed=r.randint(0, 10 ** 6))
        if o == "slice":
            d["sl"] = [r.choice([None, 0, 1]), r.choice([None, 2, 3, -1]), r.choice([None, 1, 2, -1])]
        ops.append(d)
    i["ops"] = ops
    if r.random() < 0.3:
        # activations unrelated to the conditions (rules fitted on other features), conditions possibly repeated
        i["free"] = r.randint(0, 10 ** 9)
        i["ops"] = [d if d["op"] not in ("fit", "eval", "calc", "slice") else {"op": r.choice(["append", "iadd_rule", "add_rule"])} for d in ops]
        if r.random() < 0.5:
            i["stack"] = False
            for d in i["ops"]:
                if "stack" in d:
                    d["stack"] = False
            few = conds[:r.randint(1, 3)]
            i["conds"] = [r.choice(few) for _ in conds] if few else conds
    return i


def check11(i):
    apply_settings(i["settings"])
    RuleSet.STACKED_FIT = i["stacked"]
    cls = RegressionRule if i["cls"] == "reg" else ClassificationRule
    cond_of = {}
    xs = mkxs(i)
    pool = list(i["conds"])
    cur = {"xs": i["xs"], "y": i["y"]}  # data the current activations come from
    free = random.Random(i["free"]) if i.get("free") is not None else None
    own = {}

    def rows(m, seed):
        r = random.Random(seed)
        return (rnd_xs(r, m, i["ncols"], 0.03),
                rnd_targets(r, m, False) if i["cls"] == "reg" else [r.choice([0, 1, 2]) for _ in range(m)])

    def mk():
        if not pool:
            return None
        c = pool.pop(0)
        a = act_of(c, cur["xs"])
        if free is not None:
            d = free.choice([0.1, 0.5, 0.9])
            a = [int(free.random() < d) for _ in a]
            if free.random() < 0.2:
                a = [0] * len(a)
        if i["cls"] == "cls" and not any(a):
            return mk()
        rule = cls(mkcond(c), Activation(np.array(a, dtype=np.ubyte), to_file=i["settings"]["LOCAL"]))
        k = [t for t, q in zip(deca(cur["y"]), a) if q]
        rule._prediction = (mean(k) if i["cls"] == "reg" else max(k, key=k.count)) if k else float("nan")
        rule._fitted, rule._train_set_size = True, len(a)
        cond_of[id(rule)] = c
        own[id(rule)] = a
        keepalive.append(rule)
        return rule

    keepalive = []

    def many(k):
        return [q for q in (mk() for _ in range(k)) if q is not None]

    hist = []

    def verify(rs):
        who = f"after {hist} on {i['kind']} {i['xs']} stacked={i['stacked']} stack={i['stack']}"
        if len(rs.rules) == 0:
            return
        if any(q._activation is None for q in rs.rules):
            return
        acts = [own[id(q)] if free is not None else act_of(cond_of[id(q)], cur["xs"]) for q in rs.rules]
        for q, a in zip(rs.rules, acts):
            need(arr_eq(q.activation, a), "%s: activation of rule %s is %s, expected %s", who, cond_of[id(q)],
                 short(q.activation), a)
        u = [int(any(a[k] for a in acts)) for k in range(len(acts[0]))]
        need(rs.activation is not None, "%s: ruleset has no activation", who)
        need(arr_eq(rs.activation, u), "%s: ruleset activation is %s, expected %s", who, short(rs.activation), u)
        need(close(rs.ruleset_coverage, sum(u) / len(u)), "%s: ruleset coverage is %s, expected %s", who,
             rs.ruleset_coverage, sum(u) / len(u))
        if rs.stack_activation:
            sa = rs.stacked_activations
            need(sa is not None, "%s: no stacked activations", who)
            need(len(sa.columns) == len(rs.rules), "%s: %d stacked columns for %d rules", who, len(sa.columns),
                 len(rs.rules))
            for q, a in zip(rs.rules, acts):
                need(str(q.condition) in sa.columns, "%s: no stacked column for %s", who, q.condition)
                need(arr_eq(sa[str(q.condition)].values, a), "%s: stacked column of %s is %s, expected %s", who,
                     q.condition, short(sa[str(q.condition)].values), a)

    first = many(i["start"])
    rs = RuleSet(first if first else None, stack_activation=i["stack"])
    hist.append(f"RuleSet of {[cond_of[id(q)] for q in first]}")
    verify(rs)
    for d in i["ops"]:
        o = d["op"]
        Rule.THRESHOLDS = None
        hist.append(d)
        if o == "append":
            q = mk()
            if q is not None:
                rs.append(q)
        elif o == "iadd_rule":
            q = mk()
            if q is not None:
                rs += q
        elif o in ("iadd_rs", "add_rs"):
            l = many(d["k"])
            other = RuleSet(l if l else None, stack_activation=d["stack"])
            if o == "iadd_rs":
                rs += other
                verify(other)
            else:
                rs = rs + other
        elif o == "add_rule":
            q = mk()
            if q is not None:
                rs = rs + q
        elif len(rs.rules) == 0:
            hist.pop()
            continue
        elif o in ("fit", "eval"):
            if d["limits"]:
                Rule.SET_THRESHOLDS(thr_file(d["limits"]))
            if d["xs"] == "other":
                rx, ry = rows(d["m"], d["seed"])
            else:
                rx, ry = cur["xs"], cur["y"]
            if i["cls"] == "cls" and o == "fit" and not all(any(act_of(cond_of[id(q)], rx)) for q in rs.rules):
                hist.pop()
                continue
            if o == "fit" and any(not q.good for q in rs.rules):
                hist.pop()
                continue
            ii = dict(i, xx=rx, yy=ry)
            ax, ay = mkxs(ii, "xx"), mky(ii, "yy")
            if d["xs"] == "none":
                ax = None
            if o == "fit":
                rs.fit(y=ay, xs=ax)
                if ax is not None:
                    cur["xs"], cur["y"] = rx, ry
            else:
                try:
                    rs.eval(y=ay, xs=ax, keep_new_activations=d["keep"],
                            **({"criterion_method": "mse"} if i["cls"] == "reg" else {}))
                except ValueError as e:
                    if "No rules had" in str(e):
                        return
                    raise
                if ax is not None and d["keep"]:
                    cur["xs"], cur["y"] = rx, ry
            if any(not q.good for q in rs.rules):
                return
        elif o == "self":
            rs.compute_self_activation()
            if rs.stack_activation:
                rs.compute_stacked_activation()
        elif o == "calc":
            rx, ry = rows(d["m"], d["seed"])
            rs.calc_activation(mkxs(dict(i, xx=rx), "xx"))
            cur["xs"], cur["y"] = rx, ry
        elif o == "sort":
            rs.sort()
        elif o == "sortby":
            if any(isnan(q.coverage) for q in rs.rules):
                continue
            rs.sort("coverage", reverse=True)
        elif o == "slice":
            sl = slice(*d["sl"])
            verify(rs[sl])
            whole = rs[:]
            verify(whole)
        verify(rs)


P["C11"] = (gen11, check11, None)


# ------------------------------------------------------------------------------------------------- C12 / C13
def gen12(r):
    i, _ = base(r, missing=0.03)
    n = r.choice([1, 2, 3, 6, 15])
    i["xs"] = rnd_xs(r, n, i["ncols"], 0.03)
    k = r.choice([1, 2, 3, 5, 8])
    big = r.random() < 0.04
    if big:
        i["ncols"], i["names"] = 1, None
        i["xs"] = rnd_xs(r, n, 1, 0)
        i["conds"] = [dict(idx=[0], mins=[-q], maxs=[5 + q], names=None) for q in range(300)]
    else:
        i["conds"] = distinct_conds(r, i, k)
    if not big and r.random() < 0.12 and i["conds"]:
        i["conds"] = [r.choice(i["conds"][:2]) for _ in i["conds"]]     # rules with the same condition: rule by rule only
        i["dup"] = True
    i["preds"] = [r.choice([0, 0.0, 1, -1, 2.5, -2.5, 100, 300, -7, "NaN", 1e-12, round(r.uniform(-3, 3), 3)]) for _ in i["conds"]]
    w = r.random()
    i["weights"] = None
    i["wmode"] = "none"
    if w < 0.6:
        i["wmode"] = r.choice(["series", "attr"])
        ints = r.random() < 0.4
        i["weights"] = [r.choice([1, 2, 3, 200]) if ints else r.choice([0.5, 1.0, 2.25, 0.1, 1e6]) for _ in i["conds"]]
        if r.random() < 0.4:
            i["weights"] = [r.choice([x, x, 0, "NaN", "absent"]) for x in i["weights"]]
        if r.random() < 0.07:
            i["weights"] = [r.choice([0, "NaN"]) for x in i["weights"]]
    if i.get("dup"):
        i["wmode"], i["weights"] = "none", None
    i["usexs"] = r.random() < 0.5
    i["stored"] = "other" if r.random() < 0.3 else "same"
    i["xo"] = rnd_xs(r, r.choice([1, 4]), i["ncols"], 0)
    return i


def prep(i, cls):
    rules = []
    stored = i["xo"] if i["usexs"] and i["stored"] == "other" else i["xs"]
    for c, p in zip(i["conds"], deca(i["preds"])):
        a = act_of(c, stored)
        rule = cls(mkcond(c), Activation(np.array(a, dtype=np.ubyte), to_file=i["settings"]["LOCAL"]))
        rule._prediction, rule._fitted, rule._train_set_size = p, True, len(a)
        rules.append((rule, a))
    w = None
    if i["weights"] is not None:
        ws = i["weights"]
        if i["wmode"] == "attr":
            ws = [("NaN" if x == "absent" else x) for x in ws]
            for (rule, _), x in zip(rules, ws):
                rule._criterion = dec(x)
            w = "criterion"
        else:
            w = pd.Series({str(rule.condition): dec(x) for (rule, _), x in zip(rules, ws) if x != "absent"},
                          dtype=None if all(isinstance(x, int) for x in ws if x != "absent") and any(
                              x != "absent" for x in ws) else float)
    return rules, w


def eff_weights(i):
    if i["weights"] is None:
        return [1] * len(i["conds"])
    return [None if x in ("absent", "NaN", 0) else x for x in i["weights"]]


def snapshot(rules):
    return [(rule, rule._activation, list(rule.activation), rule.prediction) for rule, _ in rules]


def check_pure(rs, snap, sa, who):
    need(len(rs.rules) == len(snap) and all(p is q[0] for p, q in zip(rs.rules, snap)), "%s: rules changed", who)
    for rule, act, v, p in snap:
        need(rule._activation is act and list(rule.activation) == v, "%s: predict changed an activation", who)
        need(rule.prediction == p or (isnan(p) and isnan(rule.prediction)), "%s: predict changed a prediction", who)
    if sa is not None:
        need(rs.stacked_activations is not None and rs.stacked_activations.equals(sa),
             "%s: predict changed the stacked activations", who)
    else:
        need(rs.stacked_activations is None, "%s: predict stacked activations", who)


def check12(i):
    apply_settings(i["settings"])
    xs = mkxs(i) if i["usexs"] else None
    acts = [act_of(c, i["xs"]) for c in i["conds"]]
    w = eff_weights(i)
    preds = deca(i["preds"])
    n = len(i["xs"])
    exp = []
    for k in range(n):
        l = [(p, x) for p, x, a in zip(preds, w, acts) if a[k] and x is not None and p == p]
        exp.append(math.fsum(p * x for p, x in l) / math.fsum(x for _, x in l) if l else float("nan"))
    usable = any(x is not None for x in w)
    anyact = any(x is not None and any(a) for x, a in zip(w, acts))
    who = f"regression rules {i['conds'][:8]} predicting {i['preds'][:8]} weights {i['wmode']} {i['weights'] and i['weights'][:8]} on {i['xs']} (given xs: {i['usexs']} {i['kind']})"
    for stacked in (False,) if i.get("dup") else (False, True):
        rules, ww = prep(i, RegressionRule)
        rs = RuleSet([q for q, _ in rules], stack_activation=stacked)
        RuleSet.STACKED_FIT = stacked
        snap = snapshot(rules)
        sa = rs.stacked_activations.copy() if stacked else None
        mode = "stacked" if stacked else "rule by rule"
        if not usable:
            expect_error(lambda: rs.predict(xs=xs, weights=ww), f"{mode} prediction without usable weight: {who}")
            continue
        if i["weights"] is not None and not anyact:
            continue
        for _ in range(2):
            x0 = xs.copy() if xs is not None else None
            got = rs.predict(xs=xs, weights=ww)
            need(len(got) == n, "%s %s: %d entries, expected %d", mode, who, len(got), n)
            for k, (g, e) in enumerate(zip(list(got), exp)):
                need(close(g, e, 1e-6, 1e-7), "%s %s: point %d is %s, expected %s", mode, who, k, g, e)
            check_pure(rs, snap, sa, who)
            if xs is not None:
                unchanged(xs, x0, [0], [0], who)


P["C12"] = (gen12, check12, None)


def gen13(r):
    i = gen12(r)
    while i.get("dup"):
        i = gen12(r)
    lab = r.choice([l for l in LABELS if "nan" not in l])
    i["preds"] = [r.choice(lab) for _ in i["conds"]]
    if i["weights"] is not None:
        i["weights"] = [x if x in (0, "NaN", "absent") else r.choice([1, 2, 3, 0.5, 1.5]) for x in i["weights"]]
    return i


def vote(preds, w):
    tot = {}
    for p, x in zip(preds, w):
        tot[p] = tot.get(p, 0) + x
    if not tot:
        return float("nan")
    m = max(tot.values())
    b = [c for c in tot if tot[c] == m]
    return b[0] if len(b) == 1 else float("nan")


def check13(i):
    apply_settings(i["settings"])
    xs = mkxs(i) if i["usexs"] else None
    acts = [act_of(c, i["xs"]) for c in i["conds"]]
    w = eff_weights(i)
    if not any(x is not None and any(a) for x, a in zip(w, acts)):
        return
    n = len(i["xs"])
    exp = []
    for k in range(n):
        l = [(p, x) for p, x, a in zip(i["preds"], w, acts) if a[k] and x is not None]
        exp.append(vote([p for p, _ in l], [x for _, x in l]))
    who = f"classification rules {i['conds'][:8]} predicting {i['preds'][:8]} weights {i['wmode']} {i['weights'] and i['weights'][:8]} on {i['xs']} (given xs: {i['usexs']} {i['kind']})"
    for stacked in (False, True) if i["weights"] is None else (False,):
        rules, ww = prep(i, ClassificationRule)
        rs = RuleSet([q for q, _ in rules], stack_activation=stacked)
        RuleSet.STACKED_FIT = stacked
        snap = snapshot(rules)
        sa = rs.stacked_activations.copy() if stacked else None
        mode = "stacked" if stacked else "rule by rule"
        for _ in range(2):
            got = rs.predict(xs=xs, weights=ww)
            need(len(got) == n, "%s %s: %d entries, expected %d", mode, who, len(got), n)
            need(list(got.index) == list(range(n)), "%s %s: index %s", mode, who, list(got.index))
            for k, (g, e) in enumerate(zip(list(got), exp)):
                need(g == e or (isnan(e) and isnan(g)), "%s %s: point %d is %r, expected %r", mode, who, k, g, e)
            check_pure(rs, snap, sa, who)


P["C13"] = (gen13, check13, None)


# ------------------------------------------------------------------------------------------------- C15
SAVELABELS = [[0, 1], [1, 2, 3], [-1, 1], ["a", "b"], ["yes", "no"], ["class one", "class two"], ["é", "ü"],
              ["a,b", 'c"d'], [0.5, 1.5, 100.25], ["x'y", "z"], ["infinite", "nano"], ["A+", "B-"], ["Dr. No", "3D"],
              ["true", "false"], ["NA", "x"], ["null", "n/a"], ["01", "02"], ["TRUE", "FALSE"], [" a", "a "], ["ruleset", "R_0"],
              ["{[]}", "x"], ["-" * 7000 + "x", "y"], ["a\nb", "a\r", "\t"], ["infinity", "1e999x"], ["[1, 2", "]"], ["a\\b", "#"], [12345678901234, 5]]
ODDNAMES = ["it's", 'say "x"', "a,b", "[0]", "inf", "nan", "x_inf", "-inf", "é", "a\nb", "None", "a\\b", " ", "ruleset coverage", "std", "1e999", "a;b", "{}"]
RULENAMES = ["rule number", "it's", "a,b", "NA", "nan", "inf", "1", "ruleset", "None", " x ", "é\"", "std"]


def gen15(r):
    i, _ = base(r, missing=0.02)
    n, m = r.choice([2, 4, 8, 20]), r.choice([1, 3, 9])
    i["xs"], i["xt"] = rnd_xs(r, n, i["ncols"], 0.02), rnd_xs(r, m, i["ncols"], 0.02)
    i["cls"] = r.choice(["reg", "cls"])
    lab = r.choice(SAVELABELS)
    i["y"] = rnd_targets(r, n, r.random() < 0.2) if i["cls"] == "reg" else [r.choice(lab) for _ in range(n)]
    i["yt"] = rnd_targets(r, m, False) if i["cls"] == "reg" else [r.choice(lab) for _ in range(m)]
    if r.random() < 0.25:
        i["names"] = r.sample(ODDNAMES, i["ncols"]) if i["ncols"] <= len(ODDNAMES) else i["names"]
    i["rname"] = r.choice(RULENAMES)
    i["conds"] = distinct_conds(r, i, r.randint(1, 4))
    i["stacked"] = r.random() < 0.5
    i["force"] = {str(k): r.choice(["NaN", "Inf", "-Inf", 0.0, -1e-7, 1e300, 12]) for k in range(2)} if r.random() < 0.3 else {}
    i["named"] = r.random() < 0.3
    i["method"] = r.choice(["mse", "mse_norm"])
    return i


def check15(i):
    apply_settings(i["settings"])
    RuleSet.STACKED_FIT = i["stacked"]
    cls = RegressionRule if i["cls"] == "reg" else ClassificationRule
    conds = [c for c in i["conds"] if i["cls"] == "reg" or any(act_of(c, i["xs"]))]
    if not conds:
        return
    rs = RuleSet([cls(mkcond(c)) for c in conds])
    rs.fit(y=mky(i), xs=mkxs(i))
    try:
        rs.eval(y=mky(i, "yt"), xs=mkxs(i, "xt"), **({"criterion_method": i["method"]} if i["cls"] == "reg" else {}))
    except ValueError as e:
        if "No rules had" in str(e):
            return
        raise
    for k, v in i["force"].items():
        if int(k) < len(rs.rules) and i["cls"] == "reg":
            setattr(rs.rules[int(k)], ["_zscore", "_criterion"][int(k)], dec(v))
    if i["named"]:
        for k, q in enumerate(rs.rules):
            q._name = f"{i.get('rname', 'rule number')} {k}" if k else i.get("rname", "rule number 0")
    who = f"{i['cls']} ruleset {conds} on {i['xs']} {i['y']}"
    p = fresh_dir() / "rs.csv"
    before = [q._name for q in rs.rules]
    rs.save(p)
    for k, (q, b) in enumerate(zip(rs.rules, before)):
        need(b is None or q._name == b, "%s: saving renamed rule %d from %r to %r", who, k, b, q._name)
    rs2 = RuleSet()
    rs2.load(p)
    cmp_rs(rs, rs2, i, who)
    rs2.save(p)
    rs3 = RuleSet()
    rs3.load(p)
    for a in ("criterion", "train_set_size", "test_set_size"):
        need(close(getattr(rs3, a), getattr(rs, a), 0, 0), "%s saved twice: %s", who, a)
    xt = mkxs(i, "xt")
    for q, s in zip(rs.rules, rs2.rules):
        a, b = list(np.asarray(q.predict(xt))), list(np.asarray(s.predict(xt)))
        for g, e in zip(a, b):
            need(same(g, e) or (isnan(g) and isnan(e)), "%s: loaded rule predicts %s, saved one %s", who, b, a)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is not float and str(a) == str(b) and isinstance(a, str) == isinstance(b, str)
    return close(a, b, 1e-12, 0)


def cmp_rs(rs, rs2, i, who):
    need(len(rs2.rules) == len(rs.rules), "%s: loaded %d rules instead of %d", who, len(rs2.rules), len(rs.rules))
    need(rs2.rule_type is rs.rule_type, "%s: rule type %s", who, rs2.rule_type)
    for a in ("ruleset_coverage", "criterion", "train_set_size", "test_set_size"):
        u, v = getattr(rs, a), getattr(rs2, a)
        need(not isinstance(v, str) and close(u, v, 1e-12, 0), "%s: %s is %r after loading, %r before", who, a, v, u)
    for q, s in zip(rs.rules, rs2.rules):
        need(type(s) is type(q), "%s: loaded a %s", who, type(s))
        for a in ("features_names", "features_indexes", "bmins", "bmaxs"):
            u, v = list(getattr(q.condition, a)), list(getattr(s.condition, a))
            need(len(u) == len(v) and all(same(x, z) for x, z in zip(u, v)), "%s: %s is %s after loading, %s before",
                 who, a, v, u)
        for a in ["prediction", "coverage", "criterion", "_name"] + (["zscore", "std"] if i["cls"] == "reg" else []):
            u, v = getattr(q, a), getattr(s, a)
            need(same(u, v), "%s: %s is %r after loading, %r before", who, a, v, u)


P["C15"] = (gen15, check15, None)


# ------------------------------------------------------------------------------------------------- C16
def gen16(r):
    n = r.choice([4, 8, 20, 60, 150])
    ncols = r.randint(1, 4)
    kind = r.choice(["reg", "cls"])
    return dict(n=n, ncols=ncols, seed=r.randint(0, 10 ** 6), kind=kind, depth=r.choice([1, 2, 3, 4, 6]),
                names=r.choice([None, "n"]), classes=r.choice([None, "c"]), leaf=r.random() < 0.7,
                grid=r.random() < 0.5, ncl=r.choice([2, 3, 4]), sort=r.choice(["index", "name"]), mi=r.randint(1, 3))


def check16(i):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

    HyperrectangleCondition.SORT_ACCORDING_TO = i["sort"]
    g = np.random.RandomState(i["seed"])
    X = g.randint(0, 6, (i["n"], i["ncols"])).astype(float) if i["grid"] else g.normal(size=(i["n"], i["ncols"]))
    y = X.sum(axis=1) + g.normal(size=i["n"]) if i["kind"] == "reg" else g.randint(0, i["ncl"], i["n"])
    T = DecisionTreeRegressor if i["kind"] == "reg" else DecisionTreeClassifier
    t = T(max_depth=i["depth"], random_state=i["seed"] % 100, min_samples_leaf=i["mi"]).fit(X, y)
    tr = t.tree_
    if tr.node_count < 3:
        return
    xmins, xmaxs = X.min(axis=0), X.max(axis=0)
    fn = None if i["names"] is None else [f"f{(7 * k) % 5}_{k}" for k in range(i["ncols"])]
    ncl = tr.value.shape[2]
    cn = None if i["classes"] is None or i["kind"] == "reg" else [f"cl{9 - k}" for k in range(ncl)]
    rs = rule_utils.extract_rules_from_tree(t, xmins=list(xmins) if i["seed"] % 2 else xmins, xmaxs=xmaxs,
                                            features_names=fn, classes_names=cn, get_leaf=i["leaf"])
    leaves, branches = [], []

    def pred(node):
        v = tr.value[node][0]
        if i["kind"] == "reg":
            return v[0]
        b = int(np.argmax(v))
        return b if cn is None else cn[b]

    def walk(node, box):
        f = tr.feature[node]
        if tr.children_left[node] == -1:
            leaves.append((box, pred(node)))
            return
        th = tr.threshold[node]
        lo, hi = box.get(f, (xmins[f], xmaxs[f]))
        for child, b in ((tr.children_left[node], (lo, min(hi, th))), (tr.children_right[node], (max(lo, th), hi))):
            nb = dict(box)
            nb[f] = b
            branches.append(nb)
            walk(child, nb)

    walk(0, {})
    who = f"tree {i}"
    exp = leaves if i["leaf"] else [(b, None) for b in branches]
    need(len(rs.rules) == len(exp), "%s gives %d rules, expected %d", who, len(rs.rules), len(exp))
    for k, (rule, (box, p)) in enumerate(zip(rs.rules, exp)):
        c = rule.condition
        got = {int(f): (float(a), float(b)) for f, a, b in zip(c.features_indexes, c.bmins, c.bmaxs)}
        e = {int(f): (float(a), float(b)) for f, (a, b) in box.items()}
        need(got == e and len(c.features_indexes) == len(e), "%s: rule %d has condition %s, expected %s", who, k, got, e)
        for f, nme in zip(c.features_indexes, c.features_names):
            need(nme == (f"X_{f}" if fn is None else fn[f]), "%s: feature %s is named %s", who, f, nme)
        if p is not None:
            need(rule.prediction == p, "%s: rule %d predicts %r, expected %r", who, k, rule.prediction, p)
        need(isinstance(rule, RegressionRule if i["kind"] == "reg" else ClassificationRule), "%s: rule type", who)
    if i["leaf"]:
        pts = g.uniform(xmins, xmaxs, size=(40, i["ncols"]))
        th = {(f, x) for f, x in zip(tr.feature, tr.threshold) if f >= 0}
        ap = t.apply(pts.astype(np.float32))
        A = np.array([rule.condition.evaluate(pts.astype(np.float32).astype(float)) for rule in rs.rules])
        order = [q for q in _leaves(tr, 0)]
        for k in range(len(pts)):
            if any(abs(np.float32(pts[k, f]) - x) < 1e-6 for f, x in th):
                continue
            if any(pts[k].astype(np.float32)[f] < xmins[f] or pts[k].astype(np.float32)[f] > xmaxs[f] for f in range(i["ncols"])):
                continue
            on = [q for q in range(len(order)) if A[q][k]]
            need(on == [order.index(ap[k])], "%s: point %s is covered by rules %s, expected leaf %s", who, pts[k], on,
                 order.index(ap[k]))


def _leaves(tr, n):
    if tr.children_left[n] == -1:
        yield n
    else:
        yield from _leaves(tr, tr.children_left[n])
        yield from _leaves(tr, tr.children_right[n])


P["C16"] = (gen16, check16, None)


# ------------------------------------------------------------------------------------------------- C19
def gen19(r):
    i, _ = base(r, missing=0.0)
    n = r.choice([1, 4, 10])
    i["n"] = n
    i["ncols"] = r.randint(1, 3)
    i["names"] = r.choice([None, [["b", "a", "c"][k] for k in range(i["ncols"])],
                           ["f" + str(k) for k in range(i["ncols"])]])
    i["cls"] = r.choice(["reg", "cls"])
    k = r.randint(0, 8)
    bounds = lambda: r.randint(0, 3)

    def cond():
        c = rnd_cond(r, i["ncols"], 3, i["names"], False, False)
        c["mins"] = [bounds() for _ in c["idx"]]
        c["maxs"] = [b + bounds() for b in c["mins"]]
        return c

    i["rules"] = [dict(c=cond(), p=r.choice([0, 1, 2, 1.5, -1]) if i["cls"] == "reg" else r.choice(["a", "b"]),
                       crit=r.choice([0, 1, 2, 3, 0.5]), vec=[r.randint(0, 1) for _ in range(n)]) for _ in range(k)]
    if r.random() < 0.4 and i["rules"]:
        i["rules"].append(_json.loads(_json.dumps(r.choice(i["rules"]))))
    i["start"] = r.randint(0, len(i["rules"]))
    ops = []
    for _ in range(r.randint(1, 6)):
        o = r.choice(["sort", "sort", "sortby", "sortby", "append", "iadd", "add", "iaddrs", "addrs", "slice", "contains",
                      "badtype"])
        ops.append(dict(op=o, rev=r.random() < 0.5, by=r.choice(["criterion", "coverage", "nones"]), k=r.randint(0, 3),
                        sl=[r.choice([None, 0, 1, -2, 5]), r.choice([None, 2, -1, 7]), r.choice([None, 1, 2, -1])],
                        base=r.random() < 0.3, pick=r.random(), mut=r.choice(["none", "pred", "bmin", "bmax", "feat"])))
    i["ops"] = ops
    i["stack"] = False
    return i


import json as _json


def check19(i):
    apply_settings(i["settings"])
    cls = RegressionRule if i["cls"] == "reg" else ClassificationRule
    other_cls = ClassificationRule if i["cls"] == "reg" else RegressionRule

    def mk(d, c=cls):
        rule = c(mkcond(d["c"]), Activation(np.array(d["vec"], dtype=np.ubyte), to_file=i["settings"]["LOCAL"]))
        rule._prediction, rule._criterion = d["p"], d["crit"]
        spec[id(rule)] = d
        alive.append(rule)
        return rule

    spec, alive = {}, []
    pool = [mk(d) for d in i["rules"]]
    model = pool[: i["start"]]
    rest = pool[i["start"]:]
    rs = RuleSet(model, stack_activation=False)
    model = list(model)
    hist = [f"RuleSet of {[spec[id(q)]['c'] for q in model]}"]

    def check(l, m, extra=""):
        l = list(l)
        need(len(l) == len(m) and all(p is q for p, q in zip(l, m)), "after %s%s: rules are %s, expected %s", hist, extra,
             [pool.index(q) if any(q is z for z in pool) else str(q) for q in l],
             [str(q) for q in m])

    def pos(q):
        return [k for k, z in enumerate(model) if z is q][0]

    def ident(q):
        c = spec[id(q)]["c"]
        return (tuple(sorted(zip(cond_names(c), c["mins"], c["maxs"]))),)

    check(rs.rules, model)
    for d in i["ops"]:
        o = d["op"]
        hist.append({k: d[k] for k in ("op", "rev", "by", "k", "sl")})
        if o == "sort":
            if not model:
                rs.sort()
            else:
                rs.sort()
                key = lambda q: (len(q.condition), [x for x in q.features_names], list(q.condition.bmins) + list(q.condition.bmaxs))
                model = sorted(model, key=key)
        elif o == "sortby":
            rs.sort(d["by"], reverse=d["rev"]) if d["rev"] else rs.sort(d["by"])
            f = {"criterion": lambda q: spec[id(q)]["crit"], "coverage": lambda q: sum(spec[id(q)]["vec"]) / i["n"],
                 "nones": lambda q: sum(spec[id(q)]["vec"])}[d["by"]]
            model = sorted(model, key=f, reverse=d["rev"])
        elif o in ("append", "iadd", "add"):
            if not rest:
                continue
            q = rest.pop(0)
            if o == "append":
                rs.append(q)
            elif o == "iadd":
                rs += q
            else:
                old = rs
                rs = rs + q
                check(old.rules, model, " (left operand)")
            model = model + [q]
        elif o in ("iaddrs", "addrs"):
            l = [rest.pop(0) for _ in range(min(d["k"], len(rest)))]
            other = RuleSet(l)
            if o == "iaddrs":
                rs += other
                model = model + l
            else:
                old = rs
                rs = rs + other
                check(old.rules, model, " (left operand)")
                keys = [ident(q) for q in rs.rules]
                want = {ident(q) for q in model + l}
                need(len(keys) == len(want) and set(keys) == want, "after %s: sum has rules %s, expected %s", hist, keys,
                     want)
                need(all(any(q is z for z in model + l) for q in rs.rules), "after %s: sum has unknown rules", hist)
                model = list(rs.rules)
            check(other.rules, l, " (right operand)")
        elif o == "slice":
            sl = slice(*d["sl"])
            s = rs[sl]
            need(isinstance(s, RuleSet), "slice is a %s", type(s))
            check(s.rules, model[sl], " (slice)")
            for k in range(-len(model), len(model)):
                need(rs[k] is model[k], "after %s: rs[%d] is not the right rule", hist, k)
            need(len(rs) == len(model), "len is %d, expected %d", len(rs), len(model))
            need(all(p is q for p, q in zip(list(rs), model)), "iteration gives other rules")
        elif o == "contains":
            if not pool:
                continue
            src = pool[int(d["pick"] * len(pool))]
            e = _json.loads(_json.dumps(spec[id(src)]))
            if d["mut"] == "pred":
                e["p"] = (e["p"] + 7) if i["cls"] == "reg" else "zzz"
            elif d["mut"] == "bmin":
                e["c"]["mins"][0] -= 1
            elif d["mut"] == "bmax":
                e["c"]["maxs"][-1] += 1
            elif d["mut"] == "feat":
                if i["ncols"] <= len(e["c"]["idx"]):
                    continue
                f = [z for z in range(i["ncols"]) if z not in e["c"]["idx"]][0]
                e["c"]["idx"][0] = f
                if i["names"]:
                    e["c"]["names"][0] = i["names"][f]
            probe = mk(e)
            exp = any(ident(q) == ident(probe) and spec[id(q)]["p"] == e["p"] for q in model)
            need((probe in rs) is exp, "after %s: containment of %s predicting %r is %s, expected %s", hist, e["c"], e["p"],
                 probe in rs, exp)
        elif o == "badtype":
            if not pool or not model:
                continue
            q = mk(i["rules"][0], other_cls)
            expect_error(lambda: rs.append(q), "appending a rule of another type", (TypeError,))
            expect_error(lambda: rs.__iadd__(q), "adding a rule of another type", (TypeError,))
            expect_error(lambda: rs.__iadd__(RuleSet([q])), "adding a ruleset of another type", (TypeError,))
            expect_error(lambda: rs.append(3), "appending a number", (TypeError,))
            need(len(rs.rules) == len(model), "a failed addition changed the rules")
        check(rs.rules, model)


P["C19"] = (gen19, check19, None)
