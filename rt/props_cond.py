"""C05 C06 C07: conditions."""
from common import *
from props_act import expect_error, short
from copy import copy, deepcopy

P = {}
NAMES = ["a", "b", "c", "d", "B", "z10", "z9", "é", "x y", "X_1"]


def rnd_names(r, ncols):
    return r.sample(NAMES, ncols)


# ------------------------------------------------------------------------------------------------- C05
def gen05(r):
    ncols = r.randint(1, 5)
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 40])
    if r.random() < 0.02:
        n = 3000
    names = rnd_names(r, ncols) if r.random() < 0.6 else None
    c = rnd_cond(r, ncols, kmax=5, names=names)
    xs = rnd_xs(r, n, ncols, r.choice([0, 0.1, 0.4]))
    dtype = "float"
    if r.random() < 0.2:
        xs = [[r.randint(-1, 4) for _ in range(ncols)] for _ in range(n)]
        dtype = r.choice(["int64", "int32", "int8"])
    cols = r.sample(range(ncols), ncols) if r.random() < 0.7 else list(range(ncols))
    return dict(cond=c, xs=xs, ncols=ncols, dtype=dtype, kind=r.choice(["array", "frame"]), cols=cols,
                extra=r.random() < 0.3, index=r.choice(["range", "rev", "str", "dup"]), absent=r.random() < 0.08,
                sort=r.choice(["index", "name"]), via=r.choice(["cond", "cond", "rule"]), settings=rnd_settings(r),
                allnames=names)


def check05(i):
    apply_settings({**i["settings"], "SORT": i["sort"]})
    c = mkcond(i["cond"])
    rows = deca(i["xs"])
    n, m = len(rows), i["ncols"]
    exp = [met(i["cond"], row) for row in rows]
    inverted = any(a > b for a, b in zip(deca(i["cond"]["mins"]), deca(i["cond"]["maxs"])))
    who = f"condition {i['cond']} sort={i['sort']} on {i['kind']} {short(i['xs'])} dtype={i['dtype']}"
    arr = np.array(rows, dtype=i["dtype"]).reshape(n, m)
    if i["kind"] == "array":
        xs = arr
        if i["absent"]:
            if max(i["cond"]["idx"]) == 0:
                return
            xs = arr[:, : max(i["cond"]["idx"])]
    else:
        allnames = i["allnames"] or ["X_" + str(k) for k in range(m)]
        xs = pd.DataFrame({allnames[k]: arr[:, k] for k in i["cols"]}, index=mkindex(i["index"], n))
        if i["extra"]:
            xs["extra col"] = np.zeros(n)
        if i["absent"]:
            xs = xs.drop(columns=[cond_names(i["cond"])[-1]])
            if len(xs.columns) == 0:
                return
        who += f" columns {list(xs.columns)}"
    before = xs.copy()
    if i["absent"]:
        if not inverted:
            expect_error(lambda: c.evaluate(xs), who + " (feature absent)")
        return
    if i["via"] == "cond":
        got = c.evaluate(xs)
        need(isinstance(got, np.ndarray), "%s returned a %s", who, type(got))
    else:
        if n == 0:
            return
        got = RegressionRule(c).evaluate_activation(xs).raw
    need(arr_eq(got, exp), "%s gives %s, expected %s", who, short(got), exp)
    bv, xv = np.asarray(before), np.asarray(xs)
    same = (bv == xv) | ((bv != bv) & (xv != xv))
    need(bool(np.all(same)) and before.shape == xs.shape, "%s modified the features", who)
    if i["kind"] == "frame":
        need(list(before.columns) == list(xs.columns) and before.index.equals(xs.index), "%s modified the table", who)
    got = c.evaluate(xs)
    need(arr_eq(got, exp), "%s gives %s the second time, expected %s", who, short(got), exp)


def mkindex(kind, n):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "rev":
        return pd.Index(list(range(n))[::-1], dtype="int64")
    if kind == "str":
        return pd.Index([f"r{k}" for k in range(n)], dtype=object)
    return pd.Index([0] * n, dtype="int64")


P["C05"] = (gen05, check05, None)


# ------------------------------------------------------------------------------------------------- C06
def gen06(r):
    ncols = r.randint(1, 5)
    names = rnd_names(r, ncols) if r.random() < 0.6 else None
    a, b = rnd_cond(r, ncols, 4, names), rnd_cond(r, ncols, 4, names)
    kind = r.choice(["cond", "cond", "cond", "cond", "rule", "setter", "clash", "shift"])
    return dict(kind=kind, a=a, b=b, ncols=ncols, xs=rnd_xs(r, 12, ncols, 0.05), sorta=r.choice(["index", "name"]),
                sortb=r.choice(["index", "name"]), sort=r.choice(["index", "name"]), settings=rnd_settings(r),
                which=r.choice(["bmins", "bmaxs", "both"]), asstr=r.random() < 0.3, names=names,
                new=rnd_cond(r, ncols, names=names, idx=a["idx"], infs=False), r1=r.randint(0, 5), r2=r.randint(0, 5))


def state(c):
    return sorted(zip(list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs)))


def order(c):
    return list(zip(list(c.features_names), list(c.features_indexes), list(c.bmins), list(c.bmaxs)))


def spec_state(s):
    return sorted(zip(cond_names(s), s["idx"], deca(s["mins"]), deca(s["maxs"])))


def check06(i):
    ncols = i["ncols"]
    apply_settings({**i["settings"], "SORT": i["sorta"]})
    a = mkcond(i["a"])
    apply_settings({**i["settings"], "SORT": i["sortb"]})
    bspec = dict(i["b"])
    if i["kind"] == "clash":  # a different feature at a position of a
        k = i["r2"] % len(bspec["idx"])
        pos = i["a"]["idx"][i["r1"] % len(i["a"]["idx"])]
        if pos in bspec["idx"] and bspec["idx"].index(pos) != k:
            return
        bspec = dict(bspec, idx=list(bspec["idx"]), names=list(cond_names(bspec)))
        bspec["idx"][k], bspec["names"][k] = pos, "other name"
    if i["kind"] == "shift":  # a shared feature with another position
        sh = [n for n in cond_names(bspec) if n in cond_names(i["a"])]
        if not sh:
            return
        bspec = dict(bspec, idx=list(bspec["idx"]), names=list(cond_names(bspec)))
        bspec["idx"][bspec["names"].index(sh[i["r1"] % len(sh)])] = ncols + 3
    b = mkcond(bspec)
    apply_settings({**i["settings"], "SORT": i["sort"]})
    sa, sb = order(a), order(b)
    who = f"{i['a']} & {bspec} (sort {i['sort']})"
    rows = deca(i["xs"])
    arr = np.array(rows, dtype=float).reshape(len(rows), ncols)
    allnames = i["names"] or ["X_" + str(k) for k in range(ncols)]
    frame = pd.DataFrame(arr, columns=allnames)
    if i["kind"] in ("clash", "shift"):
        expect_error(lambda: a & b, who)
        need(order(a) == sa and order(b) == sb, "failed %s changed an operand", who)
        return
    if i["kind"] == "setter":
        new = i["new"]
        mins = {n: x for n, x in zip(cond_names(new), deca(new["mins"]))}
        maxs = {n: x for n, x in zip(cond_names(new), deca(new["maxs"]))}
        cur = {n: (p, q) for n, _, p, q in order(a)}
        f = lambda l: str(l) if i["asstr"] else l
        if i["which"] in ("bmins", "both"):
            a.bmins = f([mins[n] for n in a.features_names])
            cur = {n: (mins[n], q) for n, (p, q) in cur.items()}
        if i["which"] in ("bmaxs", "both"):
            a.bmaxs = f([maxs[n] for n in a.features_names])
            cur = {n: (p, maxs[n]) for n, (p, q) in cur.items()}
        spec = dict(idx=list(a.features_indexes), mins=enca([cur[n][0] for n in a.features_names]),
                    maxs=enca([cur[n][1] for n in a.features_names]), names=list(a.features_names))
        exp = [met(spec, row) for row in rows]
        for xs in (arr, frame):
            got = a.evaluate(xs)
            need(arr_eq(got, exp), "%s after setting %s to %s gives %s on %s, expected %s", i["a"], i["which"], cur,
                 short(got), short(rows), exp)
        need(state(a) == sorted((n, k, *cur[n]) for n, k in zip(a.features_names, a.features_indexes)),
             "setters changed the features")
        return
    exp = [met(i["a"], row) & met(i["b"], row) for row in rows]
    if i["kind"] == "rule":
        apply_settings({**i["settings"], "SORT": i["sort"]})
        cls = RegressionRule if i["r1"] % 2 else ClassificationRule
        ra = cls(a, Activation(np.array([met(i["a"], row) for row in rows]), to_file=i["r1"] < 3))
        rb = cls(b, Activation(np.array([met(i["b"], row) for row in rows]), to_file=i["r2"] < 3))
        rc = ra & rb
        need(isinstance(rc, cls), "%s of rules is a %s", who, type(rc))
        need(arr_eq(rc.activation, exp), "activation of rule %s is %s, expected %s", who, short(rc.activation), exp)
        need(arr_eq(ra.activation, [met(i["a"], row) for row in rows]), "rule %s changed its operand", who)
        c = rc.condition
    else:
        c = a & b
    for xs in (arr, frame):
        got = c.evaluate(xs)
        need(arr_eq(got, exp), "%s gives %s on %s, expected %s", who, short(got), short(rows), exp)
    pos = {**dict(zip(cond_names(i["a"]), i["a"]["idx"])), **dict(zip(cond_names(i["b"]), i["b"]["idx"]))}
    need(sorted(c.features_names) == sorted(pos), "%s has features %s", who, c.features_names)
    need(all(pos[n] == k for n, k in zip(c.features_names, c.features_indexes)) and
         len(c.features_indexes) == len(pos), "%s has positions %s for %s", who, c.features_indexes, c.features_names)
    need(order(a) == sa and order(b) == sb, "%s changed an operand", who)
    # the result does not share its lists with an operand
    c.bmins[0] = -77
    need(order(a) == sa and order(b) == sb, "the result of %s shares its bounds with an operand", who)


P["C06"] = (gen06, check06, None)

# ------------------------------------------------------------------------------------------------- C07
HC = [-1, -2, 0, 2 ** 61 - 1, 1, 2 ** 61, 1.0, 0.5, 3, 2, -1.0, -2.0]


def nudge(r, x):
    """a bound that differs as little as possible, or by a little"""
    y = float(x)
    return r.choice([float(np.nextafter(y, np.inf)), float(np.nextafter(y, -np.inf)), y + 1e-13, y * (1 + 1e-14), y + 1e-7, y * 1.0000001])


def gen07(r):
    k = r.randint(1, 5)
    names = r.sample(NAMES, k)
    idx = r.sample(range(9), k)
    pool = HC if r.random() < 0.7 else HC + [r.uniform(-5, 5), r.uniform(-1, 1) * 1e-9, r.uniform(-1, 1) * 1e12, 1e-300, 2.0 ** 60]
    mins = [r.choice(pool) for _ in range(k)]
    maxs = [r.choice(pool) for _ in range(k)]
    for j in range(k):
        if mins[j] > maxs[j] and r.random() < 0.8:
            mins[j], maxs[j] = maxs[j], mins[j]
    a = dict(idx=idx, mins=mins, maxs=maxs, names=names)
    p = r.sample(range(k), k)
    b = dict(idx=[idx[q] for q in p], mins=[mins[q] for q in p], maxs=[maxs[q] for q in p], names=[names[q] for q in p])
    x = r.random()
    j = r.randrange(k)
    if x < 0.15:
        b["mins"] = list(b["mins"])
        b["mins"][j] = r.choice(HC)
    elif x < 0.25:
        b["mins"][j] = nudge(r, b["mins"][j])
    elif x < 0.35:
        b["maxs"][j] = nudge(r, b["maxs"][j])
    elif x < 0.45:
        b["maxs"][j] = r.choice(HC)
    elif x < 0.5:
        b["names"][j] = "new"
    elif x < 0.55 and k > 1:
        for q in b:
            b[q] = b[q][:-1]
    elif x < 0.6 and k > 1:
        b["mins"] = b["mins"][1:] + b["mins"][:1]
    elif x < 0.65 and k > 1:
        b["names"] = b["names"][1:] + b["names"][:1]
    elif x < 0.7:
        b["idx"] = [q + 10 for q in b["idx"]]
    return dict(kind=r.choice(["eq", "eq", "eq", "sort", "reject"]), a=a, b=b, sa=r.choice(["index", "name"]),
                sb=r.choice(["index", "name"]), how=r.choice(["dupidx", "dupname", "min", "max", "name", "minlong"]),
                noidx=r.random() < 0.2, j=j, setter=r.random() < 0.25)


def check07(i):
    apply_settings({"SORT": i["sa"]})
    if i["kind"] == "reject":
        s = {k: list(v) for k, v in i["a"].items()}
        h = i["how"]
        if h in ("dupidx", "dupname"):
            q = "idx" if h == "dupidx" else "names"
            for key in s:
                s[key].append(s[key][i["j"]])
            if h == "dupidx":
                s["names"][-1] = "unique"
            else:
                s["idx"][-1] = 99
        elif h == "min":
            s["mins"] = s["mins"][:-1]
        elif h == "max":
            s["maxs"] = s["maxs"] + [5]
        elif h == "minlong":
            s["mins"] = s["mins"] + [5]
        else:
            s["names"] = s["names"] + ["extra"]
        expect_error(lambda: mkcond(s), f"building a condition from {s}")
        return
    a = mkcond(i["a"])
    need(state(a) == spec_state(i["a"]), "condition %s holds %s", i["a"], order(a))
    o = order(a)
    key = (lambda t: t[1]) if i["sa"] == "index" else (lambda t: t[0])
    need([key(t) for t in o] == sorted(key(t) for t in o), "condition %s is not sorted by %s: %s", i["a"], i["sa"], o)
    if i["kind"] == "sort":
        apply_settings({"SORT": i["sb"]})
        a.sort()
        need(state(a) == spec_state(i["a"]), "sorting condition %s gives %s", i["a"], order(a))
        o = order(a)
        key = (lambda t: t[1]) if i["sb"] == "index" else (lambda t: t[0])
        need([key(t) for t in o] == sorted(key(t) for t in o), "sorted condition is not sorted by %s: %s", i["sb"], o)
        c = HyperrectangleCondition(features_indexes=list(i["a"]["idx"]), bmins=list(i["a"]["mins"]), bmaxs=list(
            i["a"]["maxs"]), features_names=list(i["a"]["names"]), sort=False)
        need(order(c) == list(zip(cond_names(i["a"]), i["a"]["idx"], deca(i["a"]["mins"]), deca(i["a"]["maxs"]))),
             "unsorted condition holds %s", order(c))
        need(c == a and hash(c) == hash(a), "sorting changed equality of %s", i["a"])
        return
    apply_settings({"SORT": i["sb"]})
    b = mkcond(i["b"])
    tri = lambda s: set(zip(cond_names(s), s["mins"], s["maxs"]))
    exp = tri(i["a"]) == tri(i["b"])
    who = f"{i['a']} and {i['b']}"
    need((a == b) is exp, "conditions %s compare %s, expected %s", who, a == b, exp)
    need((a != b) is (not exp), "conditions %s: != is %s", who, a != b)
    need(not exp or hash(a) == hash(b), "equal conditions %s have different hashes", who)
    for ca, cb in ((RegressionRule, RegressionRule), (RegressionRule, ClassificationRule)):
        ra, rb = ca(a), cb(b)
        ra._prediction = 3
        need((ra == rb) is exp, "rules on %s compare %s, expected %s", who, ra == rb, exp)
        need(not exp or hash(ra) == hash(rb), "equal rules on %s have different hashes", who)
        need(not (ra == a) and not (ra == 3), "a rule equals something else")
    if i.get("setter") and exp:
        m = list(a.bmins)
        m[0] = m[0] - 1 if m[0] - 1 != m[0] else m[0] / 2
        a.bmins = m
        need(not (a == b) and a != b, "condition %s equals the one with minimums %s", i["b"], m)
        b.bmins = [m[0] if n == a.features_names[0] else x for n, x in zip(b.features_names, b.bmins)]
        need(a == b and hash(a) == hash(b), "conditions on %s differ after the same change of bounds", who)
        return
    need((a in [b]) is exp and (len({a, b}) == (1 if exp else 2)), "set of conditions %s has the wrong size", who)


P["C07"] = (gen07, check07, None)
