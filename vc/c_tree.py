"""Contracts of ruleskit/utils/rule_utils.py: extraction of the rules of a decision tree.

A tree is given by its shape and the features it tests (enumerated, see the bound of each unit); thresholds, the extremes of the
features and the values of the nodes are arbitrary, subject to what holds of every fitted tree: a threshold lies strictly inside the
interval its node receives."""
import itertools
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import fakes
import c_rule as CR
from c_rule import RW, put, num, USES
from c_activation import guarded

UNDEF = -2


class Tree:
    """sklearn.tree._tree.Tree: parallel arrays over the nodes"""

    def __init__(self, feature, left, right, threshold, value):
        self.feature, self.children_left, self.children_right = VList(feature), VList(left), VList(right)
        self.threshold, self.value = VList(threshold), VList(value)


class Base:
    def __init__(self, tree, nfeat):
        self.tree_, self.n_features_in_ = tree, nfeat


class Classifier(Base):
    pass


class Regressor(Base):
    pass


def install():
    m = fakes.Mod("sklearn.tree")
    t = fakes.Mod("sklearn.tree._tree")
    t.TREE_UNDEFINED, t.TREE_LEAF = UNDEF, -1
    m.DecisionTreeClassifier, m.DecisionTreeRegressor, m._tree = Classifier, Regressor, t
    sk = fakes.Mod("sklearn")
    sk.tree = m
    fakes.MODULES.update({"sklearn": sk, "sklearn.tree": m, "sklearn.tree._tree": t})


def shapes(k):
    """binary trees with k inner nodes: None is a leaf, (left, right) an inner node"""
    if k == 0:
        return [None]
    return [(l, r) for j in range(k) for l in shapes(j) for r in shapes(k - 1 - j)]


def chain(sides):
    """one path: at every node but the last, the next node is on the given side"""
    t = (None, None)
    for s in reversed(sides):
        t = (t, None) if s == "L" else (None, t)
    return t


def build(c, shape, feats, nfeat, ncls):
    """numbers the nodes in preorder, as scikit-learn does; returns (Tree, xmins, xmaxs, leaves, branches)"""
    lo = [CR.fresh_float(c, f"xmin{j}", nan=False, inf=False) for j in range(nfeat)]
    hi = [CR.fresh_float(c, f"xmax{j}", nan=False, inf=False) for j in range(nfeat)]
    for a, b in zip(lo, hi):
        c.assume(a.val < b.val)
    feature, left, right, thr, value = [], [], [], [], []
    leaves, branches = [], []
    feats = list(feats)

    def walk(t, path):
        k = len(feature)
        feature.append(UNDEF), left.append(-1), right.append(-1), thr.append(fconst(-2.0))
        if ncls:
            value.append(VList([VList([CR.fresh_float(c, f"share{k}_{j}", nan=False, inf=False) for j in range(ncls)])]))
        else:
            value.append(VList([VList([CR.fresh_float(c, f"value{k}", nan=False, inf=False)])]))
        if t is None:
            leaves.append((k, dict(path)))
            return k
        f = feats.pop(0)
        x = CR.fresh_float(c, f"thr{k}", nan=False, inf=False)
        a, b = path.get(f, (lo[f], hi[f]))
        c.assume(z3.And(a.val < x.val, x.val < b.val))
        feature[k], thr[k] = f, x
        for side in (0, 1):
            p = dict(path)
            p[f] = (a, x) if side == 0 else (x, b)
            branches.append((k, p))
            (left if side == 0 else right)[k] = walk(t[side], p)
        return k
    walk(shape, {})
    return Tree(feature, left, right, thr, value), VList(lo), VList(hi), leaves, branches


def tree_unit(shape, feats, nfeat, leaf, kind, named, xsame="list"):
    def unit(c):
        install()
        W = RW(c, mods=("ruleskit.utils.rule_utils",))
        ncls = 3 if kind == "cla" else 0
        t, lo, hi, leaves, branches = build(c, shape, feats, nfeat, ncls)
        tree = (Classifier if kind == "cla" else Regressor)(t, nfeat)
        names = [f"N{j}" for j in range(nfeat)]
        classes = ["a", "b", "c"]
        kw = {}
        if named:
            kw["features_names"] = VList(list(names))
            if kind == "cla":
                kw["classes_names"] = VList(list(classes))
        if leaf:
            kw["get_leaf"] = True
        keep = [list(x.items) for x in (t.feature, t.children_left, t.children_right, t.threshold, lo, hi)]
        f = c.world.get("ruleskit.utils.rule_utils").extract_rules_from_tree
        ok, rs = guarded(c, "extracting the rules of a tree", lambda: f(tree, lo, hi, **kw))
        c.reach("returned")
        l = getattr(rs, "_rules", None)
        if not isinstance(l, VList) or not l.conc:
            raise Unsupported("what is extracted")
        want = leaves if leaf else branches
        rules = list(l.items)
        c.prove("extracting gives one rule per " + ("leaf" if leaf else "branch"), len(rules) == len(want))
        if len(rules) != len(want):
            raise PathEnd()
        cls = W.Cla if kind == "cla" else W.Reg
        for r, (node, path) in zip(rules, want):
            c.prove("extracting gives rules of the right type", type(r) is cls)
            h = r._condition
            xs = [h._features_indexes, h._features_names, h._bmins, h._bmaxs]
            if not all(isinstance(x, VList) and x.conc for x in xs):
                raise Unsupported("form of the condition")
            ix, nm, bl, bh = [list(x.items) for x in xs]
            if not all(isinstance(j, int) for j in ix) or not all(isinstance(x, str) for x in nm):
                raise Unsupported("features of the condition")
            c.prove("a rule tests exactly the features of its path, once each", sorted(ix) == sorted(path) and len(nm) == len(bl) == len(bh) == len(ix))
            if sorted(ix) != sorted(path) or not len(nm) == len(bl) == len(bh) == len(ix):
                raise PathEnd()
            c.prove("the names of the features are theirs", nm == [names[j] if named else f"X_{j}" for j in ix])
            for j, a, b in zip(ix, bl, bh):
                if not is_num(a) or not is_num(b):
                    raise Unsupported("bounds")
                c.prove("the lower bound of a feature is the largest threshold passed on the right, or the minimum", f_same(fv(a), path[j][0]))
                c.prove("the upper bound of a feature is the smallest threshold passed on the left, or the maximum", f_same(fv(b), path[j][1]))
            if not leaf:
                continue
            v = t.value.items[node].items[0].items
            ok, p = guarded(c, "reading the prediction", lambda: r.prediction)
            if kind == "reg":
                c.prove("a leaf rule predicts the value of the leaf", CR.same_value(p, v[0]) if p is not None else False)
            else:
                if isinstance(p, str) and p in classes and named:
                    j = classes.index(p)
                elif isinstance(p, int) and not named:
                    j = p
                else:
                    if isinstance(p, Vc):
                        raise Unsupported("class predicted")
                    c.prove("a leaf rule predicts one of the classes", False)
                    raise PathEnd()
                c.prove("a leaf rule predicts a most probable class of the leaf", z3.And(*[x.val <= v[j].val for x in v]) if 0 <= j < len(v) else False)
        cond = [r._condition for r in rules]
        c.prove("no two rules share a condition", all(a is not b for a, b in itertools.combinations(cond, 2)))
        c.prove("extracting leaves the tree and the extremes as they are", all(len(a.items) == len(b) and all(x is y for x, y in zip(a.items, b))
                for a, b in zip((t.feature, t.children_left, t.children_right, t.threshold, lo, hi), keep)))
    return unit


def units(prop):
    from main import Unit
    out = []
    if prop != "C16":
        return out
    F = ["ruleskit/utils/rule_utils.py: extract_rules_from_tree", "ruleskit/condition.py: HyperrectangleCondition.__init__",
         "ruleskit/condition.py: HyperrectangleCondition.__and__", "ruleskit/ruleset.py: RuleSet.append"]

    def add(shape, feats, nfeat, kinds, label, which=(True, False)):
        for kind, named in kinds:
            for leaf in which:
                out.append(Unit(f"extract_rules_from_tree, {label}, features {list(feats)}, {kind}{', named' if named else ''}, {'leaves' if leaf else 'all'}",
                                lambda: tree_unit(shape, feats, nfeat, leaf, kind, named), F, 2 + len(feats),
                                bounded="this shape of tree and these features; thresholds, extremes and values arbitrary",
                                assumptions=USES))
    allk = (("reg", False), ("reg", True), ("cla", False), ("cla", True))
    for k in (1, 2, 3):
        for s in shapes(k):
            for feats in itertools.product(range(2), repeat=k):
                if feats[0] == 1:
                    continue
                add(s, feats, 2, allk if k < 3 else (("reg", True), ("cla", False)) if sum(feats) in (0, 1) else (("reg", False),), f"shape {s}".replace("None", "."))
    for sides in itertools.product("LR", repeat=3):
        for feats in ((0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 1, 0), (1, 2, 0, 1)):
            add(chain(sides), feats, 3, (("reg", True),), "path " + "".join(sides))
    for s in shapes(4):
        for feats in itertools.product(range(2), repeat=3):
            add(s, (0,) + feats, 2, (("reg", True),), f"shape {s}".replace("None", "."))
    for sides in itertools.product("LR", repeat=4):
        for feats in itertools.product(range(2), repeat=4):
            add(chain(sides), (0,) + feats, 2, (("reg", True),), "path " + "".join(sides), (True,))
    return out
