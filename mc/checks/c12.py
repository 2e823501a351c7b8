"""C12: XGBoost and scikit-learn loading (and the scikit-learn export)."""
import itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import formats
from .c10 import verify, labelled, rotate, load_text, VALS, FEATS, norm

PROPERTY, LEVEL = "C12", "exploration"
RULE = ("every tree shape up to the leaf bound x node numberings x value alphabets x format variants, all pairs and triples of "
        "shapes, written independently, loaded and compared node by node and by scoring every document at, just below and just "
        "above every threshold (XGBoost branches on value < threshold); exports of every such ensemble as an estimator-like "
        "object and of every estimator fitted on every small labelled dataset; thresholds and outputs on a lattice of mantissas for every exponent of single precision; non-trivial: the ensemble has a split")
ASSUMPTIONS = ["XGBoost thresholds are single-precision numbers printed with enough digits", "no missing values",
               "thresholds and outputs are taken to single precision"]
T32 = [0.5, -1.0, 0.0, 2.0 ** 24, 2.0 ** 25, -2.0 ** 26, 3.0e38, -3.0e38, 1.5e-39, -1.4e-45, 1e-45, float(F32(0.1)), float(F32(1e10)),
       16777217.0, -0.0, 1.0, float(F32(123456.789))]


def g9(v):
    return "%.9g" % v


def less(tree, x):
    while tree[0] != "L":
        tree = tree[2] if F32(x[tree[0]]) < F32(tree[1]) else tree[3]
    return tree[1]


def xverify(ens, T, X, base, what):
    """Structure, and the < rule through real scoring: every tree's contribution for every document."""
    require(ens.n_trees == len(T) and ens.n_nodes == sum(2 * count_leaves(t) - 1 for t in T), "%s: sizes", what)
    require(bool(np.all(ens.trees_weight == 1)) and ens.learning_rate == 1 and (ens.base_score or 0) == base,
            "%s: weights, learning rate or base score (%r)", what, ens.base_score)

    def shape_eq(a, b):
        if b[0] == "L" or a[0] == "L":
            return a == ("L", float(F32(b[1]))) if b[0] == "L" else False
        return a[0] == b[0] and shape_eq(a[2], b[2]) and shape_eq(a[3], b[3])
    for i, t in enumerate(T):
        require(shape_eq(rebuild(ens, i), t), "%s: tree %d is %r, expected %r", what, i, rebuild(ens, i), t)
    y, part, leaves = ens.score(mkds(X), detailed=True)
    for i, t in enumerate(T):
        exp = [float(F32(less(t, x))) for x in X]
        got = ens.trees_nodes_value[leaves[:, i]].astype(float)
        bad = [j for j in range(len(X)) if got[j] != exp[j]]
        require(not bad, "%s: document %r reaches output %r of tree %d, expected %r (tree %r)", what,
                X[bad[0]].tolist() if bad else 0, got[bad[0]] if bad else 0, i, exp[bad[0]] if bad else 0, t)


def docs(T, nf, cap=200):
    return documents(T, nf, extra=(-3.4e38, 3.4e38, 0.0), cap=cap)


def tree_of(shape, k):
    n = n_leaves(shape)
    return label(shape, list(zip(rotate([0, 1, 2], k, n - 1), rotate(T32, k, n - 1))), rotate(VALS, k + 4, n))


def check_xgb(case, ctx):
    shps, k = case
    T = [tree_of(s, k + 7 * i) for i, s in enumerate(shps)]
    X = docs(T, 3)
    for order, stats, fmt, named, gaps in (("bfs", False, g9, False, 0), ("bfs", True, g9, True, 0), ("bfs", True, g9, False, 2),
                                           ("bfs", False, g9, False, 9), ("pre", False, formats.num, False, 0)):
        text = formats.xgboost(T, order, stats, fmt, named, gaps)
        ens = load_text(text, "XGBoost")
        xverify(ens, T, X, 0.5, "XGBoost %s" % order)
        ctx.evaluated()
    ens = load_text(text, "XGBoost", base_score=0.0)
    require(not ens.base_score, "an explicit base score of 0 is ignored")
    ens = load_text(text, "XGBoost", base_score=2.5)
    require(ens.base_score == 2.5, "an explicit base score is ignored")
    if len(T) > 1:
        xverify(load_text(text, "XGBoost", n_trees=1), T[:1], X, 0.5, "XGBoost limited to one tree")
    if any(s is not None for s in shps):
        ctx.nontrivial(case)


def xgb_cases(t):
    for s in all_shapes(6 if t else 5):
        for k in range(17):
            yield (s,), k
    for m in (2, 3) + ((4,) if t else ()):
        for c in itertools.product(all_shapes(4 if m == 2 else 3), repeat=m):
            for k in (0, 5, 9):
                yield c, k


def check_sk(case, ctx):
    shps, k = case
    T = [labelled(s, k + 5 * i) for i, s in enumerate(shps)]
    for base, lr, order in ((0.25, 0.1, "pre"), (None, None, "pre"), (-1.5, 1.0, "bfs"), (0.0, 0.05, "pre")):
        ens = load_text(formats.sklearn(T, base, lr, order), "ScikitLearn")
        verify(ens, T, [1.0] * len(T), "ScikitLearn", lr if lr is not None else 1, base or None)
        ctx.evaluated()
    if len(T) > 1:
        ens = load_text(formats.sklearn(T, base, lr, order), "ScikitLearn", n_trees=1)
        verify(ens, T[:1], [1.0], "ScikitLearn limited to one tree", lr, None)
    if any(s is not None for s in shps):
        ctx.nontrivial(case)


def sk_cases(t):
    for s in all_shapes(7 if t else 6):
        for k in range(12 if n_leaves(s) < 6 else 4):
            yield (s,), k
    for m in (2, 3) + ((4,) if t else ()):
        for c in itertools.product(all_shapes(4 if m == 2 else 3), repeat=m):
            for k in (0, 5):
                yield c, k


# ---------------------------------------------------------------- export
class FakeTree:
    def __init__(self, t):
        class A:
            pass
        nodes = flatten(t)
        self.tree_ = a = A()
        a.feature = np.array([-2 if n["t"][0] == "L" else n["t"][0] for n in nodes])
        a.threshold = np.array([-2.0 if n["t"][0] == "L" else n["t"][1] for n in nodes])
        a.children_left = np.array([n["l"] for n in nodes])
        a.children_right = np.array([n["r"] for n in nodes])
        a.value = np.array([[[n["t"][1] if n["t"][0] == "L" else 9.0]] for n in nodes], dtype=float)


class Obj:
    pass


def fake_model(T, base, lr, kind):
    m = Obj()
    m.estimators_ = np.empty((len(T), 1), dtype=object)
    for i, t in enumerate(T):
        m.estimators_[i, 0] = FakeTree(t)
    m.learning_rate = lr
    m.init_ = Obj()
    setattr(m.init_, kind, base)
    return m


def export(model):
    from rankeval.model import ProxyScikitLearn, RTEnsemble
    p = scratch(".sk")
    try:
        ProxyScikitLearn.export_scikit_model(model, p)
        return RTEnsemble(p, format="ScikitLearn")
    finally:
        os.unlink(p)


def check_export(case, ctx):
    shps, k = case
    T = [labelled(s, k + 5 * i) for i, s in enumerate(shps)]
    for base, lr, kind in ((0.25, 0.1, "mean"), (1e-7, 1e-8, "quantile"), (float(F32(1.0) / F32(3.0)), 1.0 / 3, "mean"), (-12345.678901, 2, "mean")):
        ens = export(fake_model(T, base, lr, kind))
        require(abs(ens.learning_rate - lr) <= 1e-7 * abs(lr) and abs(ens.base_score - base) <= 1e-7 * abs(base),
                "exported learning rate %r as %r, base score %r as %r", lr, ens.learning_rate, base, ens.base_score)
        ens.learning_rate, ens.base_score = 1, None
        verify(ens, T, [1.0] * len(T), "export")
        ctx.evaluated()
    if any(s is not None for s in shps):
        ctx.nontrivial(case)


def export_cases(t):
    for s in all_shapes(6 if t else 5):
        for k in range(12):
            yield (s,), k
    for c in itertools.product(all_shapes(4), repeat=2):
        yield c, len(str(c)) % 7


def check_fit(case, ctx):
    """A fitted estimator, exported and loaded, predicts what the estimator predicts."""
    from sklearn.ensemble import GradientBoostingRegressor
    col, ys, kw = case
    X = np.array(col, dtype=F32)
    for y in ys:
        m = GradientBoostingRegressor(n_estimators=2, max_depth=2, random_state=0, **kw)
        m.fit(X.astype(np.float64), np.array(y, dtype=float))
        ens = export(m)
        D = np.vstack([X, X * 0.999, X * 1.001, X[::-1] + 0.3]).astype(F32)
        exp = m.predict(D.astype(np.float64))
        got = ens.score(mkds(D))
        require(np.allclose(got, exp, rtol=2e-6, atol=2e-6 * max(1.0, float(np.abs(exp).max()))),
                "fitted on %r -> %r (%r): scores %r, estimator predicts %r", col, y, kw, got[:4], exp[:4])
        ctx.evaluated()
        if len(set(y)) > 1:
            ctx.nontrivial((case[0], y, str(kw)))


def fit_cases(t):
    cols = [((1,), (2,), (3,), (4,)), ((0.1, 5), (0.2, 4), (0.2, 6), (0.3, 5)),
            ((1e-7, 3), (2e-7, 1), (3e-7, 3), (5e-7, 2)), ((1e6, -1), (1.0000625e6, -2), (2e6, -1), (-3e6, 0))]
    for col in cols:
        ys = list(itertools.product((0, 1, 3), repeat=4)) if t else list(itertools.product((0, 1), repeat=4)) + [(0, 1, 3, 1), (3, 0, 1, 0), (1, 3, 3, 0)]
        for kw in ({}, {"learning_rate": 1.0 / 3}, {"loss": "absolute_error"}):
            for i in range(0, len(ys), 4):
                yield col, ys[i:i + 4], kw


def check_ladder(case, ctx):
    form, kind, n = case
    if kind == "trees":
        s = all_shapes(4)
        T = [tree_of(s[(i * 5 + 1) % len(s)], i) for i in range(n)]
    elif kind == "complete":
        T = [complete(n), complete(1), complete(2)]
    else:
        T = [chain(n, kind == "left")]
    X = docs(T[:4], 3, 40)
    if form == "XGBoost":
        xverify(load_text(formats.xgboost(T, fmt=g9), form), T, X, 0.5, "%s %s %d" % case)
    else:
        verify(load_text(formats.sklearn(T, 0.5, 0.5), form), T, [1.0] * len(T), "%s %s %d" % case, 0.5, 0.5)
        if n <= 300:
            e = export(fake_model(T, 0.5, 0.5, "mean"))
            verify(e, T, [1.0] * len(T), "export of %s %d" % case[1:], 0.5, 0.5)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_bits(case, ctx):
    form, e, t = case
    T = stumps(e, t)
    if form == "XGBoost":
        for i in range(0, len(T), 25):
            part = T[i:i + 25]
            v = np.array([x[1] for x in part], dtype=F32)
            X = np.repeat(np.concatenate([v, np.nextafter(v, F32(-np.inf)), np.nextafter(v, F32(np.inf))])[:, None], 3, axis=1)
            X = X[np.isfinite(X[:, 0])]
            for fmt in (g9, formats.num):
                xverify(load_text(formats.xgboost(part, fmt=fmt), form), part, X, 0.5, "XGBoost load of values with exponent %d" % e)
                ctx.evaluated()
    else:
        lr = abs(T[0][1]) or 1.0
        verify(load_text(formats.sklearn(T, T[1][1], lr), form), T, [1.0] * len(T), "ScikitLearn load of values with exponent %d" % e, lr, T[1][1] or None)
        ens = export(fake_model(T, T[1][1], lr, "mean"))
        require(F32(ens.learning_rate) == F32(lr) and F32(ens.base_score or 0) == F32(T[1][1]), "exported learning rate %r as %r, base score %r as %r",
                lr, ens.learning_rate, T[1][1], ens.base_score)
        ens.learning_rate, ens.base_score = 1, None
        verify(ens, T, [1.0] * len(T), "export of values with exponent %d" % e)
        ctx.evaluated(2)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    lad = LADDER if t else SHORT_LADDER
    return [Unit("xgboost", lambda: xgb_cases(t), check_xgb),
            Unit("sklearn", lambda: sk_cases(t), check_sk),
            Unit("export", lambda: export_cases(t), check_export),
            Unit("fitted", lambda: fit_cases(t), check_fit),
            Unit("exponents", [(f, e, t) for f in ("XGBoost", "ScikitLearn") for e in range(255)], check_bits),
            Unit("ladder", [(f, k, n) for f in ("XGBoost", "ScikitLearn") for k in ("trees", "left", "right") for n in lad
                            if n <= (1100 if k == "trees" else 300)]
                 + [(f, "complete", n) for f in ("XGBoost", "ScikitLearn") for n in list(range(1, 13)) + [15, 16]]
                 + [(f, "trees", n) for f in ("XGBoost", "ScikitLearn") for n in (GIANT if t else [33000])], check_ladder)]
