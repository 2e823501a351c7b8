"""C40: model performance, tree-wise performance and average contribution."""
import itertools
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C40", "exploration"
RULE = ("every list of up to 3 ensembles of 1..N trees (equal and different sizes) x every step up to beyond the largest ensemble x 1-2 datasets x "
        "1-3 metrics (real metrics and fingerprint metrics that change with any score), cached or not, with weights, learning rates and base scores; "
        "ladders over documents (to millions), queries and trees; every cell compared with the metric of the reference scores of the prefix; non-trivial: cells of different prefixes differ")
ASSUMPTIONS = ["leaf outputs are dyadic so that prefix sums are exact in single precision",
               "cells past the first k that covers a whole ensemble may be undefined or the whole ensemble's value",
               "the base score counts with the first tree"]
W = (1.0, -0.5, 2.0, 0.25, -1.0)


def build(spec, i):
    n, lr, base = spec
    ss = all_shapes(3)
    trees = [auto(ss[(t * 3 + i + 1) % len(ss)], t + i, scale=0.125 * (t + 1)) for t in range(n)]
    w = [W[(t + i) % 5] for t in range(n)]
    return ensemble(trees, w, lr, base, "pre" if i % 2 else "bfs", "m%d" % i), trees, w, lr, base or 0


def data(j):
    from .tables import indexed
    sizes = ((2, 1, 3), (4,), (1, 2), (1, 1, 1, 1))[j]
    n = sum(sizes)
    X = np.array([[((i * 5 + j) % 7) * 0.5 - 1.25, ((i * 3 + j) % 4) * 1.0 - 1.5, (i % 3) * 1.5 - 0.5] for i in range(n)], dtype=np.float32)
    ds = mkds(X, [(i * 2 + j) % 3 for i in range(n)], sizes)
    ds.name = "d%d" % j
    return ds


def metrics(k):
    from .tables import Fingerprint
    from rankeval.metrics import MSE, RMSE
    return [Fingerprint("f1"), MSE(), Fingerprint("f2", 2.0), RMSE()][:k] if k < 5 else [RMSE(), Fingerprint("f3", 3.0)]


def prefix_scores(m, ds, k):
    _, trees, w, lr, base = m
    return (partial(trees[:k], w[:k], ds.X).sum(axis=1) * lr + base).astype(np.float32)


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-5 * max(1.0, abs(float(b)))


def check(case, ctx):
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance, tree_wise_average_contribution
    from .tables import Frozen, labelled
    specs, dsi, nm, steps, cache = case
    ms = [build(s, i) for i, s in enumerate(specs)]
    models, dss, mets = [m[0] for m in ms], [data(j) for j in dsi], metrics(nm)
    fz = Frozen(dss, models)
    p = model_performance(dss, models, mets, cache=cache)
    labelled(p, [("dataset", dss), ("model", models), ("metric", mets)], "model_performance")
    full = {}
    for (i, ds), (j, m), (l, x) in itertools.product(enumerate(dss), enumerate(ms), enumerate(metrics(nm))):
        n = m[0].n_trees
        for k in range(1, n + 1):
            full[i, j, l, k] = x.eval(ds, prefix_scores(m, ds, k))[0]
        require(near(p.values[i, j, l], full[i, j, l, n]), "model_performance of dataset %d, model %d, metric %d: %r, expected %r", i, j, l, p.values[i, j, l], full[i, j, l, n])
        ctx.evaluated()
    require(near(p.sel(dataset=dss[-1], model=models[-1], metric=mets[-1]).values, p.values[-1, -1, -1]), "selection by object")
    c = tree_wise_average_contribution(dss, models, cache=cache)
    N = max(m.n_trees for m in models)
    labelled(c, [("dataset", dss), ("model", models), ("trees", [float(i) for i in range(N)])], "tree_wise_average_contribution")
    for (i, ds), (j, m) in itertools.product(enumerate(dss), enumerate(ms)):
        part = partial(m[1], m[2], ds.X) * m[3]
        part[:, 0] += m[4]
        want = np.abs(part).mean(axis=0)
        for t in range(N):
            got = c.values[i, j, t]
            if t < len(want):
                require(near(got, want[t]), "average contribution of tree %d of model %d on dataset %d: %r, expected %r", t, j, i, got, want[t])
            else:
                require(np.isnan(got) or got == 0, "average contribution of a tree that does not exist: %r", got)
        ctx.evaluated()
    if len(set(full.values())) > 1:
        ctx.nontrivial(case)
    for step in steps:
        t = tree_wise_performance(dss, models, mets, step=step, cache=cache)
        ks = list(range(step, N + 1, step))
        if not ks or ks[-1] != N:
            ks.append(N)
        labelled(t, [("dataset", dss), ("model", models), ("k", [float(k) for k in ks]), ("metric", mets)], "tree_wise_performance(step=%d)" % step)
        for i, j, l in itertools.product(range(len(dss)), range(len(ms)), range(len(mets))):
            n, covered = models[j].n_trees, False
            for a, k in enumerate(ks):
                got, want = t.values[i, j, a, l], full[i, j, l, min(k, n)]
                require(near(got, want) or covered and np.isnan(got),
                        "tree_wise_performance(step=%d) of dataset %d, model %d (%d trees), metric %d at k=%d: %r, expected %r", step, i, j, n, l, k, got, want)
                covered = covered or k >= n
            ctx.evaluated()
    fz.check("an effectiveness analysis")


def cases(t):
    m = 12 if t else 7
    for n in range(1, m + 1):
        yield ((n, 1, None),), (0,), 2, tuple(range(1, n + 3)), False
    for a, b in itertools.product(range(1, m), repeat=2):
        yield ((a, 1, None), (b, 0.5, 0.25)), (0, 1), 3, tuple(range(1, max(a, b) + 2)), (a + b) % 2 == 0
    for a, b, c in itertools.product(range(1, 5 if t else 4), repeat=3):
        yield ((a, 1, 0.5), (b, 2, None), (c, 0.25, -1.0)), (2,), 1, (1, 2, 3, 7), True
    for dsi in itertools.chain(itertools.permutations(range(4), 2), itertools.permutations(range(4), 3)):
        for nm in range(1, 6):
            yield ((3, 1, None), (2, 1, 0.5)), dsi, nm, (1, 2), nm % 2 == 0
    for n in [10, 11, 16, 20, 21, 30] + ([33, 64, 65, 100, 101, 128, 129, 200, 1000] if t else [64, 101]):
        yield ((n, 1, None), (n // 2, 1, None)), (0,), 2, (1, 3, 7, 10, n - 1, n, n + 1), False


def check_large(case, ctx):
    """Many documents, queries or trees."""
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance, tree_wise_average_contribution
    from rankeval.metrics import MSE
    from .tables import First, Frozen
    kind, n = case
    m = build((n if kind == "trees" else 3, 0.5, 0.25), 1)
    docs = n if kind != "trees" else 20
    X = np.stack([(np.arange(docs) * 5 % 7) * 0.5 - 1.25, (np.arange(docs) * 3 % 4) * 1.0 - 1.5, (np.arange(docs) % 3) * 1.5 - 0.5], axis=1).astype(np.float32)
    y = (np.arange(docs) * 2 % 3).astype(np.float32)
    ds = mkds(X, y, (1,) * docs if kind == "queries" else (docs,))
    fz = Frozen([ds], [m[0]])
    mets, step = [MSE(), First("f")], max(1, m[0].n_trees // 2 - 1)
    part = partial(m[1], m[2], X).astype(float) * m[3]
    part[:, 0] += m[4]
    at = np.cumsum(part, axis=1)
    heads = np.arange(docs) if kind == "queries" else [0]
    want = lambda k: (((y - at[:, k - 1]) ** 2).mean(), at[heads, k - 1].mean())
    close = lambda a, b: abs(a - b) <= 1e-4 * max(1.0, abs(b))
    p = model_performance([ds], [m[0]], mets).values[0, 0]
    t = tree_wise_performance([ds], [m[0]], mets, step=step)
    c = tree_wise_average_contribution([ds], [m[0]]).values[0, 0]
    for l in (0, 1):
        require(close(p[l], want(len(m[1]))[l]), "model_performance of %s %d, metric %d: %r, expected %r", kind, n, l, p[l], want(len(m[1]))[l])
        for k, got in zip(t.coords["k"].values, t.values[0, 0, :, l]):
            require(close(got, want(int(k))[l]), "tree_wise_performance of %s %d at %d: %r, expected %r", kind, n, k, got, want(int(k))[l])
    require(len(c) == len(m[1]) and np.allclose(c, np.abs(part).mean(axis=0), rtol=1e-4, atol=1e-5), "average contributions of %s %d: %r", kind, n, c[:5])
    fz.check("an analysis")
    ctx.evaluated(3)
    ctx.nontrivial(case)


def check_millions(case, ctx):
    """So many documents that their sums need more digits than single precision has."""
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance, tree_wise_average_contribution
    from rankeval.metrics import MSE, RMSE
    n, nt, values = case
    trees = [(0, 0.5, ("L", values[i % 2]), ("L", values[(i + 1) % 3])) for i in range(nt)]
    X = np.zeros((n, 1), dtype=np.float32)
    X[n // 3:] = 1
    ds = mkds(X, (np.arange(n) * 3 // n).astype(np.float32) / 4, None)
    m = ensemble(trees)
    part = [[float(np.float32(t[2 + r][1])) for t in trees] for r in (0, 1)]
    c = tree_wise_average_contribution([ds], [m]).values[0, 0]
    share = (n // 3 / float(n), 1 - n // 3 / float(n))
    want = [share[0] * abs(part[0][i]) + share[1] * abs(part[1][i]) for i in range(nt)]
    require(len(c) == nt and np.allclose(c, want, rtol=1e-5), "average contributions on %d documents: %r, expected %r", n, c, want)
    t = tree_wise_performance([ds], [m], [MSE(), RMSE()], step=1).values[0, 0]
    p = model_performance([ds], [m], [MSE(), RMSE()]).values[0, 0]
    y = np.asarray(ds.y, dtype=float)
    for k in range(1, nt + 1):
        s = np.where(X[:, 0] > 0, sum(part[1][:k]), sum(part[0][:k]))
        mse = ((s - y) ** 2).mean()
        for got in [t[k - 1]] + [p] * (k == nt):
            require(np.allclose(got, [mse, mse ** 0.5], rtol=1e-4), "MSE, RMSE of %d trees on %d documents: %r, expected %r", k, n, got, [mse, mse ** 0.5])
        ctx.evaluated()
    ctx.nontrivial(case)


def check_real(case, ctx):
    """The ranking metrics, on scores without ties."""
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance
    from rankeval.metrics import DCG, NDCG, MAP, ERR, Precision, Kendalltau
    from .tables import indexed, lookup_tree
    perm, labels = case
    n = len(labels)
    ds = indexed(labels, (n,), "d")
    trees = [lookup_tree([float(v) for v in perm]), lookup_tree([2.0 * ((i * 2 + 1) % n) * n if n % 2 else -3.0 * v for i, v in enumerate(perm)])]
    mets = [DCG(), NDCG(), MAP(), ERR(), Precision(cutoff=2), Kendalltau()]
    m = ensemble(trees)
    p, t = model_performance([ds], [m], mets), tree_wise_performance([ds], [m], mets, step=1)
    part = partial(trees, None, ds.X)
    for l, x in enumerate([DCG(), NDCG(), MAP(), ERR(), Precision(cutoff=2), Kendalltau()]):
        w = [x.eval(ds, part[:, :k].sum(axis=1).astype(np.float32))[0] for k in (1, 2)]
        same_ = lambda a, b: near(a, b) or np.isnan(a) and np.isnan(b)
        require(same_(p.values[0, 0, l], w[1]) and same_(t.values[0, 0, 0, l], w[0]) and same_(t.values[0, 0, 1, l], w[1]),
                "%s of labels %r: %r %r, expected %r", x, labels, p.values[0, 0, l], t.values[0, 0, :, l], w)
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("tables", lambda: cases(t), check),
            Unit("ranking metrics", lambda: ((p, l) for n in ((3, 4, 5) if t else (3, 4)) for p in itertools.permutations(range(n))
                                             for l in itertools.product((0, 1, 2) if n < 5 else (0, 1), repeat=n)), check_real),
            Unit("millions", [(n, nt, v) for n in MILLIONS + ([(1 << 24) + 3] if t else []) for nt in (1, 3) for v in ((0.1, 0.3, -0.7), (0.1, 0.1, 0.1), (-3.3, 1e-3, 5.1))],
                 check_millions, stall=300),
            Unit("large", [(k, n) for k in ("docs", "queries") for n in (LADDER if t else SHORT_LADDER) + GIANT] + [("trees", n) for n in [255, 256, 257, 1025]], check_large)]
