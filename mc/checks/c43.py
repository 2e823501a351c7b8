"""C43: feature importance."""
import itertools, math
from collections import deque
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C43", "exploration"
RULE = ("every tree shape up to the leaf bound x every assignment of features and thresholds to its splits x every label vector over an alphabet on "
        "documents on both sides and on the boundary of every split (some sides empty), all pairs of shapes with weights, both node numberings, every "
        "layout and type of features and labels, native (MSE, RMSE) and generic metrics, normalized or not; ladders over documents (to millions), trees, numbers of splits and features and "
        "depth; incompatible datasets rejected; non-trivial: some feature has a positive gain")
ASSUMPTIONS = ["ensembles with learning rate 1 (the analysis refits trees with their weight only)",
               "comparison up to single-precision rounding of sums",
               "generic metrics: gain is the drop of the metric's overall value when the nodes of a level are split one by one, as documented in the code"]


def simulate(trees, weights, X, y, metric=None, n_f=None, order="pre"):
    """Reference in double precision: (importance, count, y_pred); metric is None for MSE, else f(predictions) -> value."""
    n, nf = X.shape
    imp, cnt = np.zeros(nf), np.zeros(nf, dtype=int)
    y_pred = np.zeros(n)
    for t, w in zip(trees, weights):
        target = y - y_pred
        pred = np.full(n, target.mean())
        level = [(t, np.arange(n))]
        while level:
            nxt, base, new = [], pred.copy(), pred.copy()
            for node, docs in level:
                if node[0] == "L":
                    continue
                f, thr, l, r = node
                cnt[f] += 1
                left = X[docs, f].astype(F32) <= F32(thr)
                mod = base.copy()
                for side, child in ((docs[left], l), (docs[~left], r)):
                    if len(side):
                        mod[side] = target[side].mean()
                    nxt.append((child, side))
                if metric is None:
                    imp[f] += (((target - base)[docs] ** 2).sum() - ((target - mod)[docs] ** 2).sum()) / n
                else:
                    imp[f] += metric(base + y_pred) - metric(mod + y_pred)
                new[docs] = mod[docs]
            pred, level = new, nxt
        y_pred = y_pred + pred * w
    return imp, cnt, y_pred


def square_metrics(sizes):
    from rankeval.metrics import Metric

    class Square(Metric):
        """Mean squared error through the generic code."""
        def __init__(self):
            Metric.__init__(self, "square")

        def eval(self, dataset, y_pred):
            return float(np.mean((np.asarray(dataset.y, dtype=float) - y_pred) ** 2)), None

        def eval_per_query(self, y, y_pred):
            return 0.0

    class Cubic(Square):
        """Not additive over documents: sensitive to the predictions of the siblings."""
        def eval(self, dataset, y_pred):
            return float(np.sum(np.abs(np.asarray(dataset.y, dtype=float) - y_pred)) ** 1.5), None
    return Square(), Cubic()


def close_vec(a, b, scale):
    return len(a) == len(b) and bool(np.all(np.abs(np.asarray(a, dtype=float) - b) <= 2e-5 * scale + 2e-5 * np.abs(b)))


def verify(trees, weights, X, y, ctx, key, order="pre", sizes=None, kinds=("mse", "rmse", "generic")):
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE
    from .tables import Frozen
    ens = ensemble(trees, weights, order=order)
    ds = mkds(X, y, sizes)
    w = [1.0] * len(trees) if weights is None else weights
    yy = np.asarray(y, dtype=float)
    scale = max(1.0, float((yy ** 2).mean()) * sum(abs(x) for x in w) ** 2)
    imp, cnt, _ = simulate(trees, w, X, yy)
    sq, cubic = square_metrics(sizes)
    fz = Frozen([ds], [ens])
    runs = []
    if "mse" in kinds:
        runs += [(None, imp, "default"), (MSE(), imp, "MSE")]
    if "rmse" in kinds:
        runs += [(RMSE(), None, "RMSE")]
    if "generic" in kinds:
        runs += [(sq, imp, "generic squared error"),
                 (cubic, simulate(trees, w, X, yy, lambda p: float(np.sum(np.abs(yy - p)) ** 1.5))[0], "generic metric")]
    for metric, want, what in runs:
        r = feature_importance(ens, ds, metric=metric, normalize=False)
        require(r.shape == (2, X.shape[1]), "feature_importance has shape %r", r.shape)
        got, count = r.sel(type="importance").values, r.sel(type="count").values
        require(list(r.coords["feature"].values) == list(range(X.shape[1])), "features %r", r.coords["feature"].values)
        if what == "RMSE":
            ok = len(got) == len(imp) and np.all(np.isfinite(got)) and close_vec(np.asarray(got, dtype=float) ** 2, imp, scale * 2)
            want = np.sqrt(np.maximum(imp, 0))
        else:
            ok = close_vec(got, want, scale if metric is not cubic else max(scale, np.abs(want).max()) * 3)
        require(ok, "importance (%s) of %r: %r, expected %r", what, key, got, want)
        require(same(count, cnt), "counts (%s) of %r: %r, expected %r", what, key, count, cnt)
        nr = feature_importance(ens, ds, metric=metric)
        got2, m = nr.sel(type="importance").values, got.max()
        if m > 1e-4 * scale:
            require(close_vec(got2, np.asarray(got, dtype=float) / float(m), 1.0), "normalized importance (%s) of %r: %r of %r", what, key, got2, got)
        elif m == 0:
            require(not np.any(np.isnan(got2)), "normalized importance (%s) without any gain: %r", what, got2)
        require(same(nr.sel(type="count").values, cnt), "counts (%s, normalized) of %r", what, key)
        ctx.evaluated(2)
    fz.check("feature_importance")
    if imp.max() > 0:
        ctx.nontrivial(key)


SPL = [(0, 0.5), (1, 0.5), (0, -1.0)]
DOCS = np.array([[0.5, 0.5], [0.625, 0.5], [0.5, 0.625], [-1.0, 2.0], [3.0, -1.0]], dtype=F32)


def check_tree(case, ctx):
    shape, labels, rows = case
    k = n_leaves(shape) - 1
    X = DOCS[list(rows)]
    for a in itertools.product(SPL if k < 4 else SPL[:2], repeat=k):
        t = label(shape, a, [float(j) for j in range(k + 1)])
        verify([t], None, X, labels, ctx, (shape, a, labels, rows), "bfs" if k % 2 else "pre")


def tree_cases(t):
    for shape in all_shapes(5 if t else 4):
        big = n_leaves(shape) > 3
        for rows in ((0, 1, 2, 3, 4), (0, 0, 4), (1,), (4, 3)):
            al = (0, 1, 4) if len(rows) < 4 else (0, 2)
            for labels in itertools.product(al, repeat=len(rows)):
                if not big or sum(labels) % 4 == (0 if t else 2):
                    yield shape, labels, rows


def check_pairs(case, ctx):
    shps, weights, order = case
    trees = [auto(s, i) for i, s in enumerate(shps)]
    X = documents(trees, 3, cap=40)
    y = [(i * 7) % 5 for i in range(len(X))]
    n = len(X)
    verify(trees, weights, X, y, ctx, case, order, (1, n - 1) if n > 1 else None)


def pair_cases(t):
    s4, s3 = all_shapes(5 if t else 4), all_shapes(3)
    for p in itertools.product(s4, repeat=2):
        yield p, (0.5, 1.0), "pre"
        yield p, None, "bfs"
    for p in itertools.product(s3, repeat=3):
        yield p, (1.0, -0.5, 2.0), "bfs"
        yield p, (0.25, 0.0, 1.0), "pre"


def check_layout(case, ctx):
    """Every memory layout and type of the features and labels gives the result of the plain one."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.dataset import Dataset
    from rankeval.metrics import MSE, RMSE
    shape, n, nf = case
    t = auto(shape, 0, feats=tuple(range(nf)))
    ens = ensemble([t, auto(shape, 1, feats=tuple(range(nf)))])
    X0 = np.array([[((i * (f + 2) + f) % 9) * 0.5 - 1.5 for f in range(nf)] for i in range(n)])
    y0 = np.array([(i * 3) % 5 for i in range(n)])
    q = np.array([1] * (n // 2) + [2] * (n - n // 2))
    imp, cnt, _ = simulate([t, auto(shape, 1, feats=tuple(range(nf)))], [1.0, 1.0], X0.astype(F32), y0.astype(float))
    for xt in (np.float32, np.float64):
        for lay, X in layouts(X0.astype(xt)):
            for yt in (np.float32, np.float64, np.int32, np.int64, np.uint8):
                for stride in (1, 2):
                    y = np.repeat(y0.astype(yt), stride)[::stride]
                    ds = Dataset(X, y, q)
                    for m in (MSE(), RMSE()):
                        try:
                            r = feature_importance(ens, ds, metric=m, normalize=False).values
                        except Exception:
                            require(xt != np.float32 or yt != np.float32, "rejected: single precision, layout %s", lay)
                            continue
                        got = r[0].astype(float) if isinstance(m, MSE) else r[0].astype(float) ** 2
                        require(close_vec(got, imp, 20.0) and same(r[1], cnt), "importance with features %s %s and labels %s (stride %d): %r, expected %r",
                                np.dtype(xt), lay, np.dtype(yt), stride, r, imp)
                        ctx.evaluated()
    ctx.nontrivial(case)


def check_compat(case, ctx):
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE, NDCG
    f, nf, pos = case
    trees = [("L", 1.0), (0, 0.5, ("L", 1.0), (f, 0.5, ("L", 1.0), ("L", 2.0))), ("L", 2.0)]
    trees = trees[pos:] + trees[:pos]
    ds = mkds(np.zeros((3, nf), dtype=F32), [0, 1, 2])
    for m in (None, MSE(), RMSE(), NDCG()):
        for norm in (False, True):
            try:
                r = feature_importance(ensemble(trees), ds, metric=m, normalize=norm)
            except Exception:
                require(nf <= f, "feature %d with %d features: rejected", f, nf)
            else:
                require(nf > f, "feature %d with %d features: accepted", f, nf)
                want = np.zeros(nf)
                want[0] += 1
                want[f] += 1
                require(same(r.values[1], want), "counts %r, expected %r", r.values[1], want)
            ctx.evaluated()
    ctx.nontrivial(case)


def check_ladder(case, ctx):
    kind, n = case
    if kind == "docs":
        trees = [auto(s, i) for i, s in enumerate(all_shapes(4)[:6])]
        D = documents(trees, 3)
        X = D[(np.arange(n) * 7 + n) % len(D)]
        verify(trees, [0.5] * 6, X, [(i * i) % 5 for i in range(n)], ctx, case, "pre", None)
    elif kind == "trees":
        ss = all_shapes(4)
        trees = [auto(ss[(i * 5) % len(ss)], i) for i in range(n)]
        X = documents(trees, 3, cap=20)
        verify(trees, [0.25] * n, X, [i % 4 for i in range(len(X))], ctx, case, "bfs")
    elif kind == "depth":
        for left in (True, False):
            t = chain(n, left, feat=1)
            X = np.array([[0, (-i if left else i) - 0.5] for i in range(n + 2)], dtype=F32)
            verify([t], None, X, [(i % 3) for i in range(n + 2)], ctx, (case, left))
    else:
        t = (n - 1, 0.5, ("L", 1.0), (0, 0.5, ("L", 2.0), ("L", 4.0)))
        X = np.zeros((4, n), dtype=F32)
        X[1:3, n - 1] = 1
        X[2:, 0] = 1
        verify([t], None, X, [0, 1, 2, 4], ctx, case)


def check_counts(case, ctx):
    """More splits than small integers can count, and more features than small integers can number."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE
    kind, n = case
    if kind == "splits":
        trees = [(0, 0.5, ("L", 1.0), (1, 0.5, ("L", 2.0), ("L", 3.0)))] * (n - 3) + [(0, 0.5, ("L", 1.0), ("L", 0.5))] * 3
        want, w = [n, n - 3, 0], [1.0 / n] * n
        ds = mkds(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0]], dtype=F32), [0, 1, 2], (1, 2))
    else:
        trees, w = [(0, 0.5, ("L", 1.0), (min(n - 1, 32767), 0.5, ("L", 2.0), ("L", 3.0)))], None
        want = [0] * n
        want[0] += 1
        want[min(n - 1, 32767)] += 1
        X = np.zeros((3, n), dtype=F32)
        X[1:, 0] = X[2, min(n - 1, 32767)] = 1
        ds = mkds(X, [0, 1, 2])
    ens = ensemble(trees, w)
    sq = square_metrics(None)[0]
    for m in (None, MSE(), RMSE()) + ((sq,) if n < 66000 else ()):
        r = feature_importance(ens, ds, metric=m)
        require(list(r.coords["feature"].values) == list(range(len(want))), "%d features are numbered %r", len(want), r.coords["feature"].values)
        got = r.sel(type="count").values
        require(same(got, want), "%d %s: counts are %r, expected %r (%s)", n, kind, got[:3], want[:3], m)
        ctx.evaluated()
    ctx.nontrivial(case)


def check_huge(case, ctx):
    """More cells than 31 or 32 bits count."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE
    n, nf = case

    def run(X):
        cols = (0, 5, nf // 2 + 1, 32766)
        cols = tuple(c for c in cols if c < min(nf, 32767))
        trees = [(cols[-1], 0.5, ("L", 1.0), (cols[1], 0.5, ("L", 0.5), ("L", 2.0))), (cols[0], 0.5, ("L", 0.25), ("L", 1.0))]
        small = np.zeros((n, len(cols)), dtype=F32)
        rows = sorted(set(list(range(0, n, 97)) + [n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1]))
        for j, c in enumerate(cols):
            small[rows, j] = [(i * (j + 3) // (j + 1)) % 3 - 0.5 for i in rows]
        for j, c in enumerate(cols):
            for i in rows:
                X[i, c] = small[i, j]
        y = np.array([i % 3 + (2 if i in rows else 0) for i in range(n)], dtype=F32)
        pos = {c: j for j, c in enumerate(cols)}

        def compact(t):
            return t if t[0] == "L" else (pos[t[0]], t[1], compact(t[2]), compact(t[3]))
        imp, cnt, _ = simulate([compact(t) for t in trees], [1.0, 1.0], small, y.astype(float))
        ens = ensemble(trees)
        ds = mkds(X, y)
        for m in (None, RMSE()):
            r = feature_importance(ens, ds, metric=m, normalize=False).values
            got = r[0].astype(float) ** (2 if m else 1)
            require(close_vec(got[list(cols)], imp, 30.0) and np.count_nonzero(got) == np.count_nonzero(imp), "%d documents of %d features: importance %r of %r, expected %r",
                    n, nf, got[list(cols)], cols, imp)
            require(same(r[1][list(cols)], cnt) and r[1].sum() == cnt.sum(), "counts %r, expected %r", r[1][list(cols)], cnt)
            ctx.evaluated()
        ctx.nontrivial(case)
    with_huge(ctx, n, nf, run)


def check_millions(case, ctx):
    """So many documents that the sums need more digits than single precision has."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.metrics import MSE, RMSE
    n, shape, ys, wgt = case
    trees = [auto(shape, i, feats=(0, 1, 0)) for i in range(2)]
    D = documents(trees, 2)
    X = D[np.arange(n) // (n // len(D) + 1)]
    y = np.array(ys, dtype=F32)[(np.arange(n) * 3 // n + np.arange(n) // (n // len(D) + 1)) % len(ys)]
    imp, cnt, _ = simulate(trees, [wgt] * 2, X, y.astype(float))
    ens, ds = ensemble(trees, [wgt] * 2), mkds(X, y)
    for m in (MSE(), RMSE()):
        r = feature_importance(ens, ds, metric=m, normalize=False).values
        got = r[0].astype(float) ** (2 if isinstance(m, RMSE) else 1)
        require(close_vec(got, np.maximum(imp, 0) if isinstance(m, RMSE) else imp, max(1.0, float((y.astype(float) ** 2).mean()))), "%d documents with labels %r: importance %r, expected %r", n, ys, got, imp)
        require(same(r[1], cnt), "%d documents: counts %r, expected %r", n, r[1], cnt)
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    big = LADDER if t else SHORT_LADDER
    lad = [("docs", n) for n in big + GIANT] + [("trees", n) for n in big if n <= (300 if t else 130)] + \
          [("depth", n) for n in big if n <= (600 if t else 130)] + [("features", n) for n in big + [32767]]
    return [Unit("trees", lambda: tree_cases(t), check_tree),
            Unit("ensembles", lambda: pair_cases(t), check_pairs),
            Unit("layouts", [(s, n, nf) for s in all_shapes(4)[1:] for n in (1, 2, 5, 8) for nf in (1, 2, 5)], check_layout),
            Unit("compatibility", [(f, nf, p) for f in list(range(1, 12)) + [63, 64, 127, 255, 256, 1000, 32766]
                                   for nf in sorted({1, f - 1, f, f + 1, f + 2, f + 40}) if nf > 0 for p in (0, 1, 2)], check_compat),
            Unit("counts", [(k, n) for k in ("splits", "features") for n in (127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 70001)
                            + ((131073,) if t else ())], check_counts),
            Unit("huge", HUGE, check_huge, stall=300),
            Unit("millions", [(n, s, ys, w) for n in MILLIONS + ([(1 << 24) + 3] if t else []) for s in all_shapes(3)[1:]
                              for ys in ((0.1, 0.7), (0.3,), (4, 0, 1.1)) for w in (1.0, 0.1)], check_millions, stall=300),
            Unit("ladder", lad, check_ladder)]
