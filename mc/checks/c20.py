"""C20: scoring semantics."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C20", "exploration"
RULE = ("every tree shape up to the leaf bound x every assignment of (feature, threshold) to its splits x both node numberings, "
        "all pairs and triples of shapes with weights, learning rates and base scores, against every document at, just below "
        "and just above every threshold; ladders over trees, documents, depth and features; non-trivial: some document goes left "
        "and some goes right at the root")
ASSUMPTIONS = ["single-precision features; at most 32767 features", "leaf outputs are dyadic so that sums are exact in single precision"]


def verify(trees, weights, lr, base, X, order, ctx, key, lays=("C",), sizes=None):
    ens = ensemble(trees, weights, lr, base, order)
    arrays = [np.array(a) for a in (ens.trees_root, ens.trees_weight, ens.trees_left_child, ens.trees_right_child,
                                    ens.trees_nodes_value, ens.trees_nodes_feature)]
    part = partial(trees, weights, X)
    exp = part.sum(axis=1) * lr + (base or 0)
    nontriv = False
    for lay, XL in layouts(X):
        if lay not in lays:
            continue
        ds = mkds(XL, sizes=sizes)
        y = ens.score(ds)
        require(same(y, exp), "scores (layout %s): %s", lay, diff(y, exp))
        r = ens.score(ds, detailed=True)
        require(len(r) == 3, "detailed scoring returned %d values", len(r))
        require(same(r[0], exp), "detailed scores (layout %s): %s", lay, diff(r[0], exp))
        ep = part * lr
        require(r[1].shape == ep.shape, "partial scores of shape %r", r[1].shape)
        if base and len(trees):
            ep[:, 0] += base
        require(same(r[1], ep), "partial scores (layout %s): %s", lay, diff(r[1], ep))
        require(r[2].shape == part.shape, "leaves of shape %r", r[2].shape)
        vals = arrays[4][r[2]] if r[2].size else np.zeros(part.shape)
        w = np.array([1.0] * len(trees) if weights is None else weights)
        require(np.all(arrays[2][r[2]] == -1) and same(vals.astype(float) * w, part), "predicted leaves are not the leaves reached")
        ends = np.append(arrays[0][1:], len(arrays[4]))
        require(bool(np.all((r[2] >= arrays[0][None, :]) & (r[2] < ends[None, :]))), "predicted leaves of other trees")
        require(same(XL, X) and same(ds.X, X), "scoring modified the dataset")
        ctx.evaluated(2)
    for a, b in zip(arrays, (ens.trees_root, ens.trees_weight, ens.trees_left_child, ens.trees_right_child,
                             ens.trees_nodes_value, ens.trees_nodes_feature)):
        require(same(a, b), "scoring modified the ensemble")
    if len(X) and len(set(exp)) > 1:
        ctx.nontrivial(key)
    return ens


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %r, expected %r" % (a.shape, b.shape)
    bad = np.argwhere(~(a == b))
    return "at %r got %r, expected %r (%d wrong)" % (bad[0].tolist(), a[tuple(bad[0])], b[tuple(bad[0])], len(bad)) if len(bad) else "equal"


def check_tree(case, ctx):
    shape, assigns, order = case
    k = n_leaves(shape)
    for a in assigns:
        t = label(shape, a, [j + 1.0 for j in range(k)])
        X = documents([t], 2, extra=(np.inf, -np.inf, np.nan, -0.0))
        verify([t], None, 1, None, X, order, ctx, (shape, a), lays=("C", "F"))


SPLITS = [(0, 0.5), (0, -1.25), (1, 0.5), (1, 0.0)]


def tree_cases(maxl):
    for shape in all_shapes(maxl):
        k = n_leaves(shape) - 1
        al = SPLITS if k <= 4 else SPLITS[::3]
        alls = list(itertools.product(al, repeat=k))
        for c in range(0, len(alls), 64):
            for order in ("pre", "bfs"):
                yield shape, alls[c:c + 64], order


def check_thr(case, ctx):
    """Thresholds of every magnitude: the boundary itself goes left, the next float right."""
    v = case
    t = (0, v, ("L", 1.0), ("L", 2.0))
    X = np.array([[v], [np.nextafter(F32(v), F32(np.inf))], [np.nextafter(F32(v), F32(-np.inf))], [0.0], [np.inf], [-np.inf], [np.nan]], dtype=F32)
    verify([t], None, 1, None, X, "pre", ctx, case)


def thr_values():
    out = []
    for e in range(-149, 128):
        for m in (1.0, 1.5):
            for s in (1, -1):
                v = float(F32(s * m * 2.0 ** e))
                if np.isfinite(v) and v != 0:
                    out.append(v)
    return sorted(set(out + [0.0, 3.4028234663852886e38, -3.4028234663852886e38, 16777215.0, 16777217.0, 0.1, 1e-3]))


def check_ens(case, ctx):
    shps, weights, lr, base, order = case
    trees = [auto(s, i) for i, s in enumerate(shps)]
    X = documents(trees, 3, cap=150)
    verify(trees, weights, lr, base, X, order, ctx, case)


def ens_cases(t):
    s4, s3 = all_shapes(5 if t else 4), all_shapes(4 if t else 3)
    for p in itertools.product(s4, repeat=2):
        for w, lr, b in ((None, 1, None), ((0.5, -2.0), 0.5, 0.25), ((0.0, 1.0), 2, -1.0)):
            yield p, w, lr, b, "pre"
    for p in itertools.product(s3, repeat=3):
        for lr in (1, 0.5, 0.25):
            for b in (None, 0, 0.5, -4.0):
                yield p, (1.0, 0.5, -2.0), lr, b, "bfs" if lr == 1 else "pre"


def check_ladder(case, ctx):
    kind, n = case
    if kind == "trees":
        ss = all_shapes(4)
        trees = [auto(ss[(i * 5) % len(ss)], i, scale=0.25) for i in range(n)]
        X = documents(trees, 3, cap=40)
        verify(trees, [(-1.0) ** i * (1 + i % 3) for i in range(n)], 1, None, X, "pre", ctx, case)
    elif kind == "docs":
        trees = [auto(s, i) for i, s in enumerate(all_shapes(3))]
        D = documents(trees, 3)
        X = D[(np.arange(n) * 7 + n) % len(D)]
        verify(trees, None, 0.5, 0.5, X, "bfs", ctx, case, lays=("C", "F", "strided", "reversed"), sizes=[1] * n if n < 50 else None)
    elif kind == "depth":
        for left in (True, False):
            t = chain(n, left)
            X = np.array([[(-i if left else i) - 0.5 * d] for i in range(n + 2) for d in (0, 1)][-2000:], dtype=F32)
            verify([t, t], None, 1, None, X, "pre", ctx, case)
    elif kind == "features":
        t = (n - 1, 0.5, ("L", 1.0), (0, 0.5, ("L", 2.0), ("L", 4.0)))
        for lay in ("C", "F", "strided"):
            X = np.zeros((4, n), dtype=F32)
            X[1:3, n - 1] = 1
            X[2:, 0] = 1
            verify([t], None, 1, None, X, "pre", ctx, case, lays=(lay,))
    elif kind == "complete":
        t = complete(n)
        X = documents([complete(6)], 3, cap=500)
        X = np.concatenate([X, X * F32(1000), X * F32(100)])
        verify([complete(2), t, auto(None, 1), t], (0.5, 1.0, 2.0, 0.5), 1, None, X, "pre", ctx, case)
    elif kind == "balanced":
        def bal(d, i):
            return ("L", float(i)) if d == 0 else (d % 3, float(i % 5) - 2, bal(d - 1, 2 * i), bal(d - 1, 2 * i + 1))
        t = bal(n, 1)
        verify([t, auto(None, 1), t], (1.0, 2.0, 0.5), 1, None, documents([t], 3, cap=2000), "bfs", ctx, case)


def check_compat(case, ctx):
    f, nf = case
    trees = [("L", 1.0), (f, 0.5, ("L", 1.0), ("L", 2.0)), (0, 0.5, ("L", 1.0), ("L", 2.0))]
    ens = ensemble(trees)
    ds = mkds(np.zeros((3, nf), dtype=F32))
    for detailed in (False, True):
        for cache in (False, True):
            try:
                r = ens.score(ds, detailed=detailed, cache=cache)
            except Exception:
                require(nf <= f, "feature %d with %d features: rejected", f, nf)
            else:
                require(nf > f, "feature %d with %d features: scored", f, nf)
                require(same(r[0] if detailed else r, [3.0] * 3), "scores %r", r)
            ctx.evaluated()
    ctx.nontrivial(case)


def check_scorer(case, ctx):
    """The Scorer's own accessors, in every order."""
    from rankeval.scoring import Scorer
    perm, k = case
    trees = [auto(s, i) for i, s in enumerate(all_shapes(3))][:k]
    w = [1.0, -0.5, 2.0, 0.5][:k]
    X = documents(trees, 3, cap=60)
    ens, ds = ensemble(trees, w), None
    ds = mkds(X)
    part = partial(trees, w, X)
    sc = Scorer(ens, ds)
    leaves = ens.score(ds, detailed=True)[2]
    for a in perm:
        if a == "scores":
            require(same(sc.get_predicted_scores(), part.sum(axis=1)), "get_predicted_scores")
        elif a == "partial":
            require(same(sc.get_partial_predicted_scores(), part), "get_partial_predicted_scores")
        elif a == "leaves":
            require(same(sc.get_predicted_leaves(), leaves), "get_predicted_leaves")
        elif a == "score0":
            require(same(sc.score(False), part.sum(axis=1)), "score(False)")
        else:
            require(same(sc.score(True), part.sum(axis=1)), "score(True)")
    ctx.evaluated()
    ctx.nontrivial(case)


def check_huge(case, ctx):
    """More cells than 31 or 32 bits count."""
    n, nf = case

    def run(X):
        a, b = 3, min(nf, 32767) - 1
        t = [(b, 0.5, ("L", 1.0), (a, 0.5, ("L", 2.0), ("L", 4.0))), (a, -0.5, ("L", 8.0), ("L", 16.0))]
        rows = sorted(set(list(range(0, n, 89)) + [n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1]))
        small = np.zeros((n, 2), dtype=F32)
        for i in rows:
            X[i, a] = small[i, 0] = (i * 5 // 2) % 3 - 1
            X[i, b] = small[i, 1] = i % 2
        part = partial([(1, 0.5, ("L", 1.0), (0, 0.5, ("L", 2.0), ("L", 4.0))), (0, -0.5, ("L", 8.0), ("L", 16.0))], None, small)
        ens, ds = ensemble(t), mkds(X)
        y = ens.score(ds, cache=False)
        require(same(y, part.sum(axis=1)), "%d documents of %d features: %s", n, nf, diff(y, part.sum(axis=1)))
        r = ens.score(ds, detailed=True, cache=False)
        require(same(r[0], part.sum(axis=1)) and same(r[1], part), "%d documents of %d features: detailed: %s", n, nf, diff(r[1], part))
        ctx.evaluated(2)
        ctx.nontrivial(case)
    with_huge(ctx, n, nf, run)


def units(tier):
    t = tier == "thorough"
    big = LADDER if t else SHORT_LADDER
    lad = [("trees", n) for n in big if n <= (2000 if t else 300)] + [("docs", n) for n in big + GIANT] + [("trees", n) for n in (GIANT if t else [33000])] + \
          [("depth", n) for n in big if n <= (1100 if t else 300)] + [("features", n) for n in big + [32767]] + [("complete", 14), ("complete", 16), ("complete", 17)] + [("balanced", n) for n in list(range(1, 11 if t else 9)) + [15, 16]]
    return [Unit("trees", lambda: tree_cases(6 if t else 5), check_tree),
            Unit("thresholds", thr_values, check_thr),
            Unit("ensembles", lambda: ens_cases(t), check_ens),
            Unit("ladder", lad, check_ladder),
            Unit("huge", HUGE, check_huge, stall=300),
            Unit("compatibility", [(f, nf) for f in list(range(0, 20)) + [63, 64, 127, 128, 255, 256, 1000, 32766]
                                   for nf in sorted(set([1, f - 1, f, f + 1, f + 2, f + 50])) if nf >= 1], check_compat),
            Unit("accessors", [(p, k) for k in (1, 2, 4) for r in (1, 2, 3) for p in itertools.product(("scores", "partial", "leaves", "score0", "score1"), repeat=r)],
                 check_scorer)]
