"""C52: results do not depend on how the data is ordered, numbered or cut up."""
import itertools, warnings
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C52", "exploration"
RULE = ("every small dataset (query sizes, labels, scores) x every metric and cutoff x every order of the queries, every order of the documents inside "
        "the queries, every renumbering of the queries and every order-preserving change of the scores of the universe; every analysis on such variants, "
        "on permuted features, permuted and single trees, and on every sublist and order of its lists of datasets, models and metrics; results must "
        "correspond; non-trivial: the transformation changes the input")
ASSUMPTIONS = ["documents with equal scores have equal labels where documents change places", "sums may be rounded differently: relative tolerance 1e-5"]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True)


_m = {}


def metrics():
    if not _m:
        from rankeval import metrics as M
        from rankeval.metrics.precision_max import PrecisionMax
        for c in (None, 1, 2):
            for n, f in (("NDCG", M.NDCG), ("DCG", M.DCG), ("ERR", M.ERR), ("MAP", M.MAP), ("MRR", M.MRR), ("Pfound", M.Pfound), ("RBP", M.RBP),
                         ("Precision", M.Precision), ("Recall", M.Recall), ("PrecisionMax", PrecisionMax)):
                _m[n, c] = (lambda f=f, c=c: f(cutoff=c))
        _m["NDCG flat", None] = lambda: M.NDCG(implementation="flat")
        _m["DCG exp", None] = lambda: M.DCG(implementation="exp")
        _m["Recall 2", None] = lambda: M.Recall(threshold=2)
        _m["RBP 2", None] = lambda: M.RBP(threshold=2, p=0.9)
        _m["MRR 2", None] = lambda: M.MRR(threshold=2)
        for n, f in (("MSE", M.MSE), ("RMSE", M.RMSE), ("Kendalltau", M.Kendalltau), ("SpearmanRho", M.SpearmanRho)):
            _m[n, None] = f
    return _m


def build(sizes, ids, y, order=None, qorder=None):
    """Dataset and the rows of the base order it is made of. order: rows inside each query; qorder: order of the queries."""
    from rankeval.dataset import Dataset
    starts = np.concatenate(([0], np.cumsum(sizes)))
    qorder = range(len(sizes)) if qorder is None else qorder
    rows, q = [], []
    for i in qorder:
        o = range(sizes[i]) if order is None else order[i]
        rows += [int(starts[i] + k) for k in o]
        q += [ids[i]] * sizes[i]
    rows = np.array(rows)
    X = make_X(len(rows), 3)[rows]
    return Dataset(X, np.array(y, dtype=F32)[rows], np.array(q, dtype=np.int32), name="d"), rows


RENUMBER = [lambda i, n: i, lambda i, n: n - i, lambda i, n: 1000003 * (i + 1) % 2147483647, lambda i, n: 7 * (i + 1) % 11, lambda i, n: -i]
MONOTONE = {"doubled": lambda s: s * 2 + 1, "shifted": lambda s: s - 100, "tiny": lambda s: s * 2.0 ** -20, "double": lambda s: s.astype(np.float64),
            "integer": lambda s: (s * 4).astype(np.int64), "exponential": lambda s: np.exp2(s.astype(np.float64)), "huge": lambda s: s * 2.0 ** 60,
            "close": lambda s: 1 + s.astype(np.float64) * 2.0 ** -40, "large integers": lambda s: 2 ** 60 + (s * 4).astype(np.int64),
            "ranks": lambda s: np.searchsorted(np.unique(s), s).astype(F32)}


def check_metrics(case, ctx):
    warnings.simplefilter("ignore")
    sizes, labels, scores = case
    n, nq = sum(sizes), len(sizes)
    y, s = np.array(labels, dtype=F32), np.array(scores, dtype=F32) * 0.5 - 0.5
    starts = np.concatenate(([0], np.cumsum(sizes)))
    ids = list(range(3, 3 + nq))
    base, rows = build(sizes, ids, y)
    # documents may change places when equal scores mean equal labels
    free = [all(y[a] == y[b] for a in range(starts[i], starts[i + 1]) for b in range(starts[i], a) if s[a] == s[b]) for i in range(nq)]
    variants = []
    for qo in itertools.permutations(range(nq)):
        variants.append((qo, None, 0))
    for k in range(1, len(RENUMBER)):
        variants.append((tuple(range(nq)), None, k))
        variants.append((tuple(range(nq))[::-1], None, k))
    orders = [[tuple(range(z))] if not f else list(itertools.permutations(range(z))) if z < 6 else
              [tuple(range(z)), tuple(range(z))[::-1], tuple(range(1, z, 2)) + tuple(range(0, z, 2))] for z, f in zip(sizes, free)]
    total = int(np.prod([len(o) for o in orders]))
    for o in itertools.product(*orders) if total <= 24 else [tuple(p[(len(p) - 1) * k // 7] for p in orders) for k in range(8)]:
        variants.append((tuple(range(nq)), o, 0))
    built = []
    for qo, o, k in variants:
        d, r = build(sizes, [RENUMBER[k](i, nq) for i in range(nq)], y, o, qo)
        built.append((qo, o, k, d, r))
    for name, make in metrics().items():
        ranking = name[0] not in ("MSE", "RMSE")
        avg, per = make().eval(base, s)
        per = np.array(per)
        for qo, o, k, d, r in built:
            a2, p2 = make().eval(d, s[r])
            require(close(p2, per[list(qo)]) and close(a2, avg), "%s%r of labels %r and scores %r (%r) is %r, but %r with queries in order %r, documents in order %r and numbering %d",
                    name[0], name[1], labels, scores, sizes, (avg, per), (a2, p2), qo, o, k, key=name[0])
            ctx.evaluated()
        if ranking:
            for w, f in MONOTONE.items():
                if w == "large integers" and name[0] in ("SpearmanRho", "Kendalltau"):      # scipy works on doubles
                    continue
                a2, p2 = make().eval(base, f(s))
                require(close(p2, per) and close(a2, avg), "%s%r of labels %r and scores %r (%r) is %r, but %r for the %s scores", name[0], name[1], labels, scores, sizes, per, p2, w, key=name[0])
                ctx.evaluated()
        for i in range(nq):
            sub = base.subset([ids[i]], name="s")
            a2, p2 = make().eval(sub, s[starts[i]:starts[i + 1]])
            share, whole = (sizes[i] / n, 1 / n) if name[0] == "MSE" else (1, 1)        # the error of a query is its part of the mean over all documents
            require(close(np.array(p2) * share, per[i:i + 1]), "%s%r of query %d alone is %r, inside the dataset %r", name[0], name[1], i, p2, per[i], key=name[0])
            require(close(make().eval_per_query(y[starts[i]:starts[i + 1]], s[starts[i]:starts[i + 1]]) * whole, per[i]), "%s%r: eval_per_query of query %d differs from eval", name[0], name[1], i, key=name[0])
            ctx.evaluated(2)
    if len(set(labels)) > 1 and n > 1:
        ctx.nontrivial(case)


def metric_cases(t):
    for n in range(1, 6 if t else 5):
        for sizes in compositions(n):
            if len(sizes) > 4:
                continue
            labels = list(itertools.product((0, 1, 3), repeat=n))
            scores = [p for p in itertools.permutations(range(n))] + [w for w in weak_orders(n) if len(set(w)) == n - 1]
            k = 0
            for a in labels:
                for b in scores:
                    k += 1
                    if n <= 3 or k % (17 if t else 149) == 0:
                        yield sizes, a, b
    for n in (17, 18, 33):                  # longer than the sorting routines' small cases
        for r in range(3 if not t else 40):
            y = tuple((i * (2 * r + 3) + i * i) % 4 for i in range(n))
            yield (n - 4, 4), y, tuple((i * 7 + r) % n if n % 7 else (i * 5 + r) % n for i in range(n))


# ---------------------------------------------------------------- analyses
def universe():
    from rankeval import metrics as M
    sizes = (3, 1, 2, 4)
    y = [0, 2, 1, 1, 0, 3, 1, 0, 0, 2]
    sh = [((None, None), None), (None, (None, None)), ((None, None), (None, None)), (None, None)]
    T = [auto(sh[i % 4], i, feats=(0, 1, 2), thrs=(1.5, 3.0, 5.25)) for i in range(5)]
    models = [ensemble(T, [1.0, 0.5, 2.0, 1.0, 1.0], name="a"), ensemble(T[1:3], name="b"), ensemble(T[3:] + T[:1], [1, 1, -2.0], name="c")]
    ms = [M.MSE(), M.NDCG(cutoff=2), M.Precision(cutoff=1), M.RMSE()]
    return sizes, y, models, ms


def check_orders(case, ctx):
    """The analyses of one dataset whose queries, documents or numbers change."""
    from rankeval.analysis import effectiveness as E, feature as Fe
    warnings.simplefilter("ignore")
    qo, k, r = case
    sizes, y, models, ms = universe()
    nq = len(sizes)
    orders = [list(itertools.permutations(range(z))) for z in sizes]
    o = [p[r % len(p)] for p in orders]
    base, _ = build(sizes, list(range(3, 3 + nq)), y)
    d, rows = build(sizes, [RENUMBER[k](i, nq) for i in range(nq)], y, o, qo)
    # equal scores of different labels inside a query: the order of the documents decides
    cls = ["x", "y", "x", "z"]
    for m in models:
        s = m.score(base)
        require(same(m.score(d), s[rows]), "%s scores documents differently in another order", m)
        a, b = m.score(base, detailed=True), m.score(d, detailed=True)
        require(same(b[1], a[1][rows]) and same(b[2], a[2][rows]), "%s: detailed scores differ in another order", m)
    for what, f in (("contribution", lambda x: E.tree_wise_average_contribution([x], models)),
                    ("graded relevance", lambda x: E.document_graded_relevance([x], models, bins=7)),
                    ("confusion", lambda x: E.rank_confusion_matrix([x], models)),
                    ("confusion of different labels", lambda x: E.rank_confusion_matrix([x], models, skip_same_label=True)),
                    ("performance", lambda x: E.model_performance([x], models, [ms[0], ms[3]])),
                    ("tree-wise", lambda x: E.tree_wise_performance([x], models, [ms[0], ms[3]], step=2)),
                    ("query-wise", lambda x: E.query_wise_performance([x], models, [ms[0]], bins=6, start=0.0, end=1e6))):
        require(close(f(base).values, f(d).values), "%s depends on the order of queries %r, of documents %r or on the numbering %d", what, qo, o, k, key=what)
        ctx.evaluated()
    a = E.query_class_performance([base], models, [ms[0]], [cls])
    b = E.query_class_performance([d], models, [ms[0]], [[cls[i] for i in qo]])
    require(close(a.values, b.values) and list(a.classes.values) == list(b.classes.values), "query classes depend on the order of the queries %r", qo)
    for m in models:
        for norm in (False, True):
            g, h = Fe.feature_importance(m, base, normalize=norm), Fe.feature_importance(m, d, normalize=norm)
            require(np.allclose(g.values, h.values, rtol=1e-4, atol=1e-5), "feature importance depends on the order of the documents: %r and %r", g.values, h.values)
    if not r:                               # rankings: only the order of the queries and their numbers
        d2, rows2 = build(sizes, [RENUMBER[k](i, nq) for i in range(nq)], y, None, qo)
        require(close(E.model_performance([base], models, ms).values, E.model_performance([d2], models, ms).values), "performance depends on the order %r or numbering %d of the queries", qo, k)
        require(close(E.tree_wise_performance([base], models, ms, step=1).values, E.tree_wise_performance([d2], models, ms, step=1).values), "tree-wise performance depends on the order %r or numbering %d of the queries", qo, k)
    ctx.evaluated(8)
    if k or r or qo != tuple(range(nq)):
        ctx.nontrivial(case)


def check_features(case, ctx):
    """Features and trees in another order."""
    from rankeval.analysis import effectiveness as E, feature as Fe
    from rankeval.dataset import Dataset
    fo, to = case
    sizes, y, models, ms = universe()
    base, _ = build(sizes, list(range(3, 3 + len(sizes))), y)
    d = base.subset_features(list(fo))
    sh = [((None, None), None), (None, (None, None)), ((None, None), (None, None)), (None, None)]
    T = [auto(sh[i % 4], i, feats=(0, 1, 2), thrs=(1.5, 3.0, 5.25)) for i in range(4)]
    W = [1.0, 0.5, 2.0, -1.0]

    def rename(t):
        return t if t[0] == "L" else (fo.index(t[0]), t[1], rename(t[2]), rename(t[3]))
    a = ensemble(T, W)
    b = ensemble([rename(T[i]) for i in to], [W[i] for i in to])
    s, p, l = a.score(base, detailed=True)
    s2, p2, l2 = b.score(d, detailed=True)
    require(close(s, s2), "scores depend on the order of features %r or of trees %r", fo, to)
    require(same(p2, p[:, list(to)]), "the scores of the trees depend on the order of features %r or of trees %r", fo, to)
    for i in range(4):
        one = ensemble([T[i]], [W[i]])
        require(same(one.score(base), p[:, i]), "tree %d alone scores differently", i)
    require(close(p.sum(axis=1), s), "the scores of the trees do not add up")
    x, z = E.tree_wise_average_contribution([base], [a]).values[0, 0], E.tree_wise_average_contribution([d], [b]).values[0, 0]
    require(close(x[list(to)], z), "contributions depend on the order of features %r or of trees %r", fo, to)
    if to == tuple(range(4)):
        for norm in (False, True):
            g, h = Fe.feature_importance(a, base, normalize=norm).values, Fe.feature_importance(b, d, normalize=norm).values
            require(np.allclose(g[:, list(fo)], h, rtol=1e-4, atol=1e-5), "feature importance depends on the order of the features %r: %r and %r", fo, g, h)
    ctx.evaluated(6)
    if case != ((0, 1, 2), (0, 1, 2, 3)):
        ctx.nontrivial(case)


def check_lists(case, ctx):
    """A table over lists holds, for every entry, what the table over that entry alone holds."""
    from rankeval.analysis import effectiveness as E, statistical as S
    warnings.simplefilter("ignore")
    di, mi, xi, cache = case
    sizes, y, models, ms = universe()
    dss = [build(sizes, [3, 4, 5, 6], y)[0], build((2, 2, 5), [1, 2, 3], [0, 1, 2, 0, 0, 1, 1, 4, 0])[0], build((1,), [9], [1])[0]]
    cls = [["x", "y", "x", "z"], ["y", "y", "w"], ["x"]]
    D, Mo, X, C = [dss[i] for i in di], [models[i] for i in mi], [ms[i] for i in xi], [cls[i] for i in di]
    tables = {
        "performance": (lambda d, m, x, c: E.model_performance(d, m, x, cache=cache), ("dataset", "model", "metric")),
        "tree-wise": (lambda d, m, x, c: E.tree_wise_performance(d, m, x, step=2, cache=cache), ("dataset", "model", "metric")),
        "contribution": (lambda d, m, x, c: E.tree_wise_average_contribution(d, m, cache=cache), ("dataset", "model")),
        "query-wise": (lambda d, m, x, c: E.query_wise_performance(d, m, x, bins=5, start=0.0, end=50.0, cache=cache), ("dataset", "model", "metric")),
        "classes": (lambda d, m, x, c: E.query_class_performance(d, m, x, c, cache=cache), ("dataset", "model", "metric")),
        "graded": (lambda d, m, x, c: E.document_graded_relevance(d, m, bins=5, start=0.0, end=50.0, cache=cache), ("dataset", "model")),
        "confusion": (lambda d, m, x, c: E.rank_confusion_matrix(d, m, cache=cache), ("dataset", "model")),
    }
    for name, (f, dims) in tables.items():
        if "metric" not in dims and len(xi) > 1:
            continue
        whole = f(D, Mo, X, C)
        require([str(v) for v in whole.dataset.values] == [str(d) for d in D] and list(whole.model.values) == Mo, "%s is not labelled with its lists", name)
        for (i, d), (j, m), (k, x) in itertools.product(enumerate(D), enumerate(Mo), enumerate(X)):
            one = f([d], [m], [x], [C[i]])
            cell, alone = whole.values[i, j], one.values[0, 0]
            rest = [q for q in whole.dims if q not in ("dataset", "model")]
            if "metric" in rest:
                ax = rest.index("metric")
                cell, alone = np.take(cell, k, axis=ax), np.take(alone, 0, axis=ax)
                rest = [q for q in rest if q != "metric"]
            for ax, q in enumerate(rest):       # entries are matched by their coordinates; those the single table lacks must be empty
                wv, ov = [str(v) for v in whole[q].values], [str(v) for v in one[q].values]
                if q == "k":                    # the steps end with the largest ensemble of the lists
                    n = len(ov)
                    extra = np.take(cell, range(n, len(wv)), axis=ax)
                    require(np.isnan(extra).all(), "%s has values beyond the trees of model %s", name, m)
                    cell = np.take(cell, range(n), axis=ax)
                    continue
                if q in ("trees", "bin"):
                    n = len(ov)
                    extra = np.take(cell, range(n, len(wv)), axis=ax)
                    require(np.isnan(extra).all(), "%s has values beyond the trees of model %s", name, m)
                    cell = np.take(cell, range(n), axis=ax)
                    continue
                keep = [wv.index(v) for v in ov]
                drop = [p for p in range(len(wv)) if p not in keep]
                extra = np.take(cell, drop, axis=ax)
                require((np.isnan(extra) | (extra == 0)).all(), "%s has values for %s that dataset %s does not have", name, q, d)
                cell = np.take(cell, keep, axis=ax)
            require(close(cell, alone), "%s of dataset %d, model %d, metric %d is %r in the lists %r and %r alone", name, di[i], mi[j], xi[k], cell, case, alone, key=name)
            ctx.evaluated()
    if len(D) * len(Mo) * len(X) > 1:
        ctx.nontrivial(case)


def lists(n, t):
    return [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]


def list_cases(t):
    for di in lists(3, t):
        for mi in lists(3, t):
            for xi in [(0,), (1,), (2, 0), (3, 1, 2)] if not t else lists(4, t)[:28]:
                yield di, mi, xi, bool((len(di) + len(mi) + len(xi)) % 2)


def order_cases(t):
    for qo in itertools.permutations(range(4)):
        for k in range(len(RENUMBER)):
            for r in range(0, 24, 1 if t else 5):
                yield qo, k, r


def units(tier):
    t = tier == "thorough"
    return [Unit("metrics", lambda: metric_cases(t), check_metrics), Unit("orders", lambda: order_cases(t), check_orders),
            Unit("features", lambda: itertools.product(itertools.permutations(range(3)), itertools.permutations(range(4))), check_features),
            Unit("lists", lambda: list_cases(t), check_lists)]
