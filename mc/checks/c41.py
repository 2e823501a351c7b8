"""C41: cumulative distributions of query performance and of scores per label."""
import itertools
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import ensemble, mkds

PROPERTY, LEVEL = "C41", "exploration"
RULE = ("every vector of per-query metric values (per-document scores and labels) over an alphabet up to the bound x every number of bins and range of "
        "a set (defaults, inside, outside and across the values), 1-2 datasets of different sizes, models and metrics; every point of every curve "
        "compared with the exact fractions; ladders over queries and documents (to millions); non-trivial: the values are not all equal")
ASSUMPTIONS = ["at a value equal to a bin boundary both counting conventions are accepted", "start < end"]
AL = (0.0, 0.25, 0.5, 1.0)


def verify_curve(got, bins, scores, what):
    n = len(scores)
    prev = -1.0
    for v, b in zip(got, bins):
        eps = 1e-6 * max(1.0, abs(b))
        lo, hi = sum(s < b - eps for s in scores) / n, sum(s <= b + eps for s in scores) / n
        require(lo - 1e-6 <= v <= hi + 1e-6, "%s of %r at %r: %r, expected %r..%r", what, scores, b, v, lo, hi)
        require(v >= prev - 1e-6, "%s decreases", what)
        prev = v
    if bins[-1] >= max(scores):
        require(abs(got[-1] - 1) < 1e-6, "%s of %r ends at %r", what, scores, got[-1])


RANGES = [(None, None), (0.3, None), (None, 0.7), (-1.0, 2.0), (0.0, 1.0), (0.25, 0.5), (2.0, 3.0), (-2.0, -1.0)]


def edges(values, bins, start, end):
    lo = min(values) if start is None else start
    hi = max(values) if end is None else end
    return None if lo > hi else np.linspace(lo, hi, bins + 1)[1:]


def check_q(case, ctx):
    from rankeval.analysis.effectiveness import query_wise_performance
    from .tables import First, Frozen, indexed, labelled, lookup_tree
    vecs, shifts, sizes = case          # values per dataset and model; metric shifts; documents per query
    dss = [indexed([0] * (len(v[0]) * sizes), (sizes,) * len(v[0]), "d%d" % i, first=100 * i) for i, v in enumerate(vecs)]
    models = []
    for j in range(len(vecs[0])):
        tree = None
        for i in reversed(range(len(vecs))):
            vals = [x + 10 * d for x in vecs[i][j] for d in range(sizes)]
            part = lookup_tree(vals, first=100 * i)
            tree = part if i == len(vecs) - 1 else (0, 100 * (i + 1) - 0.5, part, tree)
        models.append(ensemble([tree], name="m%d" % j))
    mets = [First("s%d" % i, s) for i, s in enumerate(shifts)]
    fz = Frozen(dss, models)
    allv = [x + s for v in vecs for r in v for x in r for s in shifts]
    for bins, (start, end) in itertools.product((None, 1, 2, 3, 7), RANGES):
        nb = bins or max(len(v[0]) for v in vecs)
        want = edges(allv, nb, start, end)
        if want is None:
            continue
        p = query_wise_performance(dss, models, mets, bins=bins, start=start, end=end, cache=bins == 2)
        labelled(p, [("dataset", dss), ("model", models), ("metric", mets), ("bin", [float(b) for b in want])], "query_wise_performance(bins=%r, range=%r)" % (bins, (start, end)))
        for i, j, l in itertools.product(range(len(dss)), range(len(models)), range(len(mets))):
            verify_curve(p.values[i, j, l], p.coords["bin"].values, [x + shifts[l] for x in vecs[i][j]],
                         "query_wise_performance(bins=%r, range=%r)[%d,%d,%d]" % (bins, (start, end), i, j, l))
        ctx.evaluated()
    fz.check("query_wise_performance")
    if len(set(allv)) > 1:
        ctx.nontrivial(case)


def check_u(case, ctx):
    """Queries without a metric value are in no curve."""
    from rankeval.analysis.effectiveness import query_wise_performance
    from .tables import Partly, UNDEF, indexed, lookup_tree
    vecs = case
    dss = [indexed([0] * len(v), (1,) * len(v), "d%d" % i, first=100 * i) for i, v in enumerate(vecs)]
    tree = None
    for i in reversed(range(len(vecs))):
        part = lookup_tree(vecs[i], first=100 * i)
        tree = part if tree is None else (0, 100 * (i + 1) - 0.5, part, tree)
    sc = [[x for x in v if x != UNDEF] for v in vecs]
    allv = [x for v in sc for x in v]
    for bins, (start, end) in itertools.product((None, 1, 3), RANGES):
        if not allv and None in (start, end):
            continue
        nb = bins or max(map(len, vecs))
        want = edges(allv, nb, start, end)
        if want is None:
            continue
        p = query_wise_performance(dss, [ensemble([tree])], [Partly()], bins=bins, start=start, end=end)
        require(np.allclose(p.coords["bin"].values, want, atol=1e-6), "bins %r, expected %r", p.coords["bin"].values, want)
        for i, v in enumerate(sc):
            what = "query_wise_performance(bins=%r, range=%r) of %r (99: no value)" % (bins, (start, end), vecs[i])
            if v:
                verify_curve(p.values[i, 0, 0], p.coords["bin"].values, v, what)
            else:
                require(np.isnan(p.values[i, 0, 0]).all(), "%s: %r", what, p.values[i, 0, 0])
        ctx.evaluated()
    ctx.nontrivial(case)


def u_cases(t):
    from .tables import UNDEF
    al = (0.0, 0.5, 1.0, UNDEF)
    for n in range(1, 6 if t else 5):
        for v in itertools.product(al, repeat=n):
            if UNDEF in v:
                yield (v,)
    for n, m in itertools.product((1, 2), repeat=2):
        for v in itertools.product(al, repeat=n):
            for w in itertools.product(al, repeat=m):
                if UNDEF in v + w:
                    yield v, w


def q_cases(t):
    for n in range(1, 6 if t else 5):
        for v in itertools.product(AL, repeat=n):
            if n < 4 or v[0] <= v[-1]:
                yield ((v,),), (0.0,), 1 + n % 2
    for n, m in itertools.product((1, 2, 3), (1, 2)):
        for v in itertools.product(AL[::2] if n > 1 else AL, repeat=n):
            for w in itertools.product(AL[1:], repeat=m):
                yield ((v, v[::-1]), (w, (0.5,) * m)), (0.0, 0.125), 1
    for n in (17, 64, 100):
        yield ((tuple((i * 7 % 13) / 13.0 for i in range(n)),),), (0.0,), 1


def check_d(case, ctx):
    from rankeval.analysis.effectiveness import document_graded_relevance
    from .tables import Frozen, indexed, labelled, lookup_tree
    specs = case                         # per dataset: labels, scores, sizes
    dss = [indexed(l, z, "d%d" % i, first=100 * i) for i, (l, s, z) in enumerate(specs)]
    trees = []
    for neg in (1, -1):
        tree = None
        for i in reversed(range(len(specs))):
            part = lookup_tree([neg * x + (0 if neg == 1 else 0.5) for x in specs[i][1]], first=100 * i)
            tree = part if tree is None else (0, 100 * (i + 1) - 0.5, part, tree)
        trees.append(tree)
    models = [ensemble([x], name="m%d" % i) for i, x in enumerate(trees)]
    fz = Frozen(dss, models)
    sc = [[[x for x in s], [0.5 - x for x in s]] for _, s, _ in specs]
    allv = [x for d in sc for r in d for x in r]
    labels = sorted(set(x for l, _, _ in specs for x in l))
    for bins, (start, end) in itertools.product((None, 1, 3, 10), RANGES):
        nb = bins or max(len(z) for _, _, z in specs)
        want = edges(allv, nb, start, end)
        if want is None:
            continue
        p = document_graded_relevance(dss, models, bins=bins, start=start, end=end, cache=bins == 3)
        labelled(p, [("dataset", dss), ("model", models), ("label", [float(x) for x in labels]), ("bin", [float(b) for b in want])],
                 "document_graded_relevance(bins=%r, range=%r)" % (bins, (start, end)))
        for i, j, l in itertools.product(range(len(dss)), range(2), range(len(labels))):
            s = [x for x, y in zip(sc[i][j], specs[i][0]) if y == labels[l]]
            what = "document_graded_relevance(bins=%r, range=%r)[%d,%d,label %r]" % (bins, (start, end), i, j, labels[l])
            if s:
                verify_curve(p.values[i, j, l], p.coords["bin"].values, s, what)
            else:
                require(bool(np.isnan(p.values[i, j, l]).all()), "%s: no document has the label, got %r", what, p.values[i, j, l])
        ctx.evaluated()
    fz.check("document_graded_relevance")
    if len(labels) > 1:
        ctx.nontrivial(case)


def d_cases(t):
    for n in range(1, 5 if t else 4):
        for l in itertools.product((0, 1, 3) if n < 4 else (0, 2), repeat=n):
            for s in itertools.product(AL[:3] if n > 2 else AL, repeat=n):
                yield ((l, s, (n,) if n < 2 else (1, n - 1)),)
    for l in itertools.product((0, 1, 2.0), repeat=2):
        for k in itertools.product((1, 4.0), repeat=3):
            yield (l, (0.0, 1.0), (2,)), (k, (0.5, 0.25, 0.5), (1, 1, 1))
            yield (k, (0.5, 0.25, 1.5), (2, 1)), (l, (0.0, 1.0), (1, 1))


def at_most(values, bins, got, what):
    """verify_curve for many values."""
    v, n = np.sort(np.asarray(values, dtype=float)), float(len(values))
    eps = 1e-6 * np.maximum(1.0, np.abs(bins))
    lo, hi = np.searchsorted(v, bins - eps, "left") / n, np.searchsorted(v, bins + eps, "right") / n
    bad = np.where(~((lo - 1e-6 <= got) & (got <= hi + 1e-6)))[0]
    require(not len(bad), "%s at %r: %r, expected %r..%r", what, *([bins[bad[0]], got[bad[0]], lo[bad[0]], hi[bad[0]]] if len(bad) else [0] * 4))
    require(np.all(np.diff(got) >= -1e-6), "%s decreases", what)


def check_ladder(case, ctx):
    """Datasets of every size: each document (query) has one of 16 scores."""
    from rankeval.analysis.effectiveness import query_wise_performance, document_graded_relevance
    from .tables import First, Frozen, lookup_tree
    n, bins = case
    score = [((k * 7) % 16) * 0.25 - 1 for k in range(16)]
    dss, sc, labels = [], [], []
    for i, m in enumerate((n, max(1, n // 2))):
        which = (np.arange(m) * (5 + i) + np.arange(m) // 7) % 16
        X = np.zeros((m, 2), dtype=np.float32)
        X[:, 0] = which
        labels.append(np.arange(m) * 3 % 5 * (1 + i))
        dss.append(mkds(X, labels[-1].astype(np.float32), (1,) * m))
        dss[-1].name = "d%d" % i
        sc.append(np.array(score)[which])
    model, metric = ensemble([lookup_tree(score)], name="m"), First("first")
    fz = Frozen(dss, [model])
    p, g = query_wise_performance(dss, [model], [metric], bins=bins), document_graded_relevance(dss, [model], bins=bins)
    every = np.concatenate(sc)
    want = np.linspace(every.min(), every.max(), (bins or n) + 1)[1:]
    for what, t in (("query_wise_performance", p), ("document_graded_relevance", g)):
        b = np.array(t.coords["bin"].values, dtype=float)
        require(len(b) == len(want) and np.allclose(b, want, atol=1e-6), "%s(bins=%r): bins %r", what, bins, b[:5])
    allowed = sorted(set(np.concatenate(labels).tolist()))
    require([float(x) for x in g.coords["label"].values] == [float(x) for x in allowed], "labels %r", g.coords["label"].values)
    for i in (0, 1):
        at_most(sc[i], want, p.values[i, 0, 0], "query_wise_performance(bins=%r) of %d queries" % (bins, len(sc[i])))
        for l, v in enumerate(allowed):
            s = sc[i][labels[i] == v]
            if len(s):
                at_most(s, want, g.values[i, 0, l], "document_graded_relevance(bins=%r) of %d documents, label %r" % (bins, len(sc[i]), v))
            else:
                require(np.isnan(g.values[i, 0, l]).all(), "label %r is not in the dataset: %r", v, g.values[i, 0, l])
    fz.check("an analysis")
    ctx.evaluated(2)
    if n > 1:
        ctx.nontrivial(case)


def check_millions(case, ctx):
    """More documents of a label, or more queries, than single precision counts."""
    from rankeval.analysis.effectiveness import query_wise_performance, document_graded_relevance
    from rankeval.dataset import Dataset
    from .tables import First, lookup_tree
    kind, n, bins = case
    score = [0.0, 0.125, 0.5, 1.0]
    which = np.arange(n) * 4 // n
    X = np.ascontiguousarray(which.astype(np.float32)[:, None])
    model = ensemble([lookup_tree(score)], name="m")
    want = np.linspace(0, 1, bins + 1)[1:]
    s = np.array(score)[which]
    if kind == "documents":
        ds = Dataset(X, np.zeros(n, dtype=np.float32), np.arange(n) // 100000)
        p = document_graded_relevance([ds], [model], bins=bins).values[0, 0, 0]
    else:
        class Scores(First):
            """The scores themselves, of queries of one document."""
            def eval(self, dataset, y_pred):
                return 0.0, np.array(y_pred)
        ds = Dataset(X, np.zeros(n, dtype=np.float32), np.arange(n))
        p = query_wise_performance([ds], [model], [Scores("s")], bins=bins).values[0, 0, 0]
    at_most(s, want, p, "distribution over %d %s in %d bins" % (n, kind, bins))
    ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("queries", lambda: q_cases(t), check_q), Unit("undefined", lambda: u_cases(t), check_u), Unit("labels", lambda: d_cases(t), check_d),
            Unit("millions", [(k, n, b) for n in (MILLIONS if not t else MILLIONS + [(1 << 24) + 3, (1 << 25) + 3]) for k in ("documents", "queries") for b in (1, 8, 100)] +
                 [("documents", (1 << 25) + 3, 8)], check_millions, stall=300),
            Unit("ladder", [(n, b) for n in (LADDER if t else SHORT_LADDER) + GIANT for b in (None, 1, 10, 300)], check_ladder)]
