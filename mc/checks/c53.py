"""C53: what data and models are worth does not depend on where they come from."""
import bz2, gzip, itertools, os, warnings
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *
from . import formats

PROPERTY, LEVEL = "C53", "exploration"
RULE = ("every ensemble of the universe (shapes up to the leaf bound, lists of trees) from every source (every supported file format in several "
        "variants, files saved by the library, larger files cut to size, copies, node numberings) x the same dataset from every source (arrays in "
        "several layouts, SVMlight files plain and compressed, dumps, selections from larger datasets) x every operation and analysis; "
        "results must be those of the hand-built ensemble and dataset; non-trivial: the ensemble has a split")
ASSUMPTIONS = ["tree weights, learning rate and base score are ones every format can state", "no document lies within 1e-6 of a threshold",
               "splits are numbered before the splits below them"]

THR = (0.5, -1.0, 2.0)
SIZES = (3, 1, 4, 2)
QIDS = (2, 5, 6, 9)
LABELS = (0, 2, 1, 1, 0, 3, 1, 0, 4, 2)


def content():
    n = sum(SIZES)
    g = (-3.25, -0.75, 0.75, 1.25, 3.25, 0.25)
    X = np.array([[g[(i * (2 * f + 1) + f + i // 3) % 6] for f in range(3)] for i in range(n)], dtype=F32)
    return X, np.array(LABELS, dtype=F32), np.array(expand(QIDS, SIZES), dtype=np.int32)


def text(X, y, q):
    return "".join("%g qid:%d %s\n" % (b, c, " ".join("%d:%r" % (j + 1, float(v)) for j, v in enumerate(r) if v)) for r, b, c in zip(X, y, q))


def datasets():
    from rankeval.dataset import Dataset
    X, y, q = content()
    out = {"arrays": Dataset(X, y, q, name="d")}
    for k, v in (("Fortran order", np.asfortranarray(X)), ("strided", np.repeat(X, 2, axis=1)[:, ::2]), ("reversed twice", X[::-1].copy()[::-1])):
        out[k] = Dataset(v, y, q, name="d")
    out["integer labels"] = Dataset(X, y.astype(np.int64), q.astype(np.int64), name="d")
    out["lists"] = Dataset(X, np.repeat(y, 2)[::2], np.repeat(q, 3)[::3], name="d")

    def load(data, suffix):
        p = scratch(suffix)
        try:
            with open(p, "wb") as f:
                f.write(data)
            return Dataset.load(p, name="d")
        finally:
            os.unlink(p)
    b = text(X, y, q).encode()
    out["file"] = load(b, ".svm")
    out["file with comments"] = load(b"# x\n" + b.replace(b"\n", b" # doc\r\n"), ".svm")
    out["gzip file"] = load(gzip.compress(b), ".svm.gz")
    out["bzip2 file"] = load(bz2.compress(b), ".svm.bz2")
    p = scratch(".svm")
    try:
        out["arrays"].dump(p)
        out["dump"] = Dataset.load(p, name="d")
        Dataset.load(p, name="d").dump(p)
        out["dump of a dump"] = Dataset.load(p, name="d")
    finally:
        os.unlink(p)
    # parts of something larger
    big = Dataset(np.concatenate((X[:3], X[:4] - 5, X[3:4], X[4:6] * 7, X[4:], X[:2])), np.concatenate((y[:3], y[:4], y[3:4], y[:2], y[4:], y[:2])),
                  np.concatenate((q[:3], [3] * 4, q[3:4], [88] * 2, q[4:], [1] * 2)).astype(np.int32), name="big")
    out["queries of a larger dataset"] = big.subset(list(QIDS), name="d")
    wide = Dataset(np.concatenate((X[:, 1:2] * 3, X[:, :1], X[:, 1:2], X[:, :2] + 1, X[:, 2:]), axis=1), y, q, name="wide")
    s = wide.subset_features([1, 2, 5])
    s.name = "d"
    out["features of a larger dataset"] = s
    return out


def sources(T, extra):
    """name -> loader of the ensemble with exactly the trees T."""
    from rankeval.model import RTEnsemble

    def load(data, fmt, n=None, **kw):
        p = scratch(".model")
        try:
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
            return RTEnsemble(p, name="m", format=fmt, **(dict(kw, n_trees=n) if n else kw))
        finally:
            os.unlink(p)

    def resave(e):
        p = scratch(".xml")
        try:
            e.save(p)
            return RTEnsemble(p, name="m", format="QuickRank")
        finally:
            os.unlink(p)
    rev = [(by_level(t), list(range(count_leaves(t)))[::-1]) for t in T]
    n = len(T)
    o = {"QuickRank": lambda: load(formats.quickrank(T), "QuickRank"),
         "QuickRank, right first": lambda: load(formats.quickrank(T, mirrored=True, info=False, ids=formats.IDS[5]), "QuickRank"),
         "QuickRank, cut": lambda: load(formats.quickrank(T + extra), "QuickRank", n),
         "LightGBM": lambda: load(formats.lightgbm(T), "LightGBM"),
         "LightGBM, recent": lambda: load(formats.lightgbm(T, rev, recent=True), "LightGBM"),
         "LightGBM, cut": lambda: load(formats.lightgbm(T + extra, old=True), "LightGBM", n),
         "Jforests": lambda: load(formats.jforests(T, perms=rev), "Jforests"),
         "Jforests, quantised": lambda: load(formats.jforests(T, quantised=2, indent="  "), "Jforests"),
         "XGBoost": lambda: load(formats.xgboost(T), "XGBoost", base_score=0.0),
         "XGBoost, pruned": lambda: load(formats.xgboost(T, stats=True, gaps=3), "XGBoost", base_score=0.0),
         "XGBoost, cut": lambda: load(formats.xgboost(T + extra), "XGBoost", n, base_score=0.0),
         "scikit-learn": lambda: load(formats.sklearn(T), "ScikitLearn"),
         "scikit-learn, by level": lambda: load(formats.sklearn(T, base=0.0, lr=1.0, order="bfs"), "ScikitLearn"),
         "by level": lambda: ensemble(T, order="bfs"),
         "copy": lambda: ensemble(T).copy(),
         "cut copy": lambda: ensemble(T + extra, order="bfs").copy(n),
         "saved": lambda: resave(ensemble(T, order="bfs"))}
    if any(t[0] == "L" for t in T):         # Jforests writes trees with at least one split
        o = {k: f for k, f in o.items() if "Jforests" not in k}
    for k in [k for k in ("LightGBM", "Jforests", "XGBoost", "scikit-learn") if k in o]:
        o[k + ", saved"] = lambda k=k: resave(o[k]())
        o[k + ", copied"] = lambda k=k: o[k]().copy()
    L = [levels(t) for t in T]
    if all(l is not None for l in L):
        for order in ("leaf-first", "root-first"):
            o["CatBoost, " + order] = lambda order=order: load(formats.coreml(L, node_order=order), "CatBoost")
        o["CatBoost, cut and saved"] = lambda: resave(load(formats.coreml(L + [([(0, 0.5)], [3.0, 4.0])], behaviors=lambda t, h: False), "CatBoost", n))
    return o


def by_level(t):
    """The new numbers of the splits when they are numbered by level instead of depth first."""
    pre = [n["t"] for n in flatten(t) if n["t"][0] != "L"]
    bfs = [n["t"] for n in flatten(t, "bfs") if n["t"][0] != "L"]
    return [[b is a for b in bfs].index(True) for a in pre]


def levels(t):
    """Splits by level and leaves, if the tree is oblivious."""
    if t[0] == "L":
        return [], [t[1]]
    a, b = levels(t[2]), levels(t[3])
    if a is None or b is None or a[0] != b[0]:
        return None
    return [(t[0], t[1])] + a[0], a[1] + b[1]


def drawn(dot):
    from .dot import parse
    nodes, edges, _ = parse(dot)
    kids = {}
    for a, b, _ in edges:
        kids.setdefault(a, []).append(b)
    root = set(nodes) - {b for _, b, _ in edges}
    assert len(root) == 1

    def go(g):
        return (nodes[g].get("label"),) + tuple(go(k) for k in kids.get(g, []))
    return go(root.pop())


_ops = {}


def operations():
    if _ops:
        return _ops
    import io
    from rankeval import metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    from rankeval.analysis import effectiveness as E, topological as To, feature as Fe, statistical as S
    from rankeval.visualization.topological import export_graphviz
    ms = [M.NDCG(cutoff=3), M.DCG(), M.MSE(), M.RMSE(), M.MAP(), M.MRR(), M.ERR(), M.Pfound(), M.RBP(), M.Precision(cutoff=2), M.Recall(cutoff=2),
          M.Kendalltau(), M.SpearmanRho(), PrecisionMax()]

    def topo(m, leaves):
        r = To.topological_analysis(m, include_leaves=leaves)
        return r.topology.toarray(), r.height_trees, r.avg_tree_shape().toarray(), r.fullness_per_level(), tuple(r.describe_tree_height()) if m.n_trees > 1 else ()

    def detailed(d, m):
        y, part, leaves = m.score(d, detailed=True)
        return y, part, m.trees_nodes_value[leaves]

    def graph(d, m, **kw):
        return [drawn(export_graphviz(m, tree_id=i, **kw)) for i in range(m.n_trees)]
    _ops.update({
        "score": lambda d, m: m.score(d, cache=False),
        "detailed score": detailed,
        "sizes": lambda d, m: (m.num_leaves(), m.num_nodes(), m.height_trees(), m.max_leaves(), m.n_trees, m.n_nodes),
        "cut": lambda d, m: [m.copy(k).score(d) for k in range(1, m.n_trees + 1)],
        "performance": lambda d, m: E.model_performance([d], [m], ms).values,
        "tree-wise": lambda d, m: E.tree_wise_performance([d], [m], ms[:4], step=1).values,
        "contribution": lambda d, m: E.tree_wise_average_contribution([d], [m]).values,
        "query-wise": lambda d, m: E.query_wise_performance([d], [m], ms[:4], bins=4, start=0.0, end=2.0).values,
        "classes": lambda d, m: E.query_class_performance([d], [m], ms[:4], [["a", "b", "a", "c"]]).values,
        "graded": lambda d, m: E.document_graded_relevance([d], [m], bins=5, start=0.0, end=100.0).values,
        "confusion": lambda d, m: E.rank_confusion_matrix([d], [m]).values,
        "importance": lambda d, m: Fe.feature_importance(m, d).values,
        "importance, sums": lambda d, m: Fe.feature_importance(m, d, normalize=False).values,
        "importance, NDCG": lambda d, m: Fe.feature_importance(m, d, metric=M.NDCG(cutoff=2)).values,
        "significance": lambda d, m: S.statistical_significance([d], m, ensemble([("L", 1.0)]), [ms[0], ms[2]], n_perm=5).values,
        "topology": lambda d, m: topo(m, True),
        "topology of splits": lambda d, m: topo(m, False),
        "drawing": lambda d, m: graph(d, m),
        "drawing of leaves": lambda d, m: graph(d, m, output_leaves=m.score(d, detailed=True)[2], label_show=True, proportion=True),
        "bias": lambda d, m: S.bias_variance([d], [lambda X, y, q, V: V[:, 0] * y.mean() + len(X) + q[0]], [ms[2], ms[0]], L=2, k=2).values,
        "dataset": lambda d, m: (d.n_instances, d.n_features, d.n_queries, d.X, d.y, d.query_ids, d.query_offsets, d.get_query_sizes(), d.get_qids_dataset(), str(d)),
        "selection": lambda d, m: [(s.X, s.y, s.query_ids) for s in (d.subset([9, 2]), d.subset_features([2, 0]), d.split(0.5, random_state=5)[0])],
        "dump": lambda d, m: dumped(d),
    })
    return _ops


def dumped(d):
    p = scratch(".svm")
    try:
        d.dump(p)
        with open(p) as f:
            return f.read()
    finally:
        os.unlink(p)


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)] if len(x) else []
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flat(x[k])]
    return [x]


def agree(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        else:
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.allclose(x.astype(float), y.astype(float), rtol=2e-6, atol=1e-6, equal_nan=True):
                return False
    return True


_ds = {}


def run(name, d, m):
    np.random.seed(7)
    return operations()[name](d, m)


def check(case, ctx):
    warnings.simplefilter("ignore")
    kind, spec, pairs = case
    if not _ds:
        _ds.update(datasets())
    T = trees_of(kind, spec)
    extra = [auto((None, None), 5, thrs=THR)]
    base_d = _ds["arrays"]
    m0 = ensemble(T, order="pre")
    want = {k: run(k, base_d, m0) for k in operations()}
    models = {"by hand": lambda: ensemble(T)}
    models.update(sources(T, extra))
    for ms, make in models.items():
        m = make()
        for dn, d in _ds.items():
            if not pairs and dn != "arrays" and ms != "by hand":
                continue
            for k in operations():
                if k in ("bias", "dataset", "selection", "dump") and ms != "by hand":
                    continue
                if dn != "arrays" and k in ("sizes", "topology", "topology of splits", "drawing"):
                    continue
                try:
                    got = run(k, d, m)
                except Exception as e:
                    require(False, "%s of the trees %r from %s on the dataset from %s fails: %s: %s", k, T, ms, dn, type(e).__name__, e, key=k)
                require(agree(want[k], got), "%s of the trees %r from %s on the dataset from %s is %r, but %r by hand", k, T, ms, dn, got, want[k], key=k)
                ctx.evaluated()
    if any(t[0] != "L" for t in T):
        ctx.nontrivial(case)


def trees_of(kind, spec):
    if kind == "shapes":
        return [auto(s, i, thrs=THR) for i, s in enumerate(spec)]
    out = []
    for i, d in enumerate(spec):
        sp = [((i + j * 2) % 3, THR[(i + j) % 3]) for j in range(d)]
        out.append(formats.oblivious(sp, [(j + 1) * 8.0 ** i / 8 for j in range(2 ** d)]))
    return out


def cases(t):
    for s in all_shapes(5 if t else 4):
        yield "shapes", (s,), n_leaves(s) == 3 or t
    for c in itertools.product(all_shapes(3), repeat=2):
        yield "shapes", c, False
    for c in itertools.product(all_shapes(3 if t else 2), repeat=3):
        yield "shapes", c, t
    for n in (1, 2, 3):
        for c in itertools.product(range(4 if n < 3 else 3), repeat=n):
            yield "oblivious", c, n == 1 and t


def units(tier):
    t = tier == "thorough"
    return [Unit("sources", lambda: cases(t), check)]
