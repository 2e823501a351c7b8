"""C39: calling conventions: defaults, keywords and positions."""
import io, itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C39", "exploration"
RULE = ("every public operation with optional arguments x every choice of a value for each of them within the deviation bound x every way of "
        "passing them (omitted where the value is the documented default, by keyword, the first k by position for every k); all ways must give the "
        "same answer; non-trivial: the answer differs from the answer with all defaults")
ASSUMPTIONS = ["the order and the defaults of the arguments are those of the documented signatures"]

N = 11
_w = {}


def world():
    """Read-only objects."""
    if _w:
        return _w
    from rankeval.dataset import Dataset
    from rankeval.analysis import topological as T, feature as Fe, effectiveness as E
    from rankeval import metrics as M
    X = make_X(N, 3) - 3
    X = X[np.arange(N) * 7 % N]
    ds = Dataset(X, np.array([0, 1, 2, 0, 3, 1, 1, 0, 2, 0, 1], dtype=F32), np.array(expand((4, 2, 9), (4, 2, 5)), dtype=np.int32), name="d")
    sh = [((None, None), None), (None, None), (None, (None, None)), ((None, None), (None, None))]
    trees = [auto(sh[i % 4], i, thrs=(1.5, -1.0, 3.0)) for i in range(12)]
    _w.update(ds=ds, m=ensemble(trees, [1.0 + i % 3 for i in range(12)], name="m"), m2=ensemble(trees[3:8], name="m2"),
              y=np.array([3, 1, 2, 0, 5, 4, 4, 7, 1, 6, 2], dtype=F32))
    _w["short"] = Dataset(X[:8], ds.y[:8], ds.get_qids_dataset()[:8], name="short")
    _w["x"] = scratch(".xml")
    with open(_w["x"], "w") as f:
        f.write("<ranker><ensemble>" + "".join(
            '<tree id="%d" weight="1"><split><feature>%d</feature><threshold>%d</threshold><split pos="left"><output>%d</output></split>'
            '<split pos="right"><output>-2</output></split></split></tree>' % (i, i % 3 + 1, i - 1, i + 1) for i in range(4)) + "</ensemble></ranker>")
    _w["s"] = scratch(".svm")
    with open(_w["s"], "w") as f:
        f.write("1 qid:1 1:0.5 2:2\n0 qid:1 1:-1\n2 qid:3 2:4\n")
    _w["leaves"] = _w["m"].score(ds, detailed=True)[2]
    return _w


def canon(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes()) if x.dtype != object else tuple(map(canon, x.ravel()))
    if isinstance(x, (tuple, list)):
        return tuple(map(canon, x))
    if hasattr(x, "query_offsets"):
        return ("dataset", x.name, canon(x.X), canon(x.y), canon(x.query_ids), canon(x.query_offsets))
    if hasattr(x, "trees_root"):
        return ("model", x.name, x.n_trees, x.n_nodes, x.learning_rate, x.base_score) + tuple(canon(a) for a in (
            x.trees_root, x.trees_weight, x.trees_nodes_value, x.trees_nodes_feature))
    if hasattr(x, "coords"):
        return (x.name, x.dims, canon(np.asarray(x.values)), tuple(tuple(map(str, x.coords[d].values)) for d in x.dims if d in x.coords))
    if hasattr(x, "savefig"):
        x.set_dpi(30)
        x.canvas.draw()
        return bytes(np.asarray(x.canvas.buffer_rgba()))
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return tuple((k, canon(v)) for k, v in sorted(vars(x).items()))
    return repr(x)


def via_file(f):
    p = scratch()
    try:
        f(p)
        with open(p, "rb") as fo:
            return fo.read()
    finally:
        os.unlink(p)


def metric(cls):
    def f(w, *a, **k):
        m = cls(*a, **k)
        return str(m), m.eval(w["ds"], w["y"]), m.eval(w["short"], w["y"][:8]), m.eval_per_query(w["ds"].y[6:], w["y"][6:])
    return f


def entries():
    """name: (call(world, *optional, **optional), [(argument, [default, other values])])."""
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files, dump_svmlight_file
    from rankeval.model import RTEnsemble
    from rankeval import metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    from rankeval.analysis import effectiveness as E, topological as T, feature as Fe, statistical as S
    from rankeval.visualization.topological import export_graphviz
    cut = ("cutoff", [None, 1, 3])
    thr = ("threshold", [1, 2, 3])
    cache = ("cache", [False, True])
    name = lambda d: ("name", [d, "other"])
    q = np.array([1, 1, 2], dtype=np.int32)
    Z, zy = make_X(3, 2), np.array([1, 0, 2], dtype=F32)
    algos = [lambda X, y, qs, V: V[:, 0] * y.mean() + len(X), lambda X, y, qs, V: np.full(len(V), y[:1].sum() + qs[0])]
    e = {
        "load_svmlight_file": (lambda w, *a, **k: load_svmlight_file(w["s"], *a, **k), [("query_id", [False, True])]),
        "load_svmlight_files": (lambda w, *a, **k: load_svmlight_files([w["s"], w["s"]], *a, **k), [("query_id", [False, True])]),
        "dump_svmlight_file": (lambda w, *a, **k: via_file(lambda p: dump_svmlight_file(Z, zy, p, *a, **k)),
                               [("query_id", [None, q]), ("zero_based", [False, True])]),
        "Dataset": (lambda w, *a, **k: Dataset(Z, zy, q, *a, **k), [name(None)]),
        "Dataset.load": (lambda w, *a, **k: Dataset.load(w["s"], *a, **k), [name(None), ("format", ["svmlight"])]),
        "Dataset.dump": (lambda w, *a, **k: via_file(lambda p: w["ds"].dump(p, *a, **k)), [("format", ["svmlight"])]),
        "Dataset.split": (lambda w, *a, **k: w["ds"].split(0.4, *a, **k), [("vali_size", [0, 0.3]), ("random_state", [None, 3])]),
        "Dataset.subset": (lambda w, *a, **k: w["ds"].subset([9, 4], *a, **k), [name(None)]),
        "Dataset.get_qids_dataset": (lambda w, *a, **k: w["ds"].get_qids_dataset(*a, **k), [("dtype", [np.int32, np.int64])]),
        "Dataset.kfold": (lambda w, *a, **k: list(w["five"].kfold(*a, **k)), [("n_folds", [5, 2, 3, 4, 6, 7]), ("qids_only", [False, True]), ("shuffle", [True, False])]),
        "RTEnsemble": (lambda w, *a, **k: (lambda m: (m, m.score(w["ds"])))(RTEnsemble(w["x"], *a, **k)),
                       [name(None), ("format", ["QuickRank"]), ("base_score", [None, 0.5]), ("learning_rate", [1, 0.5]), ("n_trees", [None, 1, 2, 9])]),
        "RTEnsemble.save": (lambda w, *a, **k: via_file(lambda p: w["m"].save(p, *a, **k)), [("format", ["QuickRank"])]),
        "RTEnsemble.score": (lambda w, *a, **k: w["m2"].copy().score(w["ds"], *a, **k), [("detailed", [False, True]), cache]),
        "RTEnsemble.copy": (lambda w, *a, **k: w["m"].copy(*a, **k), [("n_trees", [None, 1, 5, 99])]),
        "Precision": (metric(M.Precision), [name("P"), cut, thr]),
        "Recall": (metric(M.Recall), [name("R"), ("no_relevant_results", [0.0, 1.0, 0.5]), cut, thr]),
        "NDCG": (metric(M.NDCG), [name("NDCG"), cut, ("no_relevant_results", [1.0, 0.0, 0.5]), ("implementation", ["exp", "flat"])]),
        "DCG": (metric(M.DCG), [name("DCG"), cut, ("implementation", ["flat", "exp"])]),
        "ERR": (metric(M.ERR), [name("ERR"), cut]),
        "MAP": (metric(M.MAP), [name("MAP"), cut, ("no_relevant_results", [1.0, 0.0, 0.5])]),
        "MRR": (metric(M.MRR), [name("MRR"), cut, thr]),
        "Pfound": (metric(M.Pfound), [name("Pf"), cut, ("p_abandonment", [0.15, 0.5, 0.0])]),
        "RBP": (metric(M.RBP), [name("RBP"), cut, thr, ("p", [0.5, 0.9, 0.1])]),
        "MSE": (metric(M.MSE), [name("MSE"), cut]),
        "RMSE": (metric(M.RMSE), [name("RMSE"), cut]),
        "Kendalltau": (metric(M.Kendalltau), [name("K")]),
        "SpearmanRho": (metric(M.SpearmanRho), [name("Rho")]),
        "PrecisionMax": (metric(PrecisionMax), [name("P"), cut]),
        "model_performance": (lambda w, *a, **k: E.model_performance([w["ds"]], [w["m"]], w["metrics"], *a, **k), [cache]),
        "tree_wise_performance": (lambda w, *a, **k: E.tree_wise_performance([w["ds"]], [w["m"]], w["metrics"], *a, **k), [("step", [10, 1, 5, 9, 11]), cache]),
        "tree_wise_average_contribution": (lambda w, *a, **k: E.tree_wise_average_contribution([w["ds"]], [w["m"]], *a, **k), [cache]),
        "query_wise_performance": (lambda w, *a, **k: E.query_wise_performance([w["ds"], w["short"]], [w["m"]], w["metrics"], *a, **k),
                                   [("bins", [None, 2, 5]), ("start", [None, 0.0, 0.25]), ("end", [None, 1.0, 200.0]), cache]),
        "query_class_performance": (lambda w, *a, **k: E.query_class_performance([w["ds"]], [w["m"]], w["metrics"], [["a", "b", "a"]], *a, **k), [cache]),
        "document_graded_relevance": (lambda w, *a, **k: E.document_graded_relevance([w["ds"], w["short"]], [w["m"]], *a, **k),
                                      [("bins", [100, None, 10, 99, 101]), ("start", [None, 0.0, 5.0]), ("end", [None, 1e6, 1e7]), cache]),
        "rank_confusion_matrix": (lambda w, *a, **k: E.rank_confusion_matrix([w["ds"]], [w["m"]], *a, **k), [("skip_same_label", [False, True]), cache]),
        "topological_analysis": (lambda w, *a, **k: T.topological_analysis(w["m"], *a, **k), [("include_leaves", [True, False])]),
        "feature_importance": (lambda w, *a, **k: Fe.feature_importance(w["m"], w["ds"], *a, **k),
                               [("metric", [None, w_metric("MSE"), w_metric("NDCG")]), ("normalize", [True, False])]),
        "statistical_significance": (lambda w, *a, **k: S.statistical_significance([w["ds"]], w["m"], w["m2"], w["metrics"][:1], *a, **k),
                                     [("n_perm", [100000, 10, 1000]), cache]),
        "bias_variance": (lambda w, *a, **k: S.bias_variance([w["five"]], algos, w["metrics"][:1], *a, **k), [("L", [10, 2, 9, 11]), ("k", [2, 3, 5])]),
        "bias_variance lists": (lambda w, *a, **k: S.bias_variance(*a, **k), [("datasets", [None]), ("algos", [None]), ("metrics", [None])]),
        "export_graphviz": (lambda w, *a, **k: export_graphviz(w["m"], *a, **k),
                            [("tree_id", [0, 3]), ("out_file", [None]), ("max_depth", [None, 0, 1]), ("output_leaves", [None, w_leaves()]), ("label", ["all", "leaves"]),
                             ("label_show", [False, True]), ("feature_names", [None, ["a", "b", "c"]]), ("highlight_leaves", [False, True]),
                             ("leaves_parallel", [False, True]), ("node_ids", [False, True]), ("rounded", [False, True]), ("proportion", [False, True]),
                             ("special_characters", [False, True]), ("precision", [3, 0, 2, 4])]),
    }
    del e["bias_variance lists"]
    w = world()
    w["five"] = Dataset(w["ds"].X, w["ds"].y, np.array(expand((4, 2, 9, 1, 7, 3, 8), (2, 2, 1, 1, 2, 1, 2)), dtype=np.int32), name="five")
    w["metrics"] = [M.MSE(), M.NDCG(cutoff=2), M.Precision(cutoff=1)]
    return e


def w_metric(n):
    from rankeval import metrics as M
    return getattr(M, n)()


def w_leaves():
    return world()["leaves"]


_e = {}


def table():
    if not _e:
        _e.update(entries())
    return _e


def call(f, a, k):
    w = world()
    np.random.seed(20)
    try:
        return canon(f(w, *a, **k))
    except Exception as e:
        return ("error", type(e).__name__)


def show(params, idx, how):
    return ", ".join(("%s" if h == "position" else "(%s)" if h == "omitted" else p + "=%s") % (repr(v[i])[:30],) for (p, v), i, h in zip(params, idx, how))


def check(case, ctx):
    name, idx = case
    f, params = table()[name]
    n = len(params)
    values = [v[i] for (_, v), i in zip(params, idx)]
    want = call(f, (), {p: v for (p, _), v in zip(params, values)})
    if name != "export_graphviz" or "label" not in dict(params):
        require(want[0] != "error" if isinstance(want, tuple) and want else True, "%s(%s) fails with %r", name, show(params, idx, ["keyword"] * n), want)
    ctx.evaluated()
    zero = [j for j in range(n) if idx[j] == 0]
    ways = []
    for k in range(n + 1):                          # the first k by position, and each of the others by keyword or omitted if it is the default
        rest = [j for j in zero if j >= k]
        subs = itertools.chain.from_iterable(itertools.combinations(rest, r) for r in range(len(rest) + 1)) if len(rest) < 4 else \
            [(), tuple(rest)] + [(j,) for j in rest] + [tuple(x for x in rest if x != j) for j in rest]
        for omitted in subs:
            ways.append(["position" if j < k else "omitted" if j in omitted else "keyword" for j in range(n)])
    for how in ways:
        a = [v for v, h in zip(values, how) if h == "position"]
        k = {p: v for (p, _), v, h in zip(params, values, how) if h == "keyword"}
        got = call(f, a, k)
        ctx.evaluated()
        require(got == want, "%s(%s) differs from passing all arguments by keyword", name, show(params, idx, how), key=name)
    if any(idx):
        if (name, "default") not in _e.setdefault("#", {}):
            _e["#"][name, "default"] = call(f, (), {})
        if want != _e["#"][name, "default"]:
            ctx.nontrivial((name, idx))
            ctx.count("calls_that_differ_from_the_default")
            return
        ctx.count("calls_that_agree_with_the_default")
    else:
        ctx.count("all_defaults")


def cases(t):
    for name, (f, params) in list(table().items()):
        if name == "#":
            continue
        n = len(params)
        size = int(np.prod([len(v) for _, v in params]))
        dev = n if size <= 100 else (4 if t else 3) if n < 8 else (3 if t else 2)
        for idx in itertools.product(*[range(len(v)) for _, v in params]):
            if sum(1 for i in idx if i) <= dev:
                yield name, idx


# ---------------------------------------------------------------- plots
def check_plot(case, ctx):
    from .c48 import setup, objects, importance_table, table as tab
    plt, E = setup()
    import rankeval.visualization.feature as F
    import rankeval.visualization.topological as V
    from rankeval.analysis.topological import topological_analysis
    name, idx = case
    params = PLOTS[name]
    dims = {"plot_model_performance": ("dataset", "model", "metric"), "plot_tree_wise_performance": ("dataset", "model", "k", "metric"),
            "plot_query_wise_performance": ("dataset", "model", "metric", "bin"), "plot_query_class_performance": ("dataset", "model", "metric", "classes")}
    if name in dims:
        f, p = getattr(E, name), tab("P", dims[name], (2,) * len(dims[name]), {"k": np.arange(2), "bin": np.arange(2.0)})
    elif name == "plot_shape":
        f, p = V.plot_shape, topological_analysis(ensemble([chain(12)]))
    else:
        f, p = F.plot_feature_importance, importance_table([(i * 7 % 13 + 1) / 8.0 for i in range(13)], [i * 5 % 13 for i in range(13)])
    values = [v[i] for (_, v), i in zip(params, idx)]

    def draw(a, k):
        plt.close("all")
        r = f(p, *a, **k)
        out = canon(r)
        plt.close("all")
        return out
    want = draw((), {q: v for (q, _), v in zip(params, values)})
    n = len(params)
    zero = [j for j in range(n) if idx[j] == 0]
    for k in range(n + 1):
        for how in ("keyword", "omitted"):
            hows = ["position" if j < k else how if j in zero else "keyword" for j in range(n)]
            got = draw([v for v, h in zip(values, hows) if h == "position"], {q: v for (q, _), v, h in zip(params, values, hows) if h == "keyword"})
            require(got == want, "%s(%s) differs from passing all arguments by keyword", name, show(params, idx, hows), key=name)
            ctx.evaluated()
    if any(idx):
        if draw((), {}) != want:
            ctx.nontrivial(case)
            ctx.count("calls_that_differ_from_the_default")


PLOTS = {
    "plot_model_performance": [("compare", ["models", "metrics"]), ("show_values", [False, True])],
    "plot_tree_wise_performance": [("compare", ["models", "metrics", "datasets"])],
    "plot_query_wise_performance": [("compare", ["models", "metrics"])],
    "plot_query_class_performance": [("show_values", [False, True]), ("compare", ["models", "metrics"])],
    "plot_feature_importance": [("max_features", [10, None, 9, 11]), ("sort_by", ["gain", "count"]), ("feature_names", [None, ["f%d" % i for i in range(13)]])],
    "plot_shape": [("max_level", [10, 9, 11])],
}


def plot_cases():
    for name, params in PLOTS.items():
        for idx in itertools.product(*[range(len(v)) for _, v in params]):
            yield name, idx


def units(tier):
    t = tier == "thorough"
    return [Unit("operations", lambda: cases(t), check), Unit("plots", plot_cases, check_plot)]
