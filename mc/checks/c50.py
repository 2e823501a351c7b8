"""C50: calls are independent of each other."""
import gc, io, itertools, locale, logging, os, signal, sys, threading, warnings
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C50", "model_checking"
RULE = ("every sequence of operations (loading, selecting, splitting, scoring, metrics, analyses, exports, plots) up to the depth bound on shared "
        "datasets, models and metric objects; every answer must be bitwise the answer the operation gives when it is called alone, the answers "
        "returned before, the objects and the process-wide settings must be left as they were; writing over an answer must change neither the objects nor later answers; non-trivial: every sequence of at least two operations")
ASSUMPTIONS = ["np.random is seeded before each operation", "answers are compared through their public fields"]

N = 9
SIZES = (3, 1, 3, 2)
QIDS = (4, 2, 9, 3)


class World:
    def __init__(self):
        from rankeval.dataset import Dataset
        from rankeval import metrics as M
        from rankeval.metrics.precision_max import PrecisionMax
        from rankeval.analysis import effectiveness as E, topological as T, feature as Fe
        X = make_X(N, 3)[np.arange(N) * 4 % N] - 3
        q = np.array(expand(QIDS, SIZES), dtype=np.int32)
        y = np.array([0, 2, 1, 1, 0, 3, 0, 1, 1], dtype=F32)
        self.ds = Dataset(X, y, q, name="a")
        self.ds2 = Dataset(X[::-1] * 2 - 1, y[::-1].copy(), q[::-1].copy(), name="a")                # same name, other documents
        self.ds3 = Dataset(X.copy(), np.array(y[[1, 0] + list(range(2, N))]), q.copy(), name="c")     # differs in two labels only
        self.ds4 = Dataset(X.copy(), y.copy(), q.copy(), name="d")                                    # equal to ds
        sh = [((None, None), None), (None, None), (None, (None, None)), ((None, None), (None, None))]
        T1 = [auto(sh[i % 4], i, thrs=(0.5, -1.0, -2.5)) for i in range(5)]
        self.m = ensemble(T1, [1.0, 0.5, 2.0, 1.0, -1.0], name="m")
        self.m2 = ensemble(T1[1:4], [1.0, 1.0, 3.0], lr=0.5, base=0.25, name="m")
        self.metrics = {"NDCG": M.NDCG(cutoff=2), "NDCG flat": M.NDCG(implementation="flat"), "DCG": M.DCG(cutoff=3), "MSE": M.MSE(), "RMSE": M.RMSE(),
                        "Precision": M.Precision(cutoff=2), "Recall": M.Recall(), "MAP": M.MAP(), "MRR": M.MRR(), "ERR": M.ERR(cutoff=2),
                        "Pfound": M.Pfound(), "RBP": M.RBP(), "Kendalltau": M.Kendalltau(), "SpearmanRho": M.SpearmanRho(), "PrecisionMax": PrecisionMax()}
        self.y = np.array([3, 1, 2, 0, 5, 4, 4, 7, 1], dtype=F32)
        self.classes = [["a", "b", "a", "c"], ["c", "b", "b", "a"]]
        self.names = ["x", "y", "z"]
        self.x = scratch(".xml")
        with open(self.x, "w") as f:
            f.write(STUB)
        self.s = scratch(".svm")
        with open(self.s, "w") as f:
            f.write("1 qid:1 1:0.5 2:2\n0 qid:1 1:-1\n2 qid:3 2:4\n")
        self.leaves = self.m.copy().score(self.ds, detailed=True)[2]
        self.perf = E.model_performance([self.ds], [self.m.copy()], [M.MSE(), M.Precision()])
        self.topo = T.topological_analysis(self.m.copy())
        self.imp = Fe.feature_importance(self.m.copy(), self.ds)

    def close(self):
        os.unlink(self.x)
        os.unlink(self.s)

    def inputs(self):
        out = []
        for d in (self.ds, self.ds2, self.ds3, self.ds4):
            out.append((d.name, d.n_instances, d.n_features, d.n_queries) + tuple((np.array(a).tobytes(), np.asarray(a).dtype.str) for a in (d.X, d.y, d.query_ids, d.query_offsets)))
        for e in (self.m, self.m2):
            out.append((e.name, e.n_trees, e.n_nodes, e.learning_rate, e.base_score) + tuple(np.array(a).tobytes() for a in (
                e.trees_root, e.trees_weight, e.trees_nodes_feature, e.trees_nodes_value, e.trees_left_child, e.trees_right_child)))
        for k, m in sorted(self.metrics.items()):
            out.append((k, str(m)) + tuple((n, repr(getattr(m, n))) for n in ("name", "cutoff", "threshold", "p", "p_abandonment", "no_relevant_results", "implementation") if hasattr(m, n)))
        out += [self.y.tobytes(), repr(self.classes), repr(self.names), self.leaves.tobytes(), canon(self.perf), canon(self.topo), canon(self.imp)]
        for p in (self.x, self.s):
            with open(p, "rb") as f:
                out.append(f.read())
        return out


def settings():
    """Process-wide settings a library has no business changing."""
    from matplotlib import rcParams
    return (sorted(np.geterr().items()), sorted(np.get_printoptions().items(), key=str), sys.getrecursionlimit(), os.getcwd(), sorted(os.environ.items()),
            list(sys.path), os.umask(0o22), os.umask(0o22), locale.setlocale(locale.LC_ALL), gc.isenabled(), gc.get_threshold(), sys.getswitchinterval(),
            [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)], threading.active_count(), sys.stdout, sys.stderr,
            sys.excepthook, logging.root.level, list(logging.root.handlers), [dict.get(rcParams, k) for k in sorted(rcParams)], list(warnings.filters))


def canon(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes()) if x.dtype != object else (x.shape, tuple(map(canon, x.ravel())))
    if isinstance(x, (tuple, list)):
        return tuple(map(canon, x))
    if isinstance(x, dict):
        return tuple((k, canon(v)) for k, v in sorted(x.items()))
    if hasattr(x, "query_offsets"):
        return ("dataset", x.name, canon(x.X), canon(x.y), canon(x.query_ids), canon(x.query_offsets))
    if hasattr(x, "trees_root"):
        return ("model", x.name, x.n_trees, x.n_nodes, x.learning_rate, x.base_score) + tuple(canon(a) for a in (
            x.trees_root, x.trees_weight, x.trees_nodes_value, x.trees_nodes_feature, x.trees_left_child, x.trees_right_child))
    if hasattr(x, "coords"):
        return (x.name, x.dims, canon(np.asarray(x.values)), tuple(tuple(map(str, x.coords[d].values)) for d in x.dims if d in x.coords))
    if hasattr(x, "savefig"):
        x.set_dpi(25)
        x.canvas.draw()
        return bytes(np.asarray(x.canvas.buffer_rgba()))
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return tuple((k, canon(v)) for k, v in sorted(vars(x).items()))
    return repr(x)


def via_file(f, suffix=""):
    p = scratch(suffix)
    try:
        f(p)
        with open(p, "rb") as fo:
            return fo.read()
    finally:
        os.unlink(p)


def algo(X, y, q, V):
    return V[:, 0] * y.mean() + len(X) + q[0]


def operations():
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_files
    from rankeval.model import RTEnsemble
    from rankeval.analysis import effectiveness as E, topological as T, feature as Fe, statistical as S
    from rankeval.visualization.topological import export_graphviz, plot_shape
    import rankeval.visualization.effectiveness as VE, rankeval.visualization.feature as VF
    from matplotlib import pyplot as plt
    ms = lambda w, *k: [w.metrics[n] for n in k]
    o = {
        "load": lambda w: Dataset.load(w.s, name="l"),
        "load many": lambda w: load_svmlight_files([w.s, w.s], query_id=True),
        "dump": lambda w: via_file(w.ds.dump),
        "dump ds2": lambda w: via_file(w.ds2.dump),
        "split": lambda w: w.ds.split(0.5, 0.25, random_state=3),
        "split random": lambda w: w.ds.split(0.5),
        "kfold": lambda w: list(w.ds.kfold(2)),
        "kfold in order": lambda w: list(w.ds.kfold(4, shuffle=False)),
        "subset": lambda w: w.ds.subset([9, 4], name="s"),
        "features": lambda w: w.ds.subset_features([2, 0]),
        "queries": lambda w: (list(w.ds.query_iterator()), w.ds.get_query_sizes(), w.ds.get_qids_dataset(), w.ds.get_query_offsets(9)),
        "equality": lambda w: (w.ds == w.ds2, w.ds == w.ds3, w.ds == w.ds4, hash(w.ds) == hash(w.ds4), hash(w.ds) == hash(w.ds3), hash(w.ds)),
        "model": lambda w: RTEnsemble(w.x, name="f").score(w.ds),
        "save": lambda w: via_file(w.m.save),
        "save m2": lambda w: via_file(lambda p: w.m2.copy().save(p)),
        "copy": lambda w: (w.m.copy(), w.m.copy(2)),
        "prune a copy": lambda w: (w.m.copy(3).score(w.ds), w.m2.copy(1).score(w.ds2)),
        "sizes": lambda w: (w.m.num_leaves(), w.m.num_nodes(), w.m.height_trees(), w.m.max_leaves(), w.m2.num_leaves()),
        "clear": lambda w: (w.m.clear_cache(), w.m2.clear_cache()),
        "topology": lambda w: T.topological_analysis(w.m),
        "topology of splits": lambda w: T.topological_analysis(w.m, include_leaves=False),
        "importance": lambda w: Fe.feature_importance(w.m, w.ds),
        "importance NDCG": lambda w: Fe.feature_importance(w.m2, w.ds3, metric=w.metrics["NDCG"], normalize=False),
        "bias": lambda w: S.bias_variance([w.ds], [algo], ms(w, "MSE"), L=2, k=2),
        "bias NDCG": lambda w: S.bias_variance([w.ds3], [algo], ms(w, "NDCG"), L=2, k=3),
        "graph": lambda w: export_graphviz(w.m, tree_id=2),
        "graph of leaves": lambda w: export_graphviz(w.m, tree_id=3, output_leaves=w.leaves, label_show=True, feature_names=w.names, proportion=True),
        "plot shape": lambda w: plot_shape(w.topo, max_level=4),
        "plot importance": lambda w: VF.plot_feature_importance(w.imp, feature_names=w.names),
        "plot performance": lambda w: VE.plot_model_performance(w.perf),
        "eval unlike": lambda w: [w.metrics[k].eval(d, w.y) for k in ("NDCG", "MSE", "RMSE", "Kendalltau") for d in (w.ds, w.ds3)],
    }
    for k in ("ds", "ds2", "ds3", "ds4"):
        for m in ("m", "m2"):
            for det in (False, True):
                for c in (False, True):
                    if k in ("ds", "ds3") or c and m == "m":
                        o["%s score %s%s%s" % (m, k, " detailed" * det, " cached" * c)] = lambda w, k=k, m=m, det=det, c=c: getattr(w, m).score(getattr(w, k), detailed=det, cache=c)
    some = ("NDCG", "NDCG flat", "DCG", "MSE", "RMSE", "Precision", "Recall", "MAP", "MRR", "ERR", "Pfound", "RBP", "Kendalltau", "SpearmanRho", "PrecisionMax")
    for k in some:
        o["%s eval ds" % k] = lambda w, k=k: w.metrics[k].eval(w.ds, w.y)
        o["%s a query" % k] = lambda w, k=k: w.metrics[k].eval_per_query(w.ds2.y[:3], w.y[4:7])
    for k in ("NDCG", "RMSE", "MSE", "DCG"):
        o["%s eval ds2" % k] = lambda w, k=k: w.metrics[k].eval(w.ds2, w.y)
        o["%s eval ds3" % k] = lambda w, k=k: w.metrics[k].eval(w.ds3, w.y)
    for c in (False, True):
        t = " cached" * c
        o["performance" + t] = lambda w, c=c: E.model_performance([w.ds, w.ds2, w.ds3], [w.m, w.m2], ms(w, "NDCG", "MSE", "RMSE", "Precision"), cache=c)
        o["tree-wise" + t] = lambda w, c=c: E.tree_wise_performance([w.ds, w.ds2], [w.m, w.m2], ms(w, "NDCG", "RMSE"), step=2, cache=c)
        o["contribution" + t] = lambda w, c=c: E.tree_wise_average_contribution([w.ds, w.ds2], [w.m, w.m2], cache=c)
        o["query-wise" + t] = lambda w, c=c: E.query_wise_performance([w.ds, w.ds2], [w.m, w.m2], ms(w, "NDCG", "MSE"), bins=4, cache=c)
        o["classes" + t] = lambda w, c=c: E.query_class_performance([w.ds, w.ds2], [w.m, w.m2], ms(w, "NDCG", "MSE"), w.classes, cache=c)
        o["graded" + t] = lambda w, c=c: E.document_graded_relevance([w.ds, w.ds2], [w.m, w.m2], bins=3, cache=c)
        o["confusion" + t] = lambda w, c=c: E.rank_confusion_matrix([w.ds, w.ds2], [w.m, w.m2], cache=c)
        o["significance" + t] = lambda w, c=c: S.statistical_significance([w.ds, w.ds2], w.m, w.m2, ms(w, "NDCG", "MSE"), n_perm=6, cache=c)
    return o


_o, _alone = {}, {}


def ops():
    if not _o:
        import matplotlib
        matplotlib.use("Agg")
        warnings.simplefilter("ignore")
        _o.update(operations())
    return _o


def call(w, name, keep=None):
    np.random.seed(11)
    r = ops()[name](w)
    c = canon(r)
    from matplotlib import pyplot as plt
    if plt.get_fignums():
        plt.close("all")        # what was drawn is not looked at again
    elif keep is not None:
        keep.append((name, r, c))
    return c


def alone(name):
    if name not in _alone:
        w = World()
        glob = settings()
        call(w, name)
        require(settings()[:-1] == glob[:-1], "%r changes a setting of the process: %s", name, where(settings(), glob), key=name)
        w.close()
        w = World()
        warnings.filters[:] = glob[-1]      # what was imported meanwhile may have added some, once
        warnings._filters_mutated()
        glob = settings()
        _alone[name] = call(w, name)
        require(settings() == glob, "%r changes a setting of the process: %s", name, where(settings(), glob), key=name)
        w.close()
    return _alone[name]


def check(case, ctx):
    seq = case
    names = list(ops())
    for n in seq:
        alone(n)
    w = World()
    try:
        before, glob, kept = w.inputs(), settings(), []
        for i, n in enumerate(seq):
            got = call(w, n, kept)
            require(got == alone(n), "%r after %r answers %s", n, seq[:i], where(got, alone(n)), key=n)
            require(settings() == glob, "%r changes a setting of the process", n, key=n)
        after = w.inputs()
        require(after == before, "%r change the objects they are given: %s", seq, where(tuple(after), tuple(before)))
        for n, r, c in kept:
            require(canon(r) == c, "the answer of %r changes when %r follow", n, seq, key=n)
    finally:
        w.close()
    ctx.evaluated(len(seq))
    ctx.trace()
    ctx.state(seq)
    ctx.transition(len(seq)) if hasattr(ctx, "transition") else None
    if len(seq) > 1:
        ctx.nontrivial(seq)


def arrays(r):
    """The arrays of an answer."""
    if isinstance(r, np.ndarray):
        return [a for x in r.ravel() for a in arrays(x)] if r.dtype == object else [r]
    if isinstance(r, (tuple, list)):
        return [a for x in r for a in arrays(x)]
    if isinstance(r, dict):
        return [a for x in r.values() for a in arrays(x)]
    if hasattr(r, "query_offsets"):
        return [r.X, r.query_ids, r.query_offsets] + ([] if r.X.shape[0] == N and hasattr(r, "y") else [r.y])     # selections of features share the labels
    if hasattr(r, "trees_root"):
        return [getattr(r, f) for f in ("trees_root", "trees_weight", "trees_nodes_value", "trees_nodes_feature", "trees_left_child", "trees_right_child")]
    if hasattr(r, "coords"):
        return [r.values]
    if hasattr(r, "tocsr"):
        return [r.data, r.indices, r.indptr]
    return []


def check_over(case, ctx):
    """An answer belongs to who asked: writing over it changes neither the arguments nor later answers."""
    a, b = case
    alone(b)
    w = World()
    try:
        before = w.inputs()
        np.random.seed(11)
        r = ops()[a](w)
        from matplotlib import pyplot as plt
        plt.close("all")
        n = sum(map(scribble, arrays(r)))
        after = w.inputs()
        require(after == before, "writing over the answer of %r changes what it was given: %s", a, where(tuple(after), tuple(before)), key=a)
        got = call(w, b)
        require(got == alone(b), "%r answers %s when the answer of %r is written over before", b, where(got, alone(b)), a,
                key="cached scores written over" if " score " in a and a.endswith(" cached") else (a, b))
    finally:
        w.close()
    ctx.evaluated()
    ctx.transition(2)
    ctx.trace()
    if n:
        ctx.nontrivial(case)


def where(a, b, path=""):
    """The place of the first difference."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, "%s[%d]" % (path, i))
    show = lambda x: repr(np.frombuffer(x[2], dtype=x[1])[:6]) if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], bytes) and isinstance(x[1], str) else repr(x)[:80]
    return "%s instead of %s at %s" % (show(a), show(b), path or "the top")


def cases(t):
    names = list(ops())
    for n in names:
        yield (n,)
    slow = [n for n in names if n.startswith("plot")]
    fast = [n for n in names if n not in slow]
    for a, b in itertools.product(names, repeat=2):
        if (a in slow or b in slow) and not t and not (a == b or names.index(a) % 6 == 0 or names.index(b) % 6 == 0):
            continue
        yield a, b
    state = [n for n in fast if "score" in n and ("cached" in n or n.endswith("ds")) or n in ("clear", "NDCG eval ds", "NDCG eval ds2", "NDCG eval ds3", "NDCG a query", "equality",
             "performance cached", "tree-wise cached", "significance cached", "importance", "prune a copy", "bias NDCG", "contribution cached", "RMSE eval ds")]
    for c in itertools.product(state[::1 if t else 2], repeat=3):
        yield c
    if t:
        for a, b in itertools.product(state, repeat=2):
            for c in fast:
                yield a, b, c
        for c in itertools.product(state[::5], repeat=4):
            yield c


def over_cases(t):
    names = [n for n in ops() if not n.startswith("plot")]
    return itertools.product(names, repeat=2)


def units(tier):
    t = tier == "thorough"
    return [Unit("sequences", lambda: cases(t), check), Unit("written over", lambda: over_cases(t), check_over)]
