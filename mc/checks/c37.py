"""C37: what cannot be done is rejected, and leaves no trace."""
import io, itertools, os, shutil
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C37", "model_checking"
RULE = ("every call of the universe of calls that cannot be honoured (unsupported formats, missing or unusable files, sizes that do not "
        "match, shares and folds out of range, features or queries the data does not have), after every history of good calls up to the depth "
        "bound and in every pair; each must raise, leave every file and object as it was, and every good call that follows must answer "
        "as in a history without the rejected calls; non-trivial: every history")
ASSUMPTIONS = ["the exception type is not checked"]

N = 7
SIZES = (3, 1, 3)


class World:
    """Objects that live through a history, and the directory their files are in."""
    def __init__(self):
        from rankeval.dataset import Dataset
        from rankeval.model import RTEnsemble
        from rankeval import metrics as m
        from rankeval.metrics.precision_max import PrecisionMax
        self.dir = scratch("dir")
        os.unlink(self.dir)
        os.mkdir(self.dir)
        X = make_X(N, 3) - 2
        self.ds = Dataset(X, (np.arange(N) * 2 % 5).astype(F32), np.array(expand((4, 2, 9), SIZES), dtype=np.int32), name="d")
        self.few = Dataset(X[:, :2].copy(), self.ds.y.copy(), self.ds.get_qids_dataset(), name="few")
        sh = [((None, None), None), (None, None), (None, (None, None))]
        far = (1000000, 16777216, 2 ** 31 - 1, -5, 300)
        self.wide = Dataset(X, self.ds.y, np.array(expand(far, (2, 1, 1, 2, 1)), dtype=np.int32), name="wide")
        self.trees = [auto(s, i) for i, s in enumerate(sh)]
        self.m = ensemble(self.trees, [1.0, 0.5, 2.0], name="m")
        self.m2 = ensemble([(0, 0.5, ("L", 1.0), ("L", 2.0))], name="m2")
        self.metrics = [m.NDCG(cutoff=2), m.DCG(implementation="exp"), m.MSE(), m.RMSE(), m.Precision(cutoff=2), m.Recall(), m.MAP(), m.MRR(),
                        m.ERR(), m.Pfound(), m.RBP(), PrecisionMax()]
        self.file("a.svm", "1 qid:1 1:0.5 2:2\n0 qid:1 1:-1\n2 qid:3 2:4\n")
        self.file("bad1.svm", "1 qid:1 2:0.5 1:2\n")
        self.file("bad2.svm", "1 qid:1 x:0.5\n")
        self.file("bad3.svm", "x qid:1 1:0.5\n")
        self.file("m.xml", STUB)
        self.file("keep.xml", "keep this")
        os.mkdir(self.path("folder"))
        self.model = RTEnsemble(self.path("m.xml"), name="file")
        self.n = 0

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def file(self, name, text):
        with open(self.path(name), "w") as f:
            f.write(text)

    def files(self):
        out = {}
        for r, dirs, fs in os.walk(self.dir):
            for d in dirs:
                out[os.path.join(r, d)] = None
            for f in fs:
                with open(os.path.join(r, f), "rb") as fo:
                    out[os.path.join(r, f)] = fo.read()
        return out

    def objects(self):
        out = []
        for d in (self.ds, self.few, self.wide):
            out.append((d.name, d.n_instances, d.n_features, d.n_queries) + tuple(np.array(a).tobytes() for a in (d.X, d.y, d.query_ids, d.query_offsets)))
        for e in (self.m, self.m2, self.model):
            out.append((e.name, e.n_trees, e.n_nodes, e.learning_rate, e.base_score) + tuple(np.array(a).tobytes() for a in (
                e.trees_root, e.trees_weight, e.trees_nodes_feature, e.trees_nodes_value, e.trees_left_child, e.trees_right_child)))
        return out

    def close(self):
        shutil.rmtree(self.dir)


def canon(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (tuple, list)):
        return tuple(map(canon, x))
    if hasattr(x, "query_offsets"):
        return ("dataset", x.name, canon(x.X), canon(x.y), canon(x.query_ids), canon(x.query_offsets))
    if hasattr(x, "trees_root"):
        return ("model", x.name, x.n_trees, x.n_nodes) + tuple(canon(a) for a in (x.trees_root, x.trees_weight, x.trees_nodes_value, x.trees_nodes_feature))
    if hasattr(x, "coords"):
        return canon(np.asarray(x.values))
    return repr(x)


def written(w, f):
    p = w.path("out")
    f(p)
    with open(p, "rb") as fo:
        r = fo.read()
    os.unlink(p)
    return r


def good():
    """name -> call; their answers are what a user sees."""
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    from rankeval.analysis import effectiveness as E, topological as T, feature as Fe
    g = {
        "load": lambda w: Dataset.load(w.path("a.svm"), name="l"),
        "dump": lambda w: written(w, w.ds.dump),
        "split": lambda w: w.ds.split(0.4, 0.3, random_state=3),
        "kfold": lambda w: list(w.ds.kfold(3, shuffle=False)),
        "subset": lambda w: w.ds.subset([9, 4], name="s"),
        "features": lambda w: w.ds.subset_features([2, 0]),
        "offsets": lambda w: [w.ds.get_query_offsets(q) for q in (4, 2, 9)],
        "far offsets": lambda w: [w.wide.get_query_offsets(q) for q in (1000000, 16777216, 2 ** 31 - 1, -5, 300)],
        "qids": lambda w: (w.ds.get_qids_dataset(), w.ds.get_query_sizes()),
        "hash": lambda w: (hash(w.ds) == hash(w.ds.subset([4, 2, 9])), w.ds == w.few, w.ds == w.ds),
        "model": lambda w: RTEnsemble(w.path("m.xml")).score(w.few),
        "save": lambda w: written(w, w.m.save),
        "copy": lambda w: w.m.copy(2),
        "score": lambda w: w.m.score(w.ds),
        "cached": lambda w: w.m.score(w.ds, cache=True),
        "detailed": lambda w: w.m.score(w.ds, detailed=True, cache=True),
        "score few": lambda w: w.m2.score(w.few, cache=True),
        "eval": lambda w: [x.eval(w.ds, np.arange(N, dtype=F32) % 4) for x in w.metrics],
        "query": lambda w: [x.eval_per_query(w.ds.y[:3], np.array([1, 3, 2], dtype=F32)) for x in w.metrics],
        "performance": lambda w: E.model_performance([w.ds, w.few], [w.m2], w.metrics[:3], cache=True),
        "topology": lambda w: T.topological_analysis(w.m).height_trees,
        "importance": lambda w: Fe.feature_importance(w.m, w.ds),
    }
    return g


def bad():
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files, dump_svmlight_file
    from rankeval.model import RTEnsemble
    from rankeval import metrics as M
    from rankeval.analysis import effectiveness as E, topological as T, feature as Fe, statistical as S
    b = {}
    unknown = ("libsvm", "SVMLight", "svm", "", None, "csv")
    for f in unknown:
        b["load format %r" % (f,)] = lambda w, f=f: Dataset.load(w.path("a.svm"), format=f)
        b["dump format %r" % (f,)] = lambda w, f=f: w.ds.dump(w.path("new"), format=f)
        b["dump over, format %r" % (f,)] = lambda w, f=f: w.ds.dump(w.path("keep.xml"), format=f)
    for p in ("missing.svm", "folder", "bad1.svm", "bad2.svm", "bad3.svm", os.path.join("nowhere", "a.svm"), "missing.gz", "a.svm/b"):
        b["load %s" % p] = lambda w, p=p: Dataset.load(w.path(p))
        b["read %s" % p] = lambda w, p=p: load_svmlight_file(w.path(p), query_id=True)
        b["read many, %s" % p] = lambda w, p=p: load_svmlight_files([w.path("a.svm"), w.path(p)], query_id=True)
    for k, v in (("float", 3.5), ("None", None), ("list", ["a"]), ("descriptor", 10 ** 6)):
        b["load from %s" % k] = lambda w, v=v: Dataset.load(v)
        b["dump to %s" % k] = lambda w, v=v: w.ds.dump(v)

    def closed(mode):
        def f(w):
            with open(w.path("a.svm"), "rb") as fo:
                pass
            return Dataset.load(fo) if mode == "r" else w.ds.dump(fo)
        return f

    def readonly(w):
        with open(w.path("a.svm"), "r") as fo:
            w.ds.dump(fo)

    def writeonly(w):
        with open(os.devnull, "wb") as fo:
            Dataset.load(fo)
    b["load from a closed file"], b["dump to a closed file"] = closed("r"), closed("w")
    b["dump to a file open for reading"], b["load from a file open for writing"] = readonly, writeonly
    for p in ("folder", os.path.join("nowhere", "a.svm"), "a.svm/b"):
        b["dump to %s" % p] = lambda w, p=p: w.ds.dump(w.path(p))
        b["save to %s" % p] = lambda w, p=p: w.m.save(w.path(p))
    for what, q, y in (("short queries", N - 1, N), ("long queries", N + 1, N), ("no queries", 0, N), ("short labels", N, N - 1), ("long labels", N, N + 1),
                       ("no labels", N, 0), ("short both", N - 1, N - 1), ("long both", N + 2, N + 2)):
        b["Dataset with %s" % what] = lambda w, q=q, y=y: Dataset(w.ds.X, np.zeros(y, dtype=F32), np.arange(q, dtype=np.int32))
        b["dump with %s" % what] = lambda w, q=q, y=y: dump_svmlight_file(w.ds.X, np.zeros(y, dtype=F32), w.path("new"), np.arange(q, dtype=np.int32))
        b["dump over with %s" % what] = lambda w, q=q, y=y: dump_svmlight_file(w.ds.X, np.zeros(y, dtype=F32), w.path("keep.xml"), np.arange(q, dtype=np.int32))
    for a in ((-0.1, 0), (1.1, 0), (0.6, 0.6), (0.5, -0.25), (0, -0.5), (1, -0.5), (1, 0.5), (-0.5, 0.5), (0, 1.5), (2, -1), (0.5, float("inf"))):
        b["split %r" % (a,)] = lambda w, a=a: w.ds.split(*a, random_state=1)
    for r in ("a", 1.5, [1.5], b"x", object, {}):
        b["split seeded with %r" % (r,)] = lambda w, r=r: w.ds.split(0.5, 0.25, random_state=r)
    for k in (-3, -1, 0, 1, 4, 5, 8, 100, "3", None):
        for qo in (False, True):
            b["kfold %r %r" % (k, qo)] = lambda w, k=k, qo=qo: list(w.ds.kfold(k, qids_only=qo))
    for f in ([3], [0, 5], [-4], ["a"], [0.5]):
        b["subset_features %r" % (f,)] = lambda w, f=f: w.ds.subset_features(f)
    for q in (0, 1, 3, 5, 10, -4, 2 ** 31, 4.5):
        b["query %r" % q] = lambda w, q=q: w.ds.get_query_offsets(q)
    for q in (1000001, 999999, 16777217, 16777215, 2 ** 31 - 2, 2 ** 31, -2 ** 31, 5, -4, -6, 44, 301, 300.5, 65536 + 300, 2 ** 32 - 5, 2 ** 32 + 300, 0):
        b["far query %r" % q] = lambda w, q=q: w.wide.get_query_offsets(q)
    for f in ("quickrank", "Quickrank", "XGboost", "lightgbm", "", None, "Unknown"):
        b["model format %r" % (f,)] = lambda w, f=f: RTEnsemble(w.path("m.xml"), format=f)
        for p in ("new", "keep.xml"):
            b["save %s as %r" % (p, f)] = lambda w, f=f, p=p: w.m.save(w.path(p), format=f)
    for f in ("LightGBM", "XGBoost", "CatBoost", "Jforests", "ScikitLearn"):
        b["load QuickRank as %s" % f] = lambda w, f=f: RTEnsemble(w.path("m.xml"), format=f)
        for p in ("new", "keep.xml"):
            b["save %s as %s" % (p, f)] = lambda w, f=f, p=p: w.m.save(w.path(p), format=f)
    for p in ("missing", "folder", "keep.xml", "a.svm"):
        b["model %s" % p] = lambda w, p=p: RTEnsemble(w.path(p))
    for k in (0, -1, -2, -3, -7, "2"):
        b["copy %r" % k] = lambda w, k=k: w.m.copy(k)
        b["load %r trees" % k] = lambda w, k=k: RTEnsemble(w.path("m.xml"), n_trees=k)
    for c in (False, True):
        for d in (False, True):
            b["score few, %d %d" % (c, d)] = lambda w, c=c, d=d: w.m.score(w.few, detailed=d, cache=c)
            b["score nothing, %d %d" % (c, d)] = lambda w, c=c, d=d: w.m.score(None, detailed=d, cache=c)
            b["score a matrix, %d %d" % (c, d)] = lambda w, c=c, d=d: w.m.score(w.ds.X, detailed=d, cache=c)
    for i in range(12):
        for k in (0, 1, N - 1, N + 1, N - 3, 2 * N):
            b["eval %d of %d" % (i, k)] = lambda w, i=i, k=k: w.metrics[i].eval(w.ds, np.arange(k, dtype=F32))
        b["eval %d of nothing" % i] = lambda w, i=i: w.metrics[i].eval(w.ds, None)
    for c in (M.DCG, M.NDCG):
        for im in ("Flat", "exponential", "", None):
            b["%s %r" % (c.__name__, im)] = lambda w, c=c, im=im: c(implementation=im).eval(w.ds, np.arange(N, dtype=F32))
            b["%s %r, a query" % (c.__name__, im)] = lambda w, c=c, im=im: c(implementation=im).eval_per_query(w.ds.y[:3], np.arange(3, dtype=F32))
    lists = [[0], [1, 0], [0, 1]]
    for l in lists:
        for c in (False, True):
            dss = lambda w, l=l: [(w.few, w.ds)[i] for i in l]
            tag = "%r %d" % (l, c)
            b["model_performance " + tag] = lambda w, d=dss, c=c: E.model_performance(d(w), [w.m2, w.m], w.metrics[:2], cache=c)
            b["tree_wise_performance " + tag] = lambda w, d=dss, c=c: E.tree_wise_performance(d(w), [w.m2, w.m], w.metrics[:2], step=1, cache=c)
            b["contribution " + tag] = lambda w, d=dss, c=c: E.tree_wise_average_contribution(d(w), [w.m2, w.m], cache=c)
            b["query_wise " + tag] = lambda w, d=dss, c=c: E.query_wise_performance(d(w), [w.m2, w.m], w.metrics[:2], bins=3, cache=c)
            b["query_class " + tag] = lambda w, d=dss, c=c, l=l: E.query_class_performance(d(w), [w.m2, w.m], w.metrics[:2], [[0, 1, 0]] * len(l), cache=c)
            b["graded " + tag] = lambda w, d=dss, c=c: E.document_graded_relevance(d(w), [w.m2, w.m], cache=c)
            b["confusion " + tag] = lambda w, d=dss, c=c: E.rank_confusion_matrix(d(w), [w.m2, w.m], cache=c)
            for p in ((0, 1), (1, 0)):
                b["significance %r " % (p,) + tag] = lambda w, d=dss, c=c, p=p: S.statistical_significance(
                    d(w), (w.m2, w.m)[p[0]], (w.m2, w.m)[p[1]], w.metrics[:1], n_perm=2, cache=c)
    for n in (True, False):
        for k in (None, 2, 0):
            b["importance %r %r" % (n, k)] = lambda w, n=n, k=k: Fe.feature_importance(w.m, w.few, metric=None if k is None else w.metrics[k], normalize=n)
    b["query_class, too many"] = lambda w: E.query_class_performance([w.ds], [w.m], w.metrics[:1], [[0, 1, 0, 1]])
    b["query_class, missing"] = lambda w: E.query_class_performance([w.ds, w.ds], [w.m], w.metrics[:1], [[0, 1, 0]])
    b["tree_wise, step 0"] = lambda w: E.tree_wise_performance([w.ds], [w.m], w.metrics[:1], step=0)
    b["significance, no permutation"] = lambda w: S.statistical_significance([w.ds], w.m, w.m2, w.metrics[:1], n_perm=0)
    for k in (-1, -2, -10):
        b["significance, %d permutations" % k] = lambda w, k=k: S.statistical_significance([w.ds], w.m, w.m2, w.metrics[:1], n_perm=k)
        b["tree_wise, step %d" % k] = lambda w, k=k: E.tree_wise_performance([w.ds], [w.m], w.metrics[:1], step=k)
    for what, q in (("too few", [[0, 1]]), ("none", [[]]), ("a list too many", [[0, 1, 0], [0]]), ("too few, then too many", [[0, 1], [0, 1, 0, 1]]),
                    ("one of them short", [[0, 1, 0], [1, 1]])):
        b["query_class, " + what] = lambda w, q=q: E.query_class_performance([w.ds] * (2 if len(q) > 1 and len(q[1]) > 1 else 1), [w.m], w.metrics[:1], q)
    for ids in ((4, 2, 4, 2, 9, 9, 9), (1, 1, 1, 2, 2, 2, 1), (-1, 5, 5, 5, 5, 5, -1)):
        b["Dataset with row ids %r" % (ids,)] = lambda w, ids=ids: Dataset(w.ds.X, w.ds.y, np.array(ids, dtype=np.int32))
    b["query_wise, reversed"] = lambda w: E.query_wise_performance([w.ds], [w.m], w.metrics[:1], bins=3, start=5, end=1)
    for k in ((1, 0), (0, 2), (-1, 2), (1, 1), (1, -1)):
        b["bias_variance %r %r" % k] = lambda w, k=k: S.bias_variance([w.ds], [lambda X, y, q, Z: np.zeros(len(Z))], [w.metrics[2]], L=k[0], k=k[1])
    b["bias_variance, wrong scores"] = lambda w: S.bias_variance([w.ds], [lambda X, y, q, Z: np.zeros(len(Z) + 1)], [w.metrics[2]], L=2, k=3)
    b["topology, too high"] = lambda w: T.topological_analysis(ensemble([chain(70)]))
    from rankeval.visualization.topological import export_graphviz
    for k, v in (("tree_id", 3), ("tree_id", 99), ("precision", -1), ("precision", "x"), ("feature_names", ["a"]), ("feature_names", [])):
        b["export_graphviz %s=%r" % (k, v)] = lambda w, k=k, v=v: export_graphviz(w.m, **{k: v})
        for p in ("keep.xml", "new"):
            b["export_graphviz %s=%r to %s" % (k, v, p)] = lambda w, k=k, v=v, p=p: export_graphviz(w.m, out_file=w.path(p), **{k: v})
    b["export_graphviz label to a file"] = lambda w: export_graphviz(w.m, label="none", out_file=w.path("keep.xml"), output_leaves=w.m.score(w.ds, detailed=True)[2])
    b["export_graphviz label"] = lambda w: export_graphviz(w.m, label="none", output_leaves=w.m.score(w.ds, detailed=True)[2])
    return b


NAMES = {}


def names(which):
    if which not in NAMES:
        NAMES[which] = {"good": good, "bad": bad}[which]()
    return NAMES[which]


_ref = {}


def play(history, rotate):
    """Answers of the good calls of a history and of all of them afterwards; the bad calls must raise and change nothing."""
    G, B = names("good"), names("bad")
    w = World()
    out = []
    try:
        for kind, name in history:
            if kind == "g":
                out.append(canon(G[name](w)))
                continue
            files, objs = w.files(), w.objects()
            try:
                r = B[name](w)
            except Exception:
                pass
            else:
                raise Violation("%r is accepted and gives %r" % (name, r), key=name)
            require(w.files() == files, "%r was rejected but changed the files: %r", name, sorted(set(w.files()) ^ set(files)), key=name)
            require(w.objects() == objs, "%r was rejected but changed the objects it was given", name, key=name)
        order = list(G)
        for name in order[rotate:] + order[:rotate]:
            try:
                out.append((name, canon(G[name](w))))
            except Exception as e:
                raise Violation("%r fails with %s: %s" % (name, type(e).__name__, e))
    finally:
        w.close()
    return out


def check(case, ctx):
    pre, bads, post = case
    rotate = sum(map(len, pre + bads)) % len(names("good"))
    calm = (pre, rotate, post)
    if calm not in _ref:
        _ref[calm] = play([("g", p) for p in pre + post], rotate)
    got = play([("g", p) for p in pre] + [("b", x) for x in bads] + [("g", p) for p in post], rotate)
    for a, b in zip(got, _ref[calm]):
        require(a == b, "after the rejected %r, the answer of a good call changed: %r instead of %r", bads, a, b)
    require(len(got) == len(_ref[calm]), "a good call is missing")
    ctx.evaluated(len(bads))
    ctx.trace()
    ctx.state(case)
    ctx.nontrivial(case)


def cases(t):
    G, B = list(names("good")), list(names("bad"))
    for x in B:
        yield (), (x,), ()
    for x in B:
        for g in G:
            yield (g,), (x,), ()
    state = [x for x in B if x.split()[0] in ("eval", "score", "significance", "model_performance", "tree_wise_performance", "contribution", "query_wise",
                                              "query_class", "graded", "confusion", "importance", "NDCG", "DCG")]
    for x in state:
        for y in state if t else state[::7]:
            yield (), (x, y), ()
    deep = ("cached", "detailed", "eval", "performance", "score few", "hash")
    for x in state:
        for g in itertools.product(deep, repeat=2):
            yield g, (x,), ()
    if t:
        for x in B:
            for g in itertools.product(G, repeat=2):
                yield g, (x,), ()
        for x, y in itertools.product(B, repeat=2):
            yield (), (x, y), ()
        for x, y in itertools.product(state[::5], repeat=2):
            for g in deep:
                yield (g,), (x, y), ()


def units(tier):
    t = tier == "thorough"
    return [Unit("histories", lambda: cases(t), check)]
