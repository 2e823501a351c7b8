"""C36: labels of metrics, datasets and models."""
import itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C36", "model_checking"
RULE = ("every metric class x names x cutoffs x relevance thresholds, labelled before and after evaluations (pairwise: different "
        "cutoffs or thresholds have different labels); every sequence of load/subset/feature-subset/split on datasets and of "
        "load/copy/prune on models up to the depth bound against a model of the names; non-trivial: a configuration or a history that is not the default")
ASSUMPTIONS = ["names are strings without @ and ["]

CUTS = [None] + list(range(1, 31)) + [50, 100, 1000]
THRS = [0, 1, 2, 3, 4, 5, 0.5, 1.5]
NAMES = ["M", "my metric", "P", "nDCG (test)", "x" * 70, "\u00e9\u4e2d"]

def classes():
    from rankeval import metrics as m
    with_cut = ["DCG", "NDCG", "ERR", "Pfound", "MAP", "MRR", "Precision", "Recall", "RBP", "MSE", "RMSE"]
    out = [(getattr(m, n), True, n in ("MRR", "Precision", "Recall", "RBP")) for n in with_cut]
    out += [(m.Kendalltau, False, False), (m.SpearmanRho, False, False)]

    return out

def data():
    rng = np.arange(24, dtype=F32)
    return mkds((rng.reshape(12, 2) * 0.5), (rng[:12] * 7) % 5, (4, 1, 7)), (rng[:12] * 5) % 11

def expected(name, cut, thr):
    return name + ("" if cut is None else "@%d" % cut) + ("" if thr is None or thr == 1 else "[>%s]" % thr)

def check_metric(case, ctx):
    i, name = case
    cls, cuts, thrs = classes()[i]
    ds, y = data()
    seen = {}
    for cut in (CUTS if cuts else [None]):
        for thr in (THRS if thrs else [None]):
            kw = {}
            if name is not None:
                kw["name"] = name
            if cuts:
                kw["cutoff"] = cut
            if thr is not None:
                kw["threshold"] = thr
            m = cls(**kw)
            base = name if name is not None else cls().name
            want = expected(base, cut, thr)
            require(str(m) == want and "%s" % m == want and "{}".format(m) == want, "%s(%r) is labelled %r, expected %r", cls.__name__, kw, str(m), want)
            key = (cut, thr)
            require(seen.setdefault(str(m), key) == key, "%s: configurations %r and %r have the same label %r", cls.__name__, seen[str(m)], key, str(m))
            if cut in (None, 1, 3, 100):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.eval(ds, y)
                    m.eval_per_query(np.array([1, 0, 2], dtype=F32), np.array([.5, .25, .75], dtype=F32))
                require(str(m) == want, "%s(%r) is labelled %r after evaluations, %r before", cls.__name__, kw, str(m), want)
                if cuts:
                    require(m.cutoff == cut and type(m.cutoff) is type(cut), "%s: the cutoff changed to %r", cls.__name__, m.cutoff)
                if thr is not None:
                    require(m.threshold == thr, "%s: the threshold changed to %r", cls.__name__, m.threshold)
            require(m.name == base, "%s: the name changed to %r", cls.__name__, m.name)
            ctx.evaluated()
            if kw:
                ctx.nontrivial((i, sorted(kw.items())))

def check_data(case, ctx):
    """Histories of derived datasets; the model is the name."""
    from rankeval.dataset import Dataset
    first, depth = case
    X = make_X(12, 3)
    q = np.array(expand([3, 1, 2, 7], [3, 4, 2, 3]), dtype=np.int32)

    def ops(fam):
        for i in range(len(fam)):
            yield ("subset", i, None)
            yield ("subset", i, "sub")
            yield ("features", i)
            yield ("split", i, 0)
            yield ("split", i, 1)

    def apply(op, fam):
        d, name = fam[op[1]]
        if op[0] == "subset":
            r = d.subset(d.query_ids[:2] if len(d.query_ids) > 1 else d.query_ids, name=op[2])
            return [(r, op[2])]
        if op[0] == "features":
            return [(d.subset_features([0]), name)]
        parts = d.split(0.5, 0.25 if op[2] else 0, random_state=7)
        tags = ("Train", "Vali", "Test") if op[2] else ("Train", "Test")
        require(len(parts) == len(tags), "split gave %d parts", len(parts))
        return [(r, "%s %s" % (name, t)) for r, t in zip(parts, tags)]

    def go(fam, hist):
        ctx.state(tuple(n for _, n in fam))
        ctx.trace()
        if len(hist) >= depth:
            return
        for op in ops(fam):
            if fam[op[1]][0].n_queries < 4 and op[0] == "split":
                continue
            new = [(r, n if n is not None else str(r)) for r, n in apply(op, fam)]
            ctx.transition()
            for d, n in fam + new:
                require(str(d) == n and d.name == n, "%r then %r: a dataset is labelled %r, expected %r", hist, op, str(d), n)

            ctx.evaluated()
            ctx.nontrivial(hist + (op,))
            go(fam + new, hist + (op,))
    d = Dataset(X, np.zeros(12, dtype=F32), q, name=first) if first is not None else Dataset(X, np.zeros(12, dtype=F32), q)
    go([(d, first if first is not None else str(d))], ())
    p = scratch(".txt")
    try:
        d.dump(p)
        for n in (None, "given", ""):
            e = Dataset.load(p, name=n)
            require(str(e) == (str(Dataset(e.X, e.y, e.get_qids_dataset())) if n is None else n), "a dataset loaded as %r is labelled %r", n, str(e))
            ctx.evaluated()
    finally:
        os.unlink(p)

def check_model(case, ctx):
    from rankeval.model import RTEnsemble
    name, seq = case
    T = [auto(s, i) for i, s in enumerate([(None, None), None, ((None, None), None)])]
    p = scratch(".xml")
    try:
        ensemble(T).save(p)
        kw = {} if name is None else {"name": name}
        fam = [(RTEnsemble(p, **kw), name if name is not None else "RTEnsemble: " + p)]
        ds = mkds(make_X(3, 3))
        for op in seq:
            e, n = fam[op[1] % len(fam)]
            if op[0] == "copy":
                fam.append((e.copy(op[2]), n))
            elif op[0] == "score":
                e.score(ds, detailed=bool(op[2]), cache=True)
            elif op[0] == "save":
                e.save(p)
                fam.append((RTEnsemble(p, name="again", n_trees=op[2]), "again"))
            ctx.transition()
            for m, w in fam:
                require(str(m) == w and m.name == w, "%r: a model is labelled %r, expected %r", seq, str(m), w)
        ctx.state((name, tuple(n for _, n in fam)))
    finally:
        os.unlink(p)
    ctx.evaluated()
    ctx.trace()
    ctx.nontrivial(case)

def model_cases(t):
    ops = [(o, i, n) for o in ("copy", "score", "save") for i in (0, 1) for n in (None, 1, 2)]
    for name in (None, "m", "", "a b"):
        for d in range(0, 4 if t else 3):
            for seq in itertools.product(ops, repeat=d):
                yield name, seq

def check_distinct(case, ctx):
    """Labels are what plots and tables show: two datasets or models given different names keep different labels."""
    a, b = case
    for mk in (lambda n: mk_named(n), lambda n: ensemble([auto(None)], name=n)):
        x, y = mk(a), mk(b)
        require((str(x) == str(y)) == (a == b) and str(x) == a, "labels %r and %r of things named %r and %r", str(x), str(y), a, b)
        ctx.evaluated()
    ctx.nontrivial(case)

def mk_named(n):
    from rankeval.dataset import Dataset
    return Dataset(make_X(2, 2), np.zeros(2, dtype=F32), np.ones(2, dtype=np.int32), name=n)

def units(tier):
    t = tier == "thorough"
    return [Unit("metrics", lambda: itertools.product(range(len(classes())), [None] + NAMES), check_metric),
            Unit("datasets", lambda: itertools.product((None, "d", "", "two words"), (3 if t else 2,)), check_data),
            Unit("models", lambda: model_cases(t), check_model),
            Unit("pairs", lambda: itertools.product(NAMES + ["m", "m ", "M"], repeat=2), check_distinct)]
