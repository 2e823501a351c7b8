"""C35: metrics over datasets, and histories of evaluations on one metric object."""
import itertools, warnings
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .oracles import close

PROPERTY, LEVEL = "C35", "model_checking"
RULE = ("every partition of small datasets into queries x label and score vectors x query id assignments x every metric "
        "configuration: one value per query, each equal to what a fresh metric object gives on that query alone, and their mean; "
        "every history up to the depth bound of evaluations (whole datasets, single queries, failing calls) "
        "on one metric object, every step compared with a fresh object; non-trivial: more than one query or step")
ASSUMPTIONS = ["queries on which a rank correlation is undefined do not count in the mean",
               "datasets are not modified while in use (a documented assumption of their hash)"]


def factories():
    from rankeval import metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    out = []
    for k in (None, 1, 2):
        out += [("DCG", lambda k=k: M.DCG(cutoff=k)), ("DCGexp", lambda k=k: M.DCG(cutoff=k, implementation="exp")),
                ("NDCG", lambda k=k: M.NDCG(cutoff=k)), ("NDCGflat", lambda k=k: M.NDCG(cutoff=k, implementation="flat", no_relevant_results=0.25)),
                ("ERR", lambda k=k: M.ERR(cutoff=k)), ("MAP", lambda k=k: M.MAP(cutoff=k)), ("MRR", lambda k=k: M.MRR(cutoff=k, threshold=2)),
                ("Pfound", lambda k=k: M.Pfound(cutoff=k)), ("Precision", lambda k=k: M.Precision(cutoff=k)),
                ("PrecisionMax", lambda k=k: PrecisionMax(cutoff=k)),
                ("RBP", lambda k=k: M.RBP(cutoff=k, p=0.8)), ("Recall", lambda k=k: M.Recall(cutoff=k, no_relevant_results=0.5)),
                ("MSE", lambda k=k: M.MSE(cutoff=k)), ("RMSE", lambda k=k: M.RMSE(cutoff=k))]
    out += [("Kendalltau", lambda: M.Kendalltau()), ("SpearmanRho", lambda: M.SpearmanRho())]
    return out


def reference(name, make, ds_rows, n, s):
    """Values through fresh objects on the slices."""
    vals = []
    for a, b, y in ds_rows:
        v = float(make().eval_per_query(np.array(y), np.array(s[a:b])))
        vals.append(v / n if name == "MSE" else v)
    ok = [v for v in vals if v == v]
    if name == "MSE":
        mean = sum(vals)
    else:
        mean = sum(ok) / len(ok) if ok else float("nan")
    return mean, vals


def eq(got, want, what):
    o, d = got
    require(isinstance(d, np.ndarray) and d.shape == (len(want[1]),), "%s: per-query values of shape %r, expected %d", what, getattr(d, "shape", None), len(want[1]))
    require(all(close(a, b) for a, b in zip(d, want[1])), "%s: per-query values %r, expected %r", what, d.tolist(), want[1])
    require(close(o, want[0]), "%s: overall value %r, expected %r", what, o, want[0])


def mk(sizes, labels, ids):
    from rankeval.dataset import Dataset
    n = len(labels)
    return Dataset(make_X(n, 2), np.array(labels, dtype=np.float32), np.array(expand(ids, sizes), dtype=np.int32))


def rows(sizes, labels):
    o, out = 0, []
    for z in sizes:
        out.append((o, o + z, np.array(labels[o:o + z], dtype=np.float32)))
        o += z
    return out


def check_ds(case, ctx):
    warnings.simplefilter("ignore")
    sizes, labels, orders = case
    n, q = len(labels), len(sizes)
    r = rows(sizes, labels)
    F = factories()
    for oi, order in enumerate(orders):
        s = np.array([x * 1.5 - 1 for x in order], dtype=np.float32) if oi % 2 else \
            np.array([2 + x * 2.0 ** -45 for x in order]) if (oi + sum(labels)) % 4 == 0 else np.array([x * 1.5 - 1 for x in order])
        for ids in ([1 + i for i in range(q)], [20 - 3 * i for i in range(q)], [-1 + i for i in range(q)]):
            ds = mk(sizes, labels, ids)
            snap = Snapshot(ds)
            for name, make in F:
                s0 = s.copy()
                eq(make().eval(ds, s), reference(name, make, r, n, s), "%s on sizes %r labels %r scores %r ids %r" % (name, sizes, labels, order, ids))
                require(same(s, s0), "%s modified the scores", name)
                ctx.evaluated()
            snap.check("a metric")
        if q > 1:
            ctx.nontrivial((sizes, labels, order))


def ds_cases(t):
    for n in range(1, 6 if t else 5):
        perms = list(itertools.permutations(range(n)))
        if n > 3:
            perms = perms[::5]
        for sizes in compositions(n):
            for labels in itertools.product((0, 1, 3), repeat=n):
                if n < 4 or sum((i + 1) * l for i, l in enumerate(labels)) % 7 == 0:
                    yield sizes, labels, perms


# ---------------------------------------------------------------- histories
class World:
    """Datasets, score vectors and the queries a history can evaluate."""
    def __init__(self):
        self.d = []
        for sizes, labels, ids in (((2, 3), (2, 0, 1, 0, 3), (1, 2)), ((2, 3), (0, 2, 1, 0, 3), (1, 2)),
                                   ((1, 3, 1), (0, 0, 0, 0, 4), (5, 1, 9)), ((5,), (2, 0, 1, 0, 3), (1,))):
            self.d.append([sizes, list(labels), mk(sizes, labels, ids)])
        self.s = [np.array([0.5, 0.1, 0.2, 0.9, 0.3], dtype=np.float32), np.array([3, 4, -1, 0, 2], dtype=np.float64)]

    def key(self):
        return tuple(tuple(d[1]) for d in self.d)


OPS = [("eval", i, j) for i in range(4) for j in range(2) if (i, j) != (3, 1)] + [("query", 0, 1), ("query", 2, 0), ("fail", 0), ("fail", 2)]


def check_hist(case, ctx):
    warnings.simplefilter("ignore")
    fi, first, depth = case
    name, make = factories()[fi]

    def play(seq):
        w, m, kept = World(), make(), []
        for op in seq:
            ctx.transition()
            what = "%s: %r in %r" % (name, op, seq)
            if op[0] == "eval":
                sizes, labels, ds = w.d[op[1]]
                s = w.s[op[2]]
                r = m.eval(ds, s)
                eq(r, reference(name, make, rows(sizes, labels), len(labels), s), what)
                kept.append((r[1], r[1].copy()))
            elif op[0] == "query":
                sizes, labels, ds = w.d[op[1]]
                a, b, y = rows(sizes, labels)[op[2]]
                require(close(m.eval_per_query(y, w.s[0][a:b]), make().eval_per_query(y, w.s[0][a:b])), "%s: wrong value", what)
            elif op[0] == "fail":          # fails in the middle: the scores of the last query are unusable
                class Half(np.ndarray):
                    def __getitem__(self, k):
                        self.n = getattr(self, "n", 0) - 1
                        if self.n < 0:
                            raise RuntimeError("no more scores")
                        return np.asarray(self)[k]
                sizes, labels, ds = w.d[op[1]]
                half = w.s[0][:ds.n_instances].copy().view(Half)
                half.n = len(sizes) - 1
                try:
                    m.eval(ds, half)
                except RuntimeError:
                    ctx.count("evaluations_that_failed_midway")
                else:
                    ctx.count("evaluations_that_did_not_need_the_missing_scores")
            for a, b in kept:
                require(same(a, b), "%s changed an earlier result", what)
            ctx.state((fi, w.key(), seq[-2:]))
        ctx.evaluated()
        ctx.trace()
        if len(seq) > 1:
            ctx.nontrivial((fi, seq))

    def go(seq):
        play(seq)
        if len(seq) < depth:
            for op in OPS:
                go(seq + (op,))
    go((first,))


def hist_cases(t):
    for fi, (name, _) in enumerate(factories()):
        deep = "NDCG" in name
        for op in OPS:
            yield fi, op, (4 if t and deep else 3 if t or deep else 2)


def check_ladder(case, ctx):
    warnings.simplefilter("ignore")
    n, kind, which = case + (None,) * (3 - len(case))
    sizes = (1,) * n if kind == "single" else tuple(1 + i % 4 for i in range(n)) if kind == "mixed" else (n,)
    k = sum(sizes)
    labels = [((i * 7919) % 101) % 4 for i in range(k)]
    s = np.array([((i * 31) % 1009) / 8.0 for i in range(k)], dtype=np.float32)
    ds = mk(sizes, labels, [3 * i + 1 for i in range(len(sizes))])
    r = rows(sizes, labels)
    for name, make in factories():
        if name in ("Kendalltau", "SpearmanRho") and n > 70:
            continue
        if which and name != which:
            continue
        eq(make().eval(ds, s), reference(name, make, r, k, s), "%s on %r" % (name, case))
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("datasets", lambda: ds_cases(t), check_ds),
            Unit("histories", lambda: hist_cases(t), check_hist),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) for k in ("single", "mixed", "one") if n <= 1100]
                 + [(n, k, name) for n in (GIANT if t else GIANT[-1:]) for name in sorted(set(f[0] for f in factories())) for k in ("single", "one")], check_ladder)]
