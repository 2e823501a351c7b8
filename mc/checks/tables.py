"""Building blocks of the analysis checks: models that give chosen scores, probe metrics."""
import numpy as np
from rankeval.metrics import Metric
from ..trees import ensemble, mkds


def lookup_tree(values, feat=0, first=0):
    """A tree that gives values[i] to documents whose feature is first + i."""
    def go(lo, hi):
        if hi - lo == 1:
            return ("L", float(values[lo]))
        mid = (lo + hi) // 2
        return (feat, first + mid - 0.5, go(lo, mid), go(mid, hi))
    return go(0, len(values))


def indexed(labels, sizes, name, first=0, nf=1):
    """A dataset whose documents carry their own index in feature 0."""
    n = len(labels)
    X = np.zeros((n, nf), dtype=np.float32)
    X[:, 0] = np.arange(first, first + n)
    for f in range(1, nf):
        X[:, f] = (np.arange(n) * (f + 1) + f) % 5
    ds = mkds(X, np.array(labels, dtype=np.float32), sizes)
    ds.name = name
    return ds


class Fingerprint(Metric):
    """Any change of a score, of a label or of the order of the documents changes its value; no ties to break."""
    def __init__(self, name="fingerprint", a=1.0):
        Metric.__init__(self, name)
        self.a = a

    def eval(self, dataset, y_pred):
        return super(Fingerprint, self).eval(dataset, y_pred)

    def eval_per_query(self, y, y_pred):
        i = np.arange(1, len(y) + 1, dtype=float)
        return self.a * float(np.sum(i * np.asarray(y_pred, dtype=float)) + 0.5 * np.sum(i * i * np.asarray(y, dtype=float)))


class First(Metric):
    """The score of the first document of the query: per-query results of our choice."""
    def __init__(self, name="first", shift=0.0):
        Metric.__init__(self, name)
        self.shift = shift

    def eval(self, dataset, y_pred):
        return super(First, self).eval(dataset, y_pred)

    def eval_per_query(self, y, y_pred):
        return float(y_pred[0]) + self.shift


UNDEF = 99.0


class Partly(First):
    """As First, but not defined on the queries whose first document scores 99."""
    def eval_per_query(self, y, y_pred):
        return float("nan") if y_pred[0] == UNDEF else First.eval_per_query(self, y, y_pred)


class Frozen:
    """Records datasets and ensembles; check() tells when an analysis modified them."""
    F = ("trees_root", "trees_weight", "trees_left_child", "trees_right_child", "trees_nodes_value", "trees_nodes_feature")

    def __init__(self, datasets, models):
        from ..lib import Snapshot
        self.s = [Snapshot(d) for d in datasets]
        self.m = [(m, [np.array(getattr(m, f)) for f in self.F]) for m in models]

    def check(self, what):
        from ..lib import require, same
        for s in self.s:
            s.check(what)
        for m, v in self.m:
            for f, a in zip(self.F, v):
                require(same(a, getattr(m, f)), "%s modified the %s of a model", what, f)


def labelled(perf, dims, what):
    """Requires the dimensions and that every coordinate is the object (or value) given."""
    from ..lib import require
    require(tuple(perf.dims) == tuple(d for d, _ in dims), "%s has dimensions %r", what, perf.dims)
    for d, values in dims:
        got = perf.coords[d].values
        require(len(got) == len(values), "%s has %d values along %s, expected %d", what, len(got), d, len(values))
        for g, w in zip(got, values):
            if isinstance(w, (int, float)):
                require(abs(float(g) - w) <= 1e-6 * max(1.0, abs(w)), "%s: coordinate %r of %s, expected %r", what, g, d, w)
            elif isinstance(w, (str, np.generic)):
                require(g == w, "%s: coordinate %r of %s, expected %r", what, g, d, w)
            else:
                require(g is w, "%s: coordinate of %s is not the object given", what, d)
