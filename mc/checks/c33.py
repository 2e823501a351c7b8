"""C33: MSE and RMSE."""
import itertools, math
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import mkds
from .oracles import *

PROPERTY, LEVEL = "C33", "exploration"
RULE = ("every label and score vector over dyadic alphabets up to the bound x every cutoff, per query; every query partition and several "
        "query id assignments for the overall value; document permutations; ladder over sizes up to millions of documents; scores of very different magnitudes; non-trivial: some error is not zero")
ASSUMPTIONS = ["with a cutoff only the errors of the top-ranked documents count (any tie-breaking accepted)",
               "the per-query values of MSE.eval are the query's shares of the overall mean, as documented"]
SC = (-0.5, 0.0, 1.0, 2.5)


def ranks_of(s):
    d = sorted(set(s))
    return [d.index(x) for x in s]


def check(case, ctx):
    from rankeval.metrics import MSE, RMSE
    labels = case
    n = len(labels)
    M = [(k, MSE(cutoff=k), RMSE(cutoff=k)) for k in [None] + list(range(1, n + 2))]
    for sc in itertools.product(SC if n < 5 else SC[:3], repeat=n):
        y, s = np.array(labels, dtype=np.float32), np.array(sc, dtype=np.float32 if sum(sc) >= 0 else np.float64)
        r = ranks_of(sc)
        for k, m, rm in M:
            want = [sse(y, s, t) for t in tops(r, k)]
            got = m.eval_per_query(y, s)
            require(any(close(got, w) for w in want), "MSE(cutoff=%r) of labels %r scores %r: %r, expected %r", k, labels, sc, got, want)
            got = rm.eval_per_query(y, s)
            d = min(k or n, n)
            require(any(close(got, math.sqrt(w / d)) for w in want), "RMSE(cutoff=%r) of labels %r scores %r: %r, expected %r", k,
                    labels, sc, got, [math.sqrt(w / d) for w in want])
            ctx.evaluated(2)
        require(same(y, np.array(labels, dtype=np.float32)) and same(s, sc), "input modified")
        if tuple(labels) != sc:
            ctx.nontrivial((labels, sc))


def check_ds(case, ctx):
    from rankeval.metrics import MSE, RMSE
    from rankeval.dataset import Dataset
    sizes, labels, sc = case
    n = len(labels)
    y, s = np.array(labels, dtype=np.float32), np.array(sc, dtype=np.float32)
    want = [sum((a - b) ** 2 for a, b in zip(labels[o:o + z], sc[o:o + z])) for o, z in zip(np.cumsum((0,) + sizes), sizes)]
    for base, step in ((1, 1), (0, 1), (7, 3), (50, -4), (-3, 2)):
        ids = expand([base + step * i for i in range(len(sizes))], sizes)
        ds = Dataset(make_X(n, 1), y.copy(), np.array(ids, dtype=np.int32))
        o, d = MSE().eval(ds, s)
        require(close(o, sum(want) / n), "MSE of %r is %r, expected %r", case, o, sum(want) / n)
        require(d.shape == (len(sizes),) and all(close(a, w / n) for a, w in zip(d, want)), "MSE per query of %r (ids from %r): %r, expected %r", case, base, d, want)
        o, d = RMSE().eval(ds, s)
        e = [math.sqrt(w / z) for w, z in zip(want, sizes)]
        require(d.shape == (len(sizes),) and all(close(a, b) for a, b in zip(d, e)) and close(o, sum(e) / len(e)), "RMSE of %r: %r %r, expected %r", case, o, d, e)
        ctx.evaluated(2)
    if sum(want):
        ctx.nontrivial(case)


def ds_cases(t):
    for n in range(1, 6 if t else 5):
        for sizes in compositions(n):
            for labels in itertools.product((0, 1, 3), repeat=n):
                for sc in itertools.product((0.0, 1.0, 2.5), repeat=n):
                    if n < 4 or (sum(labels) + sum(sc) * 2) % 3 == 0:
                        yield sizes, labels, sc


def check_ladder(case, ctx):
    from rankeval.metrics import MSE, RMSE
    n = case
    y = np.array([i % 5 for i in range(n)], dtype=np.float32)
    for kind in range(3):
        s = np.array([((i * 7) % 11) * 0.25 - 1 if kind == 0 else (i % 5) + 0.5 if kind == 1 else i % 5 for i in range(n)], dtype=np.float32)
        w = float(((y.astype(float) - s.astype(float)) ** 2).sum())
        require(close(MSE().eval_per_query(y, s), w), "MSE of %d documents", n)
        require(close(RMSE().eval_per_query(y, s), math.sqrt(w / n)), "RMSE of %d documents", n)
        ds = mkds(make_X(n, 1), y)
        require(close(MSE().eval(ds, s)[0], w / n, 1e-5), "MSE of a dataset of %d documents", n)
        p = np.array([(i * 7 + 3) % n if n % 7 else n - 1 - i for i in range(n)])
        require(close(MSE().eval_per_query(y[p], s[p]), w), "MSE depends on the order of documents")
        ctx.evaluated(4)
    ctx.nontrivial(case)


def check_magnitudes(case, ctx):
    """Labels and scores of every magnitude, close to each other or far apart: no digit is lost."""
    from rankeval.metrics import MSE, RMSE
    base, eps, signs = case
    n = len(signs)
    y = np.array([base * (i + 1) for i in range(n)], dtype=np.float32)
    s = (y + np.array([eps * k for k in signs], dtype=np.float32)).astype(np.float32)
    e2 = [(float(a) - float(b)) ** 2 for a, b in zip(y, s)]
    ok = lambda got, want: abs(float(got) - want) <= 2e-5 * want
    if max(e2) > 1e37:
        return
    for yt, st in ((np.float32, np.float32), (np.float32, np.float64), (np.float64, np.float32)):
        a, b = y.astype(yt), s.astype(st)
        for k in [None] + list(range(n, n + 2)):
            require(ok(MSE(cutoff=k).eval_per_query(a, b), sum(e2)), "MSE(cutoff=%r) of labels %r and scores %r: %r, expected %r", k, a, b, MSE(cutoff=k).eval_per_query(a, b), sum(e2))
            require(ok(RMSE(cutoff=k).eval_per_query(a, b), math.sqrt(sum(e2) / n)), "RMSE(cutoff=%r) of labels %r and scores %r: %r, expected %r",
                    k, a, b, RMSE(cutoff=k).eval_per_query(a, b), math.sqrt(sum(e2) / n))
        ds = mkds(make_X(n, 1), a, (1, n - 1) if n > 1 else (1,))
        require(ok(MSE().eval(ds, b)[0], sum(e2) / n), "MSE of labels %r and scores %r: %r, expected %r", a, b, MSE().eval(ds, b)[0], sum(e2) / n)
        ctx.evaluated(3)
    if sum(e2):
        ctx.nontrivial(case)


def check_millions(case, ctx):
    """So many documents or queries that the sums need more digits than single precision has."""
    from rankeval.dataset import Dataset
    from rankeval.metrics import MSE, RMSE
    n, size, errors = case
    y = (np.arange(n) % 5).astype(np.float32)
    e = np.array(errors, dtype=np.float32)[np.arange(n) * len(errors) // n]
    s = y + e
    want = float(((s.astype(float) - y) ** 2).mean())
    ds = Dataset(np.zeros((n, 1), dtype=np.float32), y, np.arange(n) // size)
    got = MSE().eval(ds, s)[0]
    require(close(got, want, 1e-4), "MSE of %d documents in queries of %d: %r, expected %r", n, size, got, want)
    if size == n:
        require(close(RMSE().eval(ds, s)[0], math.sqrt(want), 1e-4), "RMSE of %d documents: %r, expected %r", n, RMSE().eval(ds, s)[0], math.sqrt(want))
        require(close(RMSE().eval_per_query(y, s), math.sqrt(want), 1e-4), "RMSE of %d documents", n)
    ctx.evaluated(3)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("queries", lambda: (l for n in range(1, 6 if t else 5) for l in itertools.product((0, 1, 2.5) if n < 5 else (0, 1), repeat=n)), check),
            Unit("datasets", lambda: ds_cases(t), check_ds),
            Unit("magnitudes", lambda: ((b, e, k) for b in (0.0, 1e-3, 1.0, 100.25, -1000.5, 4097.0, 1e6, 1e12) for e in (1e-6, 1e-3, 0.25, 1.0, 300.0, 1e5, 1e9)
                                        for n in (1, 2, 3) for k in itertools.product((-1, 0, 1, 2), repeat=n)), check_magnitudes),
            Unit("millions", [(n, z, e) for n in MILLIONS for z in (n, 1 << 17, 4) for e in ((0.1,), (0.1, 0.7), (3.3, 1e-2, 0.3)) if z > 4 or n < 1 << 21],
                 check_millions, stall=300),
            Unit("ladder", (LADDER if t else SHORT_LADDER) + GIANT, check_ladder)]
