"""C45: bias/variance decomposition, all shuffles of the queries."""
import itertools, math
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import mkds

PROPERTY, LEVEL = "C45", "exploration"
RULE = ("every partition of documents into queries up to the bound x every number of folds x every outcome of the random shuffles of every round "
        "(products of permutations for small query counts, rotations beyond), with learning algorithms that record what they are given; held-out, "
        "coverage, decomposition and labelling of the result checked on each; non-trivial: more than one fold with documents to train on")
ASSUMPTIONS = ["shuffles are taken through numpy.random and replaced by the enumerated outcomes", "queries >= 2"]


class Spy:
    """A learning algorithm that checks what it is given and returns chosen predictions."""
    def __init__(self, ds, sizes, name, salt, part=False):
        self.part = part
        self.ds, self.sizes, self.salt, self.__name__ = ds, sizes, salt, name
        self.X, self.y = np.array(ds.X), np.array(ds.y)
        self.start = np.concatenate([[0], np.cumsum(sizes)])
        self.rounds, self.cur, self.folds, self.fold_log = [], {}, 0, []

    def rows(self, X):
        idx = [int(round((float(x[0]) - float(self.X[0, 0])) / 0.25 / self.X.shape[1])) for x in X]
        require(same(X, self.X[idx]) if len(idx) else True, "the algorithm was given rows that are not those of the dataset")
        return idx

    def __call__(self, train_X, train_y, train_q, test_X):
        tr, te = self.rows(train_X), self.rows(test_X)
        n = len(self.y)
        require(len(te) > 0, "an empty fold was scored")
        require(not set(tr) & set(te), "documents %r are both in the training and in the test set", sorted(set(tr) & set(te)))
        require(sorted(tr + te) == list(range(n)), "training and test sets hold rows %r + %r of %d", tr, te, n)
        require(same(train_y, self.y[tr]), "training labels %r, expected %r", train_y, self.y[tr])
        qs = [q for q in range(len(self.sizes)) if self.start[q] in set(tr)]
        require(sum(self.sizes[q] for q in qs) == len(tr), "a query is split between training and test set")
        require(list(train_q) == [self.sizes[q] for q in qs], "training query sizes %r, expected %r", list(train_q), [self.sizes[q] for q in qs])
        if not tr == sorted(tr):
            blocks = [r for q in sorted(qs, key=lambda q: tr.index(self.start[q])) for r in range(self.start[q], self.start[q + 1])]
            require(tr == blocks, "training rows %r are not grouped by query", tr)
        require(not set(te) & set(self.cur), "documents scored twice in a round")
        r = len(self.rounds)
        pred = [((i * 7 + r * 5 + self.salt * 3 + len(tr)) % 8) * 0.25 for i in te]
        if self.part:        # no value for the last query in round 0 and for the first one in every round
            pred = [99.0 if i == 0 or (i == self.start[-2] and r == 0) else x for i, x in zip(te, pred)]
        self.cur.update(zip(te, pred))
        self.folds += 1
        if len(self.cur) == n:
            self.rounds.append([self.cur[i] for i in range(n)])
            self.fold_log.append(self.folds)
            self.cur, self.folds = {}, 0
        return np.array(pred, dtype=np.float32)


def check(case, ctx):
    from rankeval.analysis.statistical import bias_variance
    from rankeval.metrics import MSE
    from .chance import Shuffles, shuffle_patches
    from .tables import First, Partly, UNDEF, Frozen, labelled
    sizes, k, L, perms, kind = case
    n, nq = sum(sizes), len(sizes)
    dss = []
    for i in range(2 if kind == "two" else 1):
        z = sizes if i == 0 else sizes[::-1]
        ds = mkds(make_X(n, 2, base=1000 * i), [(j * 3 + i) % 4 for j in range(n)], z)
        ds.name = "d%d" % i
        dss.append((ds, z))
    mets = {"mse": [MSE()], "ir": [First()], "two": [MSE(), First("x", 0.25)], "part": [Partly()]}[kind]

    class Router:
        """One algorithm of the API: dispatches to the spy of the dataset it is called with."""
        def __init__(self, name, salt):
            self.__name__ = name
            self.spies = [Spy(ds, z, name, salt + 2 * i, kind == "part") for i, (ds, z) in enumerate(dss)]

        def __call__(self, *a):
            return self.spies[1 if len(self.spies) > 1 and a[0][0][0] >= 1000 else 0](*a)
    algos = [Router("algo%d" % i, i) for i in range(2 if kind == "two" else 1)]
    fz = Frozen([d for d, _ in dss], [])
    sh = Shuffles(perms)
    with patched(*shuffle_patches(sh)):
        r = bias_variance([d for d, _ in dss], algos, mets, L=L, k=k)
    fz.check("bias_variance")
    labelled(r, [("dataset", [d for d, _ in dss]), ("metric", mets), ("algo", [a.__name__ for a in algos]), ("error", ["Error", "Bias", "Variance"])], "bias_variance")
    for i, (ds, z) in enumerate(dss):
        for a, alg in enumerate(algos):
            spy = alg.spies[i]
            require(not spy.cur and len(spy.rounds) in (L * len(mets), L), "%d complete rounds (of %d) were scored", len(spy.rounds), L * len(mets))
            for f in spy.fold_log:
                require(2 <= f <= k, "%d folds, requested %d of %d queries", f, k, nq)
            for m, metric in enumerate(mets):
                P = np.array(spy.rounds[m * L:(m + 1) * L] or spy.rounds, dtype=float)        # L x n
                if isinstance(metric, MSE):
                    T, V = np.array(ds.y, dtype=float), P
                else:
                    st = np.concatenate([[0], np.cumsum(z)])[:-1].astype(int)
                    T, V = 1.0, P[:, st] + metric.shift
                    if kind == "part":
                        V = V[:, ~(V == UNDEF).any(axis=0)]
                        if not V.size:
                            continue
                mean = V.mean(axis=0)
                want = [((V - T) ** 2).mean(), ((mean - T) ** 2).mean(), ((V - mean) ** 2).mean()]
                got = r.values[i, m, a]
                require(np.allclose(got, want, rtol=1e-4, atol=1e-5), "error, bias, variance (%s): %r, expected %r", "MSE" if isinstance(metric, MSE) else "metric", got, want)
                require(abs(got[0] - got[1] - got[2]) < 1e-4 * max(1.0, got[0]), "error %r is not bias %r + variance %r", *got)
    ctx.evaluated()
    ctx.trace()
    if sh.i:
        ctx.count("runs with chosen shuffles")
    ctx.nontrivial(case)


def cases(t):
    for nq in range(2, 6 if t else 5):
        profiles = [(1,) * nq, tuple(1 + i % 3 for i in range(nq)), tuple(1 + (nq - i) % 2 for i in range(nq))]
        perms = list(itertools.permutations(range(nq)))
        for sizes in dict.fromkeys(profiles):
            for k in range(2, nq + 2):
                for kind in ("mse", "ir", "part"):
                    for p in itertools.product(perms, repeat=2) if nq < 4 else ((x, perms[(i * 7 + 3) % len(perms)]) for i, x in enumerate(perms)):
                        yield sizes, k, 2, p, kind
    for nq in (2, 3, 4):
        perms = list(itertools.permutations(range(nq)))
        for p in perms:
            for k in (2, 3):
                yield tuple(1 + i % 2 for i in range(nq)), k, 2, (p,) * 20, "two"
                yield tuple(1 + i % 2 for i in range(nq)), k, 3, (p, p[::-1], p), "mse"
    for nq in list(range(5, 26 if t else 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]:
        for k in (2, 3, 4, 5, 10, nq - 1, nq, nq + 3) if nq < 34 else (2, 3, 5, 10, 33):
            yield tuple(1 + (i * i) % 4 for i in range(nq)), k, 2 + nq % 2, (tuple(range(nq)), tuple((i * 7 + 3) % nq for i in range(nq)) if nq % 7 else tuple(range(nq))[::-1]), "mse"


def check_millions(case, ctx):
    """So many documents that their sums need more digits than single precision has."""
    from rankeval.analysis.statistical import bias_variance
    from rankeval.dataset import Dataset
    from rankeval.metrics import MSE
    n, values, L = case
    y = (np.arange(n) * 3 // n).astype(np.float32) * 0.3
    ds = Dataset(np.arange(n, dtype=np.float32)[:, None] // 1024, y, np.arange(n) // (n // 4 + 1))
    rounds = []

    def algo(train_X, train_y, train_q, test_X):
        rounds.append(values[(len(rounds) // 2) % len(values)])
        return np.full(len(test_X), rounds[-1], dtype=np.float32)
    got = bias_variance([ds], [algo], [MSE()], L=L, k=2).values[0, 0, 0]
    v = [float(np.float32(values[i % len(values)])) for i in range(L)]
    mean, T = sum(v) / L, y.astype(float)
    want = [np.mean([((x - T) ** 2).mean() for x in v]), ((mean - T) ** 2).mean(), np.mean([(x - mean) ** 2 for x in v])]
    require(len(rounds) == 2 * L and np.allclose(got, want, rtol=1e-4, atol=1e-6), "error, bias, variance on %d documents: %r, expected %r", n, got, want)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_magnitudes(case, ctx):
    """Labels and predictions far from zero and close to each other."""
    from rankeval.analysis.statistical import bias_variance
    from rankeval.metrics import MSE
    from .tables import First
    base, eps, ks, L = case
    n = len(ks)
    ds = mkds(make_X(n, 1), np.array([base + eps * (i % 3) for i in range(n)], dtype=np.float32), (1,) * n)
    calls = []

    def algo(train_X, train_y, train_q, test_X):
        r = len(calls) // 2
        calls.append([base + eps * ks[(r * 2 + i) % n] for i in range(len(test_X))])
        return np.array(calls[-1], dtype=np.float32)
    P, y = [], np.array(ds.y, dtype=float)
    from .chance import Shuffles, shuffle_patches
    with patched(*shuffle_patches(Shuffles([tuple(range(n))] * 8))):
        got = bias_variance([ds], [algo], [MSE()], L=L, k=2).values[0, 0, 0]
        calls_mse, calls[:] = list(calls), []
        got2 = bias_variance([ds], [algo], [First()], L=L, k=2).values[0, 0, 0]
    for g, c, T in ((got, calls_mse, y), (got2, calls, 1.0)):
        V = np.array([np.concatenate(c[2 * i:2 * i + 2]) for i in range(L)]).astype(np.float32).astype(float)
        mean = V.mean(axis=0)
        want = [((V - T) ** 2).mean(), ((mean - T) ** 2).mean(), ((V - mean) ** 2).mean()]
        slack = (abs(base) * 2e-7) ** 2 + abs(base) * 2e-7 * eps * 4
        require(np.allclose(g, want, rtol=1e-4, atol=slack), "error, bias, variance of values around %r (%r apart): %r, expected %r", base, eps, g, want)
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    return [Unit("rounds", lambda: cases(tier == "thorough"), check),
            Unit("magnitudes", lambda: ((b, e, k, L) for b in (0.0, 1.0, 100.25, -1000.5, 4097.0) for e in (1e-3, 0.25, 1.0, 300.0) for n in (2, 3, 4)
                                        for k in itertools.product((-1, 0, 2), repeat=n) for L in (2, 3)), check_magnitudes),
            Unit("millions", [(n, v, L) for n in MILLIONS for v in ((0.1, 0.7), (0.3, 0.3), (0.1, 3.3, 0.2)) for L in (2, 3)], check_millions, stall=300)]
