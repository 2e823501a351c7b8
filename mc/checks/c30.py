"""C30: DCG and NDCG."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .oracles import *

PROPERTY, LEVEL = "C30", "exploration"
RULE = ("every label vector over the alphabets x every ranking of the documents up to order isomorphism (every weak order, ties "
        "included) x every cutoff up to n+1 and none x both gains x no-relevant values, against the definition evaluated on the "
        "rankings compatible with the scores (any tie-breaking accepted); ladder over query sizes; non-trivial: labels differ")
ASSUMPTIONS = ["labels are >= 0, scores are numbers", "cutoff >= 1", "documents with equal scores may be ranked in any order among themselves"]

MAPS = [lambda r: r * 1.0, lambda r: -1e3 + r * 1e-3, lambda r: (r - 1.5) * 1e6, lambda r: r * 2.0 ** -20]
# scores that only double precision tells apart, or that exceed single precision
WIDE = MAPS + [lambda r: 1 + r * 2.0 ** -45, lambda r: r * 1e-300, lambda r: (r - 1.5) * 1e300, lambda r: -3e8 + r * 2.0 ** -20]
VIEWS = ["plain", "f64", "strided"]


def arr(labels, ranks, salt):
    """The same query as arrays of varying type and layout."""
    salt += sum((i + 1) * int(2 * l) for i, l in enumerate(labels))
    m = MAPS[salt % 4] if salt % 3 != 1 else WIDE[salt // 3 % 8]
    y = np.array(labels, dtype=np.float32)
    s = np.array([m(r) for r in ranks], dtype=np.float64 if salt % 3 == 1 else np.float32)
    if salt % 3 == 2:
        b = np.full(2 * len(y) + 1, 9, dtype=np.float32)
        b[1::2] = y
        y = b[1::2]
        b = np.full(2 * len(s) + 1, 1e9, dtype=s.dtype)
        b[1::2] = s
        s = b[1::2]
    return y, s


def metrics_of(cls, confs):
    return [(c, cls(**c)) for c in confs]


def run(name, metric, conf, y, s, want, ctx, key):
    y0, s0 = np.array(y), np.array(s)
    got = metric.eval_per_query(y, s)
    require(any(close(got, w) for w in want), "%s(%s) of labels %r scores %r is %r, expected %r", name, conf, y0.tolist(),
            s0.tolist(), got, sorted(set(want))[:4])
    require(same(y, y0) and same(s, s0), "%s modified its input", name)
    ctx.evaluated()


def check(case, ctx):
    from rankeval.metrics import DCG, NDCG
    labels, full = case
    n = len(labels)
    ks = [None] + list(range(1, n + 2))
    D = metrics_of(DCG, [dict(cutoff=k, implementation=i) for k in ks for i in ("flat", "exp")])
    N = metrics_of(NDCG, [dict(cutoff=k, implementation=i, no_relevant_results=v) for k in ks for i in ("flat", "exp")
                          for v in ((1.0, 0.0, 0.25) if not any(labels) else (0.5,))])
    ND = [(dict(), NDCG()), (dict(), DCG())]
    for j, ranks in enumerate(weak_orders(n)):
        y, s = arr(labels, ranks, j + len(labels))
        seqs = rankings(labels, ranks)
        for c, m in D:
            run("DCG", m, c, y, s, [dcg(q, c["cutoff"], c["implementation"]) for q in seqs], ctx, None)
        for c, m in N:
            run("NDCG", m, c, y, s, [ndcg(q, c["cutoff"], c["implementation"], c["no_relevant_results"]) for q in seqs], ctx, None)
        run("NDCG", ND[0][1], {}, y, s, [ndcg(q, None, "exp", 1.0) for q in seqs], ctx, None)
        run("DCG", ND[1][1], {}, y, s, [dcg(q, None, "flat") for q in seqs], ctx, None)
        if len(set(labels)) > 1:
            ctx.nontrivial((labels, ranks))


def label_cases(t):
    for n in (1, 2, 3):
        for l in itertools.product((0, 1, 2, 4, 0.5), repeat=n):
            yield l, True
    for l in itertools.product((0, 1, 2, 4), repeat=4):
        yield l, True
    for l in itertools.product((0, 1, 3) if t else (0, 1), repeat=5):
        yield l, False
    if t:
        for l in itertools.product((0, 2), repeat=6):
            yield l, False


def big(n, kind):
    """A query of n documents with distinct scores (or ties between documents of equal labels)."""
    labels = [((i * 7919) % 101) % 5 if i % 3 else 0 for i in range(n)]
    if kind == "zeros":
        labels = [0] * n
    if kind == "last":
        labels = [0] * (n - 1) + [2]
    step = next(p for p in (7, 11, 13, 17, 19, 23) if n % p)
    ranks = [(i * step) % n for i in range(n)]
    if kind == "tied":
        ranks = [int(l * 3 + i % 2) for i, l in enumerate(labels)]
        labels = [r // 2 for r in ranks]
    return labels, ranks


def seq_of(labels, ranks):
    return [labels[i] for i in sorted(range(len(labels)), key=lambda i: -ranks[i])]


def cutoffs(n):
    return [None] + sorted(set(k for k in (1, 2, 3, 5, 10, 16, 17, n // 2, n - 1, n, n + 1, 2 * n, 10000) if k >= 1))


def check_ladder(case, ctx):
    from rankeval.metrics import DCG, NDCG
    n, kind = case
    labels, ranks = big(n, kind)
    y, s = arr(labels, ranks, n)
    q = seq_of(labels, ranks)
    for k in cutoffs(n):
        for i in ("flat", "exp"):
            run("DCG", DCG(cutoff=k, implementation=i), (k, i), y, s, [dcg(q, k, i)], ctx, None)
            run("NDCG", NDCG(cutoff=k, implementation=i, no_relevant_results=0.125), (k, i), y, s, [ndcg(q, k, i, 0.125)], ctx, None)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("rankings", lambda: label_cases(t), check),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) for k in ("mixed", "tied", "zeros", "last") if n <= 1100]
                 + [(n, k) for n in (GIANT if t else GIANT[-1:]) for k in ("mixed", "tied", "last")], check_ladder)]
