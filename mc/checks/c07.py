"""C07: subset / subset_features, as operation histories against a selection model."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C07", "model_checking"
RULE = ("breadth-first over all sequences of subset / subset_features operations up to the depth bound, starting from "
        "several datasets; the model state is (selected queries, selected columns) and every transition is replayed on "
        "the real datasets; size ladders for single operations; every selection is written over, and so is its source, and the other must not change; non-trivial: a proper, non-empty selection")
ASSUMPTIONS = ["requested ids exist in the dataset; selected columns are distinct, non-negative indices"]


def root(sizes, ids, nf, layout="C"):
    from rankeval.dataset import Dataset
    n = sum(sizes)
    X = dict(layouts(make_X(n, nf)))[layout]
    y = (np.arange(n) * 0.5 + 1).astype(np.float32)
    return Dataset(X, y, idarr(ids, sizes), name="root")


def expected(ds, sizes, ids, qs, fs):
    offs = np.concatenate([[0], np.cumsum(sizes)])
    qs = set(qs)
    rows = [r for i, q in enumerate(ids) if q in qs for r in range(offs[i], offs[i + 1])]
    return np.array(ds.X)[rows][:, list(fs)], np.array(ds.y)[rows], [q for q in ids if q in qs]


def verify(d, exp, sizes_of, what):
    X, y, qs = exp
    require(same(d.X, X), "%s: wrong feature matrix", what)
    require(same(d.y, y), "%s: wrong labels", what)
    require([int(q) for q in d.query_ids] == qs, "%s: queries %r, expected %r", what, list(d.query_ids), qs)
    require([int(s) for s in d.get_query_sizes()] == [sizes_of[q] for q in qs], "%s: query sizes", what)
    require(d.n_instances == len(y) and d.n_features == X.shape[1] and d.n_queries == len(qs), "%s: counts", what)


FORMS = [list, tuple, np.array, lambda v: np.array(v, dtype=np.int32 if max(v) < 2 ** 31 and min(v) >= -2 ** 31 else np.int64)]


def check_hist(case, ctx):
    """All histories that start with the given first operation."""
    (sizes, ids, nf, layout), first, depth = case
    base = root(sizes, ids, nf, layout)
    sizes_of = dict(zip(ids, sizes))
    snap0 = Snapshot(base)
    form = [0]

    def ops(qs, fs):
        for r in range(1, len(qs) + 1):
            for c in itertools.combinations(qs, r):
                yield ("q", c)
        if len(qs) > 1:
            yield ("q", tuple(reversed(qs)))
        for r in range(1, len(fs) + 1):
            for c in itertools.permutations(range(len(fs)), r):
                yield ("f", c)

    def apply(d, qs, fs, op):
        form[0] += 1
        if op[0] == "q":
            r = d.subset(FORMS[form[0] % 4](op[1]), name="n%d" % (form[0] % 3))
            return r, tuple(q for q in qs if q in op[1]), fs
        return d.subset_features(FORMS[(0, 2, 3)[form[0] % 3]](op[1])), qs, tuple(fs[i] for i in op[1])

    def step(d, qs, fs, op, left):
        snap = Snapshot(d)
        r, qs2, fs2 = apply(d, qs, fs, op)
        ctx.transition()
        ctx.evaluated()
        what = "history ending in %r" % (op,)
        verify(r, expected(base, sizes, ids, qs2, fs2), sizes_of, what)
        snap.check(what)
        ctx.trace()
        if 0 < len(qs2) < len(ids) or len(fs2) < nf:
            ctx.nontrivial((sizes, ids, qs2, fs2, left))
        ctx.state((sizes, ids, layout, qs2, fs2))
        if left > 1:
            for o in ops(qs2, fs2):
                step(r, qs2, fs2, o, left - 1)

    step(base, ids, tuple(range(nf)), first, depth)
    snap0.check("the history")


def roots():
    return [((2, 1, 3), (5, 2, 9), 2, "C"), ((1, 1, 1, 2), (4, 3, 2, 1), 2, "F"), ((2, 2), (7, 1), 3, "strided"),
            ((3, 1, 2), (100, -4, 2147483647), 1, "C"),
            ((1, 2, 1, 1), WIDE_IDS[0][:4], 1, "C"), ((2, 1, 1), WIDE_IDS[2][:3], 2, "F")]


def histories(depth):
    for r in roots():
        sizes, ids, nf, layout = r
        for k in range(1, len(ids) + 1):
            for c in itertools.combinations(ids, k):
                yield r, ("q", c), depth
        for k in range(1, nf + 1):
            for c in itertools.permutations(range(nf), k):
                yield r, ("f", c), depth


def check_ladder(case, ctx):
    m, nf, sel = case
    sizes = tuple(1 + i % 3 for i in range(m))
    ids = tuple((i * 7919 + 13) % 1000003 if m % 2 else i // 2 + (i % 2) * 2 ** 32 for i in range(m))
    base = root(sizes, ids, nf, "F" if sel == 2 else "C")
    snap = Snapshot(base)
    sizes_of = dict(zip(ids, sizes))
    qs = [q for i, q in enumerate(ids) if {0: i % 2 == 0, 1: i == m - 1, 2: i != m // 2, 3: True}[sel]]
    if qs:
        d = base.subset(np.array(qs[::-1]))
        verify(d, expected(base, sizes, ids, qs, range(nf)), sizes_of, "subset of %d queries" % m)
    fs = [i for i in range(nf) if {0: i % 2 == 0, 1: i == nf - 1, 2: i != nf // 2, 3: True}[sel]][::-1]
    if fs:
        d = base.subset_features(np.array(fs))
        verify(d, expected(base, sizes, ids, ids, fs), sizes_of, "subset of %d features" % nf)
        ctx.evaluated()
    snap.check("subset")
    ctx.evaluated()
    ctx.nontrivial(case)
    ctx.transition(2)
    ctx.trace(2)
    ctx.state(case)


def check_huge(case, ctx):
    """More cells than 31 or 32 bits count."""
    from rankeval.dataset import Dataset
    n, nf = case

    def run(X):
        sizes = (n // 3, 2, n - n // 3 - 4, 1, 1)
        ids = (4, 9, 1, 7, 3)
        offs = np.concatenate([[0], np.cumsum(sizes)])
        for i in (offs[1], offs[1] + 1, offs[3], offs[4]):
            X[i, [0, nf // 2, nf - 2, nf - 1]] = [i, i + 0.5, -i, 1]
        y = (np.arange(n) % 7).astype(np.float32)
        ds = Dataset(X, y, np.array(expand(ids, sizes), dtype=np.int32))
        for qs in ((9,), (3, 7), (9, 3, 7)):
            d = ds.subset(list(qs))
            rows = [r for i, q in enumerate(ids) if q in qs for r in range(offs[i], offs[i + 1])]
            require(same(d.X, X[rows]) and same(d.y, y[rows]) and list(d.query_ids) == [q for q in ids if q in qs], "subset %r of %d x %d", qs, n, nf)
            ctx.evaluated()
        for fs in ((nf - 1,), (nf - 2, 0), (nf // 2, nf - 1, 0)):
            d = ds.subset_features(np.array(fs))
            require(same(d.X, np.stack([X[:, f] for f in fs], axis=1)) and same(d.y, y) and list(d.query_ids) == list(ids), "features %r of %d x %d", fs, n, nf)
            ctx.evaluated()
        ctx.nontrivial(case)
        ctx.state(case)
        ctx.transition(6)
        ctx.trace(6)
    with_huge(ctx, n, nf, run)


def check_own(case, ctx):
    """A selection has rows of its own."""
    sizes, ids, nf, layout, op, form = case
    base = root(sizes, ids, nf, layout)
    if op[0] == "q":
        independent(base, [base.subset(FORMS[form](op[1])), base.subset(FORMS[form](op[1]))], "subset %r of %r" % (op[1], ids))
    else:
        d = [base.subset_features(FORMS[form](op[1])) for _ in range(2)]
        independent(base, d, "features %r of %d" % (op[1], nf), labels=False)
    ctx.evaluated()
    ctx.transition(2)
    ctx.trace(2)
    ctx.nontrivial(case)
    ctx.state(case[:5])


def own_cases():
    for sizes, ids in (((2, 1, 3, 1), (5, 2, 9, 7)), ((1, 1, 1), (1, 2, 3)), ((3,), (4,)), ((40, 30, 50), (3, 1, 2))):
        for nf in (1, 2, 4):
            for layout in ("C", "F", "strided", "reversed"):
                for form in range(4):
                    for k in range(1, len(ids) + 1):
                        for c in itertools.combinations(ids, k):
                            yield sizes, ids, nf, layout, ("q", c), form
                    for k in range(1, nf + 1):
                        for c in itertools.permutations(range(nf), k):
                            if form != 1:
                                yield sizes, ids, nf, layout, ("f", c), form


def units(tier):
    t = tier == "thorough"
    return [Unit("histories", lambda: histories(3 if t else 2), check_hist),
            Unit("histories-deep", lambda: (h for h in histories(4 if t else 3) if len(h[0][1]) < (4 if t else 3)), check_hist),
            Unit("independent", own_cases, check_own), Unit("huge", HUGE, check_huge, stall=300),
            Unit("ladder", [(m, f, s) for m in (LADDER if t else SHORT_LADDER) for f in (1, 2, 65) for s in range(4)]
                 + [(3, f, s) for f in LADDER[:110] if f < 1100 for s in range(4)]
                 + [(m, 2, s) for m in GIANT for s in (0, 2)] + [(3, f, s) for f in GIANT for s in range(4)], check_ladder)]
