"""C04: query grouping."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C04", "exploration"
RULE = ("every composition of up to N rows into queries x every injective id assignment from the id alphabet (small), plus "
        "every sequence of row ids over three of them (those leaving a query and coming back included), ids of 64 bits, "
        "size ladders with ascending/descending/scattered ids; non-trivial: at least two queries")
ASSUMPTIONS = ["ids fit the dtype they are given in",
               "ids coming back to a query already left: the dataset is rejected, or else every row keeps the id it was given"]
ALPHA = [0, 1, 2, 7, -3, 2147483647]


def check(case, ctx):
    from rankeval.dataset import Dataset
    sizes, ids, dt, layout = case
    n = sum(sizes)
    q = np.array(expand(ids, sizes), dtype=dt)
    X = dict(layouts(make_X(n, 2)))[layout] if n else np.zeros((0, 2), np.float32)
    y = np.arange(n, dtype=np.float32) % 3
    X0, y0, q0 = X.copy(), y.copy(), q.copy()
    ds = Dataset(X, y, q)
    offs = np.concatenate([[0], np.cumsum(sizes)]).astype(int).tolist()
    require(ds.n_instances == n and ds.n_features == 2 and ds.n_queries == len(sizes),
            "wrong counts %r", (ds.n_instances, ds.n_features, ds.n_queries))
    require(list(map(int, ds.query_ids)) == list(ids), "query ids %r, expected %r", ds.query_ids, ids)
    require(list(map(int, ds.query_offsets)) == offs, "offsets %r, expected %r", ds.query_offsets, offs)
    it = [(int(a), int(b), int(c)) for a, b, c in ds.query_iterator()]
    require(it == list(zip(ids, offs, offs[1:])), "iterator yields %r", it)
    require(list(map(int, ds.get_query_sizes())) == list(sizes), "sizes %r", ds.get_query_sizes())
    require(same(ds.get_qids_dataset(), q0), "per-row ids %r", ds.get_qids_dataset())
    g = ds.get_qids_dataset(dtype=np.int64)
    require(g.dtype == np.int64 and same(g, q0), "per-row ids (int64) %r", g)
    step = 1 if len(ids) < 300 else len(ids) // 97
    for i in range(0, len(ids), step):
        r = ds.get_query_offsets(ids[i])
        require((int(r[0]), int(r[1])) == (offs[i], offs[i + 1]), "rows of query %d: %r", ids[i], r)
    for missing in (3, 4, 1000000007):
        if missing not in ids:
            try:
                r = ds.get_query_offsets(missing)
            except LookupError:
                pass
            else:
                raise Violation("unknown id %d: returned %r" % (missing, r))
    require(same(ds.X, X0) and same(ds.y, y0), "rows changed")
    require(same(X, X0) and same(y, y0) and same(q, q0), "the constructor modified its arguments")
    ctx.evaluated()
    if len(sizes) > 1:
        ctx.nontrivial(case)


def small(nmax, k):
    yield (), (), "int32", "C"
    for n in range(1, nmax + 1):
        for sizes in compositions(n):
            m = len(sizes)
            if m <= k:
                for ids in itertools.permutations(ALPHA, m):
                    yield sizes, ids, "int32", "C"
            else:
                base = list(range(1, m + 1))
                for r in range(m):
                    yield sizes, tuple(base[r:] + base[:r]), "int64", "C"
                yield sizes, tuple(base[::-1]), "int64", "F"
    for n in (3, 4):
        for sizes in compositions(n):
            for ids in itertools.permutations([5, 3, 2 ** 31 - 1, 8], len(sizes)):
                for dt in ("int64", "uint32", "int32"):
                    for lay in ("F", "strided", "reversed"):
                        yield sizes, ids, dt, lay


def ladder(ns):
    for m in ns:
        for sizes in (tuple([1] * m), tuple(1 + i % 3 for i in range(m)), tuple([2] * (m - 1) + [50])):
            yield sizes, tuple(range(10, 10 + m)), "int32", "C"
            yield sizes, tuple(range(10 + m, 10, -1)), "int32", "C"
            yield sizes, tuple((i * 7919 + 13) % 1000003 + 5 for i in range(m)), "int64", "C"
    for big in ns:
        yield (1, big, 2), (9, 8, 30), "int32", "C"


def wide():
    for n in (1, 2, 3, 4):
        for sizes in compositions(n):
            for ids in itertools.permutations([2 ** 62, 2 ** 32 + 5, 5, 2 ** 31, -2 ** 31 - 1], len(sizes)):
                yield sizes, ids, "int64", "C"
            for ids in itertools.permutations([2 ** 32 - 1, 2 ** 31, 5, 2 ** 31 - 1], len(sizes)):
                yield sizes, ids, "uint32", "C"


def scattered(case, ctx):
    """Every sequence of row ids, contiguous or not."""
    from rankeval.dataset import Dataset
    ids, dt = case
    n = len(ids)
    runs = [k for k, _ in itertools.groupby(ids)]
    try:
        ds = Dataset(make_X(n, 2), np.arange(n, dtype=np.float32), np.array(ids, dtype=dt))
        back = ds.get_qids_dataset(dtype=np.int64)
        sizes = list(map(int, ds.get_query_sizes()))
    except Exception as e:
        require(len(set(runs)) < len(runs), "row ids %r: %r", ids, e)
    else:
        require(same(back, np.array(ids)), "row ids %r: the dataset holds %r", ids, back)
        require(sizes == [len(list(g)) for _, g in itertools.groupby(ids)], "row ids %r: query sizes %r", ids, sizes)
    ctx.evaluated()
    if len(runs) > 1:
        ctx.nontrivial(case)


def scatter_cases(t):
    for n in range(1, 10 if t else 8):
        for ids in itertools.product((7, 2, 2147483647), repeat=n):
            yield ids, "int32"
    for n in range(1, 6):
        for ids in itertools.product((5, 5 + 2 ** 32, -1), repeat=n):
            yield ids, "int64"
    for n in (20, 64, 127, 255, 1000, 70000):
        for back in (0, n // 2, n - 2):
            ids = list(range(n))
            yield tuple(ids[:-1] + [back]), "int64"
            yield tuple([1] * n + [2] + [1] * (back % 7)), "int32"


def wrong_size(case, ctx):
    from rankeval.dataset import Dataset
    n, k = case
    try:
        Dataset(make_X(n, 2), np.zeros(n, np.float32), np.ones(k, dtype=np.int32))
    except Exception:
        pass
    else:
        raise Violation("%d query ids for %d rows accepted" % (k, n))
    ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("small", lambda: small(10 if t else 7, 5 if t else 4), check),
            Unit("ladder", lambda: ladder(LADDER + GIANT), check),
            Unit("wide-ids", wide, check),
            Unit("scattered", lambda: scatter_cases(t), scattered),
            Unit("wrong-size", [(n, k) for n in range(1, 6) for k in range(0, 8) if k != n], wrong_size)]
