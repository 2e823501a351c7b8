"""C05: train/validation/test split."""
import itertools
from fractions import Fraction as F
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C05", "exploration"
RULE = ("every query-size profile x every admissible (train, vali) share pair x every outcome of the shuffle (the random "
        "generator is owned by the explorer); parts and source written over in turn, the others must not change; ladders over the number of queries with seeded generators; non-trivial: at "
        "least two of the parts are non-empty")
ASSUMPTIONS = ["the shuffle is drawn from the generator passed as random_state (otherwise only the partition is checked)"]
SHARES = ["0", "0.1", "0.2", "0.25", "0.3", "0.4", "0.5", "0.6", "0.7", "0.75", "0.8", "0.9", "1"]


def verify(ds, src, parts, train, vali):
    require(len(parts) == (3 if vali else 2), "%d parts", len(parts))
    n = len(src)
    tr, te = parts[0], parts[-1]
    got = []
    for p in parts:
        r = rows_by_query(p)
        require(p.n_queries == len(r) and p.n_instances == sum(len(x[2]) for x in r) == p.X.shape[0] == p.y.size,
                "inconsistent part")
        require(p.n_features == ds.n_features == p.X.shape[1], "features of a part")
        got.append(r)
    seen = {}
    for k, r in enumerate(got):
        for q, X, y in r:
            require(q not in seen, "query %d is in part %s and in part %d", q, seen.get(q), k)
            seen[q] = k
            require(q in src, "unknown query %d in part %d", q, k)
            require(same(X, src[q][0]) and same(y, src[q][1]), "rows of query %d changed in part %d", q, k)
    require(len(seen) == n, "queries %r are in no part", sorted(set(src) - set(seen)))
    a = len(got[0])
    require(abs(F(a) - F(train) * n) <= F(1, 2), "train has %d of %d queries for share %s", a, n, train)
    if vali:
        b = len(got[1])
        require(abs(F(b) - F(vali) * n) <= F(1, 2) or (b == n - a and b < F(vali) * n),
                "validation has %d of %d queries for share %s", b, n, vali)
    return got


def mk(sizes, ids):
    from rankeval.dataset import Dataset
    n = sum(sizes)
    X = make_X(n, 3)
    y = (np.arange(n) * 0.5).astype(np.float32)
    ds = Dataset(X, y, idarr(ids, sizes))
    src, o = {}, 0
    for q, s in zip(ids, sizes):
        src[q] = (X[o:o + s].copy(), y[o:o + s].copy())
        o += s
    return ds, src


def check_perm(case, ctx):
    sizes, ids, perms = case
    ds, src = mk(sizes, ids)
    snap = Snapshot(ds)
    for train in SHARES:
        for vali in SHARES:
            if float(train) + float(vali) > 1:
                continue
            for perm in perms:
                rs = ChosenRandom(perm)
                parts = ds.split(float(train), float(vali) if vali != "0" else 0, random_state=rs)
                got = verify(ds, src, parts, train, vali != "0" and vali)
                ctx.evaluated()
                if rs.used:
                    ctx.count("shuffle_outcomes_forced")
                if sum(1 for g in got if g) > 1:
                    ctx.nontrivial((sizes, ids, perm, train, vali))
    snap.check("split")


def check_seed(case, ctx):
    m, kind = case
    sizes = tuple(1 + (i * i) % 3 for i in range(m))
    ids = tuple({"asc": i + 1, "desc": 500000 - i, "mix": (i * 7919 + 13) % 1000003, "wide": i // 2 + (i % 2) * 2 ** 32}[kind] for i in range(m))
    ds, src = mk(sizes, ids)
    snap = Snapshot(ds)
    for train in SHARES:
        for vali in SHARES:
            if float(train) + float(vali) > 1:
                continue
            v = float(vali) if vali != "0" else 0
            a = ds.split(float(train), v, random_state=5)
            verify(ds, src, a, train, v and vali)
            b = ds.split(float(train), v, random_state=5)
            for p, q in zip(a, b):
                require(same(p.X, q.X) and same(p.y, q.y) and same(p.query_ids, q.query_ids),
                        "the same random_state gave two different splits")
            c = ds.split(float(train), v, random_state=np.random.RandomState(5))
            for p, q in zip(a, c):
                require(same(p.X, q.X), "int seed and RandomState of that seed differ")
            np.random.seed(3)
            verify(ds, src, ds.split(float(train), v), train, v and vali)
            ctx.evaluated(4)
            ctx.nontrivial((case, train, vali))
    snap.check("split")


def check_varies(case, ctx):
    """The queries are shuffled: parts depend on the seed, given as an integer, as a generator or to numpy's own."""
    m, how = case
    ds, src = mk((1,) * m, tuple(range(1, m + 1)))
    seen = set()
    for s in range(24):
        if how == "global":
            np.random.seed(s)
            rs = None
        else:
            rs = s if how == "int" else np.random.RandomState(s)
        parts = ds.split(0.5, 0.25, random_state=rs)
        verify(ds, src, parts, "0.5", "0.25")
        seen.add(tuple(tuple(sorted(int(q) for q in p.query_ids)) for p in parts))
        ctx.evaluated()
    require(len(seen) > 6, "24 seeds (%s) give %d different splits of %d queries", how, len(seen), m)
    ctx.nontrivial(case)


def check_own(case, ctx):
    """The parts have rows of their own."""
    sizes, ids, train, vali, seed = case
    ds, _ = mk(sizes, ids)
    independent(ds, list(ds.split(float(F(train)), float(F(vali)), seed)), "split(%s, %s) of %r" % (train, vali, sizes), reverse=seed % 2)
    ctx.evaluated()
    ctx.nontrivial(case)


def own_cases():
    for sizes in ((1, 1), (2, 1, 3), (1, 2, 1, 2, 3), (9,), (30, 1, 20, 5)):
        for train, vali in itertools.product(("0.2", "0.4", "0.5", "0.6", "0.8", "1"), ("0", "0.2", "0.4")):
            if F(train) + F(vali) <= 1:
                for seed in range(6):
                    yield sizes, tuple(7 * i % 11 for i in range(len(sizes))), train, vali, seed


def check_reject(case, ctx):
    ds, _ = mk((1, 2, 1), (4, 2, 9))
    try:
        ds.split(*case)
    except Exception:
        pass
    else:
        raise Violation("sizes %r accepted" % (case,))
    ctx.evaluated()


def check_large(case, ctx):
    m, train, vali = case
    ds, src = mk(tuple(1 + (i * i) % 3 for i in range(m)), tuple((i * 7919 + 13) % 1000003 for i in range(m)))
    snap = Snapshot(ds)
    v = float(vali) if vali != "0" else 0
    verify(ds, src, ds.split(float(train), v, random_state=m), train, v and vali)
    snap.check("split")
    ctx.evaluated()
    ctx.nontrivial(case)


def small(m):
    for k in range(1, m + 1):
        perms = list(itertools.permutations(range(k)))
        profiles = list(itertools.product((1, 2), repeat=k)) if k <= 3 else [tuple(1 + (i + r) % 2 for i in range(k)) for r in (0, 1)]
        for sizes in profiles:
            for ids in (tuple(range(1, k + 1)), tuple(range(40, 40 - k, -1)), tuple((3 * i + 2) % 7 - 2 for i in range(k))) + tuple(w[:k] for w in WIDE_IDS if k <= 6):
                for c in range(0, len(perms), 24):
                    yield sizes, ids, perms[c:c + 24]


def units(tier):
    t = tier == "thorough"
    return [Unit("all-shuffles", lambda: small(6 if t else 5), check_perm),
            Unit("ladder", [(m, k) for m in (LADDER[:100] if t else SHORT_LADDER[:26]) for k in ("asc", "desc", "mix", "wide")
                            if m <= (600 if t else 140)], check_seed),
            Unit("large", [(m, a, b) for m in [255, 256, 257, 1000, 1025, 4097] + (GIANT if t else GIANT[1::3]) for a, b in (("0.5", "0.25"), ("0.7", "0.3"), ("0.1", "0"))], check_large),
            Unit("independent", own_cases, check_own), Unit("varies", [(m, h) for m in (8, 12, 20) for h in ("global", "int", "generator")], check_varies),
            Unit("rejected", [(-0.1,), (1.1,), (0.6, 0.6), (1.0, 0.1), (-1,), (2, 0), (0.5, -0.25), (0, -1), (1, -0.5)], check_reject)]
