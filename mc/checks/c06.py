"""C06: k-fold splitting."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .c05 import mk

PROPERTY, LEVEL = "C06", "exploration"
RULE = ("every number of queries and folds with every outcome of the shuffle (the global generator is owned by the "
        "explorer) and ladders over queries x folds; both output modes; parts and source written over in turn, the others and the following folds must not change; interleaved consumption of two generators; "
        "with shuffle the folds vary with the generator, without it they do not; non-trivial: at least three folds")
ASSUMPTIONS = ["2 <= folds <= queries", "with two folds the train part is empty by construction (rotation of three parts)"]


def folds_of(ds, k, shuffle, qids_only, perm):
    rs = ChosenRandom(perm) if perm is not None else None
    if rs is None:
        np.random.seed(11)
        return list(ds.kfold(n_folds=k, qids_only=qids_only, shuffle=shuffle))
    with patched((np.random, "shuffle", rs.shuffle), (np.random, "permutation", rs.permutation)):
        return list(ds.kfold(n_folds=k, qids_only=qids_only, shuffle=shuffle))


def verify(src, k, folds, qids_only):
    allq = sorted(src)
    require(len(folds) == k, "%d folds instead of %d", len(folds), k)
    cnt = [dict.fromkeys(allq, 0) for _ in range(3)]
    for fold in folds:
        require(len(fold) == 3, "a fold has %d parts", len(fold))
        seen = []
        for j, part in enumerate(fold):
            if qids_only:
                qs = [int(q) for q in part]
            else:
                qs = []
                for q, X, y in rows_by_query(part):
                    require(q in src and same(X, src[q][0]) and same(y, src[q][1]), "rows of query %d changed", q)
                    qs.append(q)
                require(part.n_queries == len(qs) and part.n_instances == sum(len(src[q][1]) for q in qs), "inconsistent part")
            require(j == 0 and k == 2 or qs, "part %d of a fold is empty", j)
            for q in qs:
                require(q in cnt[j], "unknown query %d", q)
                cnt[j][q] += 1
            seen += qs
        require(sorted(seen) == allq, "a fold's parts hold %r instead of each query once", sorted(seen))
    for j, name in ((1, "validation"), (2, "test")):
        require(all(v == 1 for v in cnt[j].values()), "over all folds, queries are in %s sets %r times", name, sorted(set(cnt[j].values())))


def check_perm(case, ctx):
    m, kind, perms = case
    sizes = tuple(1 + (i * kind) % 3 for i in range(m))
    ids = tuple(range(1, m + 1)) if kind == 0 else WIDE_IDS[m % 3][:m] if kind == 3 else tuple((i * 5 + 3) % 11 + (100 if kind > 1 else 0) for i in range(m))
    ds, src = mk(sizes, ids)
    snap = Snapshot(ds)
    for k in range(2, m + 1):
        for perm in perms:
            for qo in (False, True):
                verify(src, k, folds_of(ds, k, True, qo, perm), qo)
                ctx.evaluated()
            if k > 2:
                ctx.nontrivial((m, kind, perm, k))
    snap.check("kfold")


def check_ladder(case, ctx):
    m, k = case
    sizes = tuple(1 + (i * i) % 3 for i in range(m))
    ids = tuple((i * 7919 + 13) % 1000003 if m % 2 else i // 2 + (i % 2) * 2 ** 32 for i in range(m))
    ds, src = mk(sizes, ids)
    snap = Snapshot(ds)
    for shuffle in (False, True):
        for qo in (False, True):
            verify(src, k, folds_of(ds, k, shuffle, qo, None), qo)
            ctx.evaluated()
    # two generators of one dataset, advanced alternately
    a, b = ds.kfold(n_folds=k), ds.kfold(n_folds=k, shuffle=False)
    fa, fb = [], []
    for _ in range(k):
        fa.append(next(a)); fb.append(next(b))
    verify(src, k, fa, False)
    verify(src, k, fb, False)
    ctx.evaluated(2)
    ctx.nontrivial(case)
    snap.check("kfold")


def check_own(case, ctx):
    """The parts of a fold have rows of their own, and what is done to them does not reach the following folds."""
    m, k, shuffle, qids_only = case
    ds, src = mk(tuple(1 + i % 3 for i in range(m)), tuple(5 * i % 13 for i in range(m)))
    np.random.seed(3)
    want = [[np.array(p) if qids_only else (np.array(p.X), np.array(p.y), np.array(p.query_ids)) for p in fold] for fold in ds.kfold(k, qids_only, shuffle)]
    np.random.seed(3)
    snap = Snapshot(ds)
    n = 0
    for fold, exp in zip(ds.kfold(k, qids_only, shuffle), want):
        got = [np.array(p) if qids_only else (np.array(p.X), np.array(p.y), np.array(p.query_ids)) for p in fold]
        for g, e in zip(got, exp):
            require(same(g, e) if qids_only else all(map(same, g, e)), "fold %d of %d of %d queries differs when the previous ones are written over", n, k, m)
        if not qids_only:
            independent(ds, list(fold), "fold %d of %d of %d queries" % (n, k, m), reverse=n % 2)
        for p in fold:
            for a in [p] if qids_only else [p.X, p.y, p.query_ids, p.query_offsets]:
                scribble(a)
        snap.check("writing over the parts of fold %d" % n)
        n += 1
    ctx.evaluated()
    if k >= 3:
        ctx.nontrivial(case)


def check_varies(case, ctx):
    """With shuffle the folds depend on the state of the global generator, without it they never do."""
    m, k, qo = case
    ds, src = mk((1,) * m, tuple(range(1, m + 1)))
    for shuffle in (True, False):
        seen = set()
        for s in range(24):
            np.random.seed(s)
            folds = list(ds.kfold(n_folds=k, qids_only=qo, shuffle=shuffle))
            verify(src, k, folds, qo)
            seen.add(tuple(tuple(tuple(sorted(int(q) for q in (p if qo else p.query_ids))) for p in f) for f in folds))
            ctx.evaluated()
        require(len(seen) > 6 if shuffle else len(seen) == 1, "24 states of the generator give %d different lists of folds with shuffle=%r", len(seen), shuffle)
    ctx.nontrivial(case)


def small(mmax):
    for m in range(2, mmax + 1):
        perms = list(itertools.permutations(range(m)))
        for kind in ((0, 1, 2, 3) if m < 6 else (2,)):
            for c in range(0, len(perms), 12):
                yield m, kind, perms[c:c + 12]


def units(tier):
    t = tier == "thorough"
    hi = 90 if t else 34
    pairs = [(m, k) for m in range(2, hi) for k in sorted(set(list(range(2, min(m, 13) + 1)) + [m]))]
    pairs += [(m, k) for m in (127, 128, 129, 255, 256, 257, 300) for k in (2, 3, 5, 10, 128) if k <= m and (t or k < 11)]
    pairs += [(m, 3) for m in (GIANT if t else GIANT[1::3])]
    return [Unit("all-shuffles", lambda: small(7 if t else 6), check_perm), Unit("ladder", pairs, check_ladder),
            Unit("independent", [(m, k, s, q) for m in range(2, 9) for k in range(2, m + 1) for s in (True, False) for q in (True, False)], check_own),
            Unit("varies", [(m, k, qo) for m in (6, 9, 12) for k in (2, 3, 5) for qo in (False, True)], check_varies)]
