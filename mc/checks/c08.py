"""C08: dataset equality and hashing."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C08", "exploration"
RULE = ("all ordered pairs of datasets of the universe (rows <= N, features <= 2, binary values and labels, all groupings and "
        "id assignments), every layout/dtype variant of each, and ladders with a single differing cell; non-trivial: the "
        "pair differs in exactly one component or is equal but not identical")
ASSUMPTIONS = ["no NaN among features or labels", "datasets are not mutated after being hashed"]

_U = None


def universe(nmax):
    groups = {1: [(1,), (2,)], 2: [(1, 1), (1, 2), (2, 1), (2, 2)],
              3: [(1, 1, 1), (1, 1, 2), (1, 2, 2), (1, 2, 3), (2, 1, 1), (2, 2, 1)],
              4: [(1, 1, 2, 2), (1, 2, 2, 2), (1, 1, 1, 2)]}
    for n in range(1, nmax + 1):
        for f in (1, 2):
            if n * f > 4:
                continue
            for X in itertools.product((0, 1), repeat=n * f):
                for y in itertools.product((0, 1), repeat=n):
                    for g in groups[n]:
                        yield n, f, X, y, g


def build(spec, dtype=np.float32, name=None, qdt=np.int32):
    from rankeval.dataset import Dataset
    n, f, X, y, g = spec
    return Dataset(np.array(X, dtype=dtype).reshape(n, f), np.array(y, dtype=np.float32), np.array(g, dtype=qdt), name=name)


def prepare(nmax):
    def go():
        global _U
        _U = [(s, build(s, name="d%d" % (i % 3))) for i, s in enumerate(universe(nmax))]
    return go


def check_row(i, ctx):
    si, a = _U[i]
    for j, (sj, b) in enumerate(_U):
        r, rn = a == b, a != b
        require(isinstance(r, (bool, np.bool_)) and bool(r) == (si == sj), "%r == %r gave %r", si, sj, r)
        require(bool(rn) == (si != sj), "%r != %r gave %r", si, sj, rn)
        if sum(p != q for p, q in zip(si, sj)) == 1:
            ctx.nontrivial((i, j))
    ctx.evaluated(len(_U))
    c = build(si, name="another")
    require(c == a and a == c and hash(c) == hash(a) and not c != a, "equal datasets differ or hash differently: %r", si)
    d = {a: "hit"}
    require(d.get(c) == "hit", "dictionary look-up of an equal dataset fails: %r", si)
    for j in range(max(0, i - 3), i):
        require(d.get(_U[j][1]) is None, "dictionary look-up of a different dataset succeeds: %r %r", si, _U[j][0])
    for o in (None, 0, 1.5, "x", [1], (1, 2), {}, object(), a.X, a.y, type(a)):
        require(not isinstance(a == o, np.ndarray) and not (a == o) and bool(a != o) and not (o is None and None == a),
                "comparison with %r", type(o))


def check_layout(case, ctx):
    from rankeval.dataset import Dataset
    n, f, g, zero = case
    X = make_X(n, f)
    if zero:
        X[0, 0] = 0.0
    y = (np.arange(n) % 3).astype(np.float32)
    q = np.array(g, dtype=np.int32)
    ref = Dataset(X, y, q)
    variants = []
    for dt in (np.float32, np.float64):
        for lname, L in layouts(X.astype(dt)):
            for qdt in (np.int32, np.int64):
                for ydt in (np.float32, np.float64):
                    yy = np.repeat(y.astype(ydt), 2)[::2] if lname == "strided" else y.astype(ydt)
                    variants.append(((lname, dt.__name__, qdt.__name__, ydt.__name__), Dataset(L, yy, q.astype(qdt), name=lname)))
    if zero:
        Z = X.copy()
        Z[0, 0] = -0.0
        variants.append((("negative zero",), Dataset(Z, y, q)))
    variants.append((("subset of all",), ref.subset(ref.query_ids)))
    variants.append((("all features",), ref.subset_features(list(range(f)))))
    for lab, v in variants:
        require(ref == v and v == ref and not ref != v, "layout variant %r compares unequal", lab)
        require(hash(ref) == hash(v), "layout variant %r is equal but hashes differently", lab)
        require({ref: 1}.get(v) == 1, "layout variant %r not found", lab)
        ctx.evaluated()
        ctx.nontrivial((case, lab))


def check_single(case, ctx):
    """Datasets of n rows that differ in one place only."""
    from rankeval.dataset import Dataset
    n, f = case
    X, y = make_X(n, f), (np.arange(n) % 2).astype(np.float32)
    q = np.array([i // 2 + 1 for i in range(n)], dtype=np.int32)
    a = Dataset(X, y, q)
    hash(a)
    pos = range(n) if n <= 70 else sorted(set([0, 1, n // 3, n // 2, n - 2, n - 1]))
    for i in pos:
        alts = []
        for c in sorted(set([0, f // 2, f - 1])):
            X2 = X.copy()
            X2[i, c] += 64
            alts.append(("feature", Dataset(X2, y, q)))
        y2 = y.copy()
        y2[i] = 5
        alts.append(("label", Dataset(X, y2, q)))
        q2 = q.copy()
        q2[q2 == q[i]] = 1000000
        alts.append(("id", Dataset(X, y, q2)))
        if i % 2 == 1 and i + 1 < n:
            q3 = q.copy()
            q3[i] = q[i + 1]
            alts.append(("boundary", Dataset(X, y, q3)))
        for what, b in alts:
            require(not (a == b) and a != b and not (b == a), "datasets of %d rows differing only in %s of row %d compare equal",
                    n, what, i)
            require({a: 1}.get(b) is None, "found")
            ctx.evaluated()
            ctx.nontrivial((case, i, what))
    for n2, f2 in ((n + 1, f), (n, f + 1), (n + 7, 1)):
        q4 = np.array([min(i, n - 1) // 2 + 1 for i in range(n2)], dtype=np.int32)
        b = Dataset(make_X(n2, f2), np.zeros(n2, np.float32), q4)
        require(not (a == b) and a != b and not (b == a) and b != a, "datasets of different shapes compare equal")
        ctx.evaluated()


def units(tier):
    t = tier == "thorough"
    nmax = 4 if t else 3
    total = sum(1 for _ in universe(nmax))
    return [Unit("pairs", range(total), check_row, prepare=prepare(nmax)),
            Unit("layouts", [(n, f, g, z) for n in range(1, 7) for f in (1, 2, 3) for z in (0, 1)
                             for g in (tuple([3] * n), tuple(range(n)), tuple(n - i // 2 for i in range(n)))], check_layout),
            Unit("single-difference", [(n, f) for n in (LADDER if t else SHORT_LADDER) for f in (1, 3)]
                 + [(n, 1) for n in GIANT] + [(5, f) for f in GIANT], check_single)]
