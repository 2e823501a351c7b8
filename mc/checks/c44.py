"""C44: randomization test, all outcomes of the random swaps."""
import itertools
from fractions import Fraction
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import ensemble

PROPERTY, LEVEL = "C44", "exploration"
RULE = ("every pair of per-query value vectors over dyadic and non-dyadic alphabets up to the bound x every outcome of the random swaps (all 2^N swap "
        "vectors in one call, and each swap vector alone); every outcome, with its probability, of whatever random primitive is used; expected p-values computed exactly on rationals; ladder over the number of queries; 1-2 datasets and metrics; "
        "non-trivial: the systems differ")
ASSUMPTIONS = ["the random draws are fair coins taken through numpy.random; they are replaced by the enumerated outcomes"]
DY, ND = (0.0, 0.5, 1.0), (0.1, 0.2, 0.3, 0.7)


def deltas(a, b):
    """Exact differences best - worst of the observed arrangement and of every swap vector (in itertools.product order)."""
    a, b = [Fraction(float(np.float32(x))) for x in a], [Fraction(float(np.float32(x))) for x in b]
    if sum(a) < sum(b):
        a, b = b, a
    d = [x - y for x, y in zip(a, b)]
    return sum(d), [sum(-x if s else x for x, s in zip(d, m)) for m in itertools.product((0, 1), repeat=len(d))]


def run(pairs, metrics, n_perm, bits, width):
    """pairs: per dataset (values of model a, values of model b)."""
    from rankeval.analysis.statistical import statistical_significance
    from .chance import Bits, Coin, coin_patches
    from .tables import Frozen, indexed, labelled, lookup_tree
    dss = [indexed([0] * len(a), (1,) * len(a), "d%d" % i, first=100 * i) for i, (a, b) in enumerate(pairs)]
    models = []
    for j in (0, 1):
        tree = None
        for i in reversed(range(len(pairs))):
            part = lookup_tree(pairs[i][j], first=100 * i)
            tree = part if tree is None else (0, 100 * (i + 1) - 0.5, part, tree)
        models.append(ensemble([tree], name="m%d" % j))
    fz = Frozen(dss, models)
    b = Bits(bits)
    with patched(*coin_patches(Coin(b, width))):
        p = statistical_significance(dss, models[0], models[1], metrics, n_perm=n_perm)
    fz.check("statistical_significance")
    labelled(p, [("dataset", dss), ("metric", metrics), ("p-value", ["one-sided", "two-sided"])], "statistical_significance")
    return p.values, b.i


def check(case, ctx):
    from .tables import First
    a, b = case
    n = len(a)
    d, ds = deltas(a, b)
    all_bits = [x for m in itertools.product((0, 1), repeat=n) for x in m]
    one, two = sum(x >= d for x in ds) / len(ds), sum(abs(x) >= abs(d) for x in ds) / len(ds)
    for x, y in ((a, b), (b, a)):
        v, used = run([(x, y)], [First()], len(ds), all_bits, n)
        require(np.all((v >= 0) & (v <= 1)), "p-values %r", v)
        if used == len(all_bits):        # every swap vector was drawn exactly once
            require(abs(v[0, 0, 1] - two) < 1e-6, "two-sided p of %r vs %r over all swaps: %r, expected %r", x, y, v[0, 0, 1], two)
            require(abs(v[0, 0, 0] - one) < 1e-6, "one-sided p of %r vs %r over all swaps: %r, expected %r", x, y, v[0, 0, 0], one)
            ctx.count("complete enumerations")
        elif tuple(x) == tuple(y):
            require(v[0, 0, 0] == 1 and v[0, 0, 1] == 1, "identical systems: p = %r", v)
        ctx.evaluated()
        ctx.trace(len(ds))
    # each swap vector alone; which of swapped / kept a set bit stands for is not prescribed
    got = []
    for m in itertools.product((0, 1), repeat=n):
        v, used = run([(a, b)], [First()], 1, m, n)
        if used != n:
            break
        got.append((v[0, 0, 0], v[0, 0, 1]))
        ctx.evaluated()
        ctx.trace()
    if len(got) == len(ds):
        w = [(float(x >= d), float(abs(x) >= abs(d))) for x in ds]
        require(got == w or got == w[::-1], "p-values of %r vs %r for each single swap vector: %r, expected %r", a, b, got, w)
    if d:
        ctx.nontrivial(case)


def check_undefined(case, ctx):
    """Queries on which the metric is not defined for one of the systems do not take part in the test."""
    from .tables import Partly, UNDEF
    a, b = case
    pos = [i for i in range(len(a)) if UNDEF not in (a[i], b[i])]
    n = len(a)
    d, ds = deltas([a[i] for i in pos], [b[i] for i in pos])
    w = (sum(x >= d for x in ds) / len(ds), sum(abs(x) >= abs(d) for x in ds) / len(ds)) if pos else (np.nan, np.nan)
    met = [Partly()]
    for bits, width, k in [([x for m in itertools.product((0, 1), repeat=len(pos)) for x in m], len(pos), len(ds)),
                           ([x for m in itertools.product((0, 1), repeat=n) for x in m], n, 2 ** n)]:
        v, used = run([(a, b)], met, k, bits or [0], width)
        if not pos:
            require(np.isnan(v).all() or np.all(v == 1), "p-values of %r vs %r, which have no query with a value: %r", a, b, v)
        elif used == len(bits):
            require(np.allclose(v[0, 0], w, atol=1e-6), "p-values of %r vs %r (99: no value): %r, expected %r", a, b, v[0, 0], w)
            ctx.count("complete enumerations")
        elif d == 0 and not any(ds):
            require(np.all(v == 1), "p-values of identical systems %r vs %r: %r", a, b, v)
        ctx.evaluated()
    ctx.nontrivial(case)


def undefined_cases(t):
    from .tables import UNDEF
    for n in range(1, 5 if t else 4):
        for a in itertools.product((0.0, 0.3, UNDEF), repeat=n):
            for b in itertools.product((0.3, 1.0, UNDEF), repeat=n):
                if UNDEF in a + b and (t or n < 3 or a[0] <= a[-1]):
                    yield a, b


def check_multi(case, ctx):
    """Several datasets and metrics: each cell is that of its own vectors."""
    from .tables import First
    pairs, n = case
    bits = [x for m in itertools.product((0, 1), repeat=n) for x in m]
    mets = [First("a"), First("b", 0.5)]
    v, used = run(pairs, mets, 2 ** n, bits, n)
    for i, (a, b) in enumerate(pairs):
        d, ds = deltas(a, b)
        w = (sum(x >= d for x in ds) / len(ds), sum(abs(x) >= abs(d) for x in ds) / len(ds))
        for l in (0, 1):
            if used == len(bits) * 4:
                require(np.allclose(v[i, l], w, atol=1e-6), "dataset %d metric %d of %r: %r, expected %r", i, l, case, v[i, l], w)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_seq(case, ctx):
    """Sequences of several permutations: the p-value is the fraction of those drawn."""
    from .tables import First
    a, b, k = case
    n = len(a)
    d, ds = deltas(a, b)
    ms = list(itertools.product((0, 1), repeat=n))
    for seq in itertools.product(range(len(ms)), repeat=k):
        v, used = run([(a, b)], [First()], k, [x for i in seq for x in ms[i]], n)
        if used != n * k:
            return
        w = [(sum(t[i] >= d for i in seq) / k, sum(abs(t[i]) >= abs(d) for i in seq) / k) for t in (ds, ds[::-1])]
        require(any(np.allclose(v[0, 0], x, atol=1e-6) for x in w), "p-values of %r vs %r for swaps %r: %r, expected %r", a, b, seq, v[0, 0], w)
        ctx.evaluated()
        ctx.trace()
    ctx.nontrivial(case)


def check_dist(case, ctx):
    """All outcomes of whatever random primitive decides the swaps, with their probabilities: the expected p-values are the exact ones."""
    from rankeval.analysis.statistical import statistical_significance
    from .chance import Chance, chance_patches
    from .tables import First, indexed, lookup_tree
    a, b, n_perm, cells = case
    n = len(a)
    d, ds = deltas(a, b)
    ds0 = indexed([0] * n, (1,) * n, "d")
    models = [ensemble([lookup_tree(v)], name="m%d" % j) for j, v in enumerate((a, b))]
    c = Chance(cells)

    def once():
        return statistical_significance([ds0], models[0], models[1], [First()], n_perm=n_perm).values[0, 0].astype(float)
    with patched(*chance_patches(c)):
        out = c.explore(once)
    ctx.evaluated()
    if out is None or (len(out) == 1 and n):      # too many outcomes, or drawn from a source that is not enumerated
        ctx.count("not enumerated")
        return
    require(abs(sum(w for w, _ in out) - 1) < 1e-9, "probabilities of the outcomes")
    got = sum(w * p for w, p in out)
    want = [sum(x >= d for x in ds) / len(ds), sum(abs(x) >= abs(d) for x in ds) / len(ds)]
    require(np.allclose(got, want, atol=1e-5), "p-values of %r vs %r, n_perm=%d, averaged over all %d outcomes of the random draws: %r, expected %r", a, b, n_perm, len(out), got, want)
    ctx.trace(len(out))
    ctx.count("outcomes of random draws", len(out))
    if d:
        ctx.nontrivial(case)


def dist_cases(t):
    for n in (1, 2, 3, 4):
        vs = list(itertools.product((0.0, 0.3, 1.0), repeat=n))
        step = {1: 1, 2: 1, 3: 13, 4: 211}[n] if not t else {1: 1, 2: 1, 3: 3, 4: 37}[n]
        for i in range(0, len(vs) ** 2, step):
            yield vs[i % len(vs)], vs[i // len(vs)], 1, 4
            if n < 3:
                yield vs[i % len(vs)], vs[i // len(vs)], 2, 4
                yield vs[i % len(vs)], vs[i // len(vs)], 1, 6
    for a, b in (((0.1, 0.2), (0.3, 0.3)), ((1.0, 0.0), (0.5, 0.75))):
        for k in (3, 4):
            yield a, b, k, 2


def cases(t):
    for n in range(1, 5 if t else 4):
        for al in (DY, ND):
            if al is ND and n == 4:
                al = ND[:3]
            for a in itertools.product(al, repeat=n):
                for b in itertools.product(al, repeat=n):
                    if a <= b and (n < 3 or t or a[0] <= a[1]):
                        yield a, b
    for n in (4, 5, 6, 7, 8) if t else (4, 5, 6):
        for k in range(6):
            yield tuple(((i * 3 + k) % 7) / 7.0 for i in range(n)), tuple(((i * 5 + k) % 7) / 7.0 for i in range(n))
        yield (1.0,) * (n - 1) + (0.0,), (0.0,) * (n - 1) + (1.0,)
        yield (0.1,) * n, (0.3,) * n


def multi_cases(t):
    for n in (2, 3):
        vs = list(itertools.product((0.0, 0.3, 1.0), repeat=n))
        for i in range(0, len(vs) ** 2, 5 if n == 2 else 31):
            a, b, c, d = vs[i % len(vs)], vs[i // len(vs)], vs[(i * 7) % len(vs)], vs[(i * 5 + 1) % len(vs)]
            yield ((a, b), (c, d)), n


def check_long(case, ctx):
    """Many queries: a few chosen swap vectors."""
    from .tables import First
    n, kind = case
    a = [((i * 3 + 1) % 7) * 0.25 for i in range(n)]
    b = [((i * 5) % 7) * 0.25 for i in range(n)] if kind != "shift" else [x + 0.125 * (i % 9 == 0) for i, x in enumerate(a)]
    ms = [[0] * n, [1] * n, [i % 2 for i in range(n)], [int(i < n // 2) for i in range(n)], [int(i == n - 1) for i in range(n)], [int(i * i % 7 < 3) for i in range(n)]]
    d = np.array(a) - np.array(b)
    d = d if d.sum() >= 0 else -d
    t = np.array([(d * (1 - 2 * np.array(m))).sum() for m in ms])
    v, used = run([(a, b)], [First()], len(ms), [x for m in ms for x in m], n)
    ctx.evaluated()
    ctx.nontrivial(case)
    if used != n * len(ms):
        return
    w = [(float((x >= d.sum()).mean()), float((np.abs(x) >= d.sum()).mean())) for x in (t, -t)]
    require(any(np.allclose(v[0, 0], x, atol=1e-6) for x in w), "p-values of %d queries: %r, expected one of %r", n, v[0, 0], w)
    ctx.trace()


def units(tier):
    t = tier == "thorough"
    return [Unit("swaps", lambda: cases(t), check), Unit("draws", lambda: dist_cases(t), check_dist), Unit("tables", lambda: multi_cases(t), check_multi),
            Unit("undefined", lambda: undefined_cases(t), check_undefined),
            Unit("sequences", [(a, b, k) for a in itertools.product((0.0, 0.3, 1.0), repeat=2) for b in itertools.product((0.1, 1.0), repeat=2)
                               for k in ((2, 3, 4) if t else (2, 3))], check_seq),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) + GIANT for k in ("mixed", "shift")], check_long)]
