"""C46: topological analysis."""
import itertools
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C46", "exploration"
RULE = ("every tree shape up to the leaf bound, every pair and triple of shapes within smaller bounds, both node numberings, with and without leaves, "
        "after copying prefixes; chains and complete trees of every height up to the limit of the analysis, ladders over the number of trees; "
        "non-trivial: some level is not full")
ASSUMPTIONS = ["parents are stored before their children, as all loaders do", "the root position is always counted",
               "trees higher than 62 levels may be rejected"]


def places(tree, leaves):
    out, st = [], [(tree, 0, 0)]
    while st:
        t, d, c = st.pop()
        if leaves or t[0] != "L" or d == 0:
            out.append((d, c))
        if t[0] != "L":
            st += [(t[2], d + 1, 2 * c), (t[3], d + 1, 2 * c + 1)]
    return out


def verify(ens, T, what, ctx, may_reject=False):
    from rankeval.analysis.topological import topological_analysis
    from .tables import Frozen
    fz = Frozen([], [ens])
    h = [height(t) for t in T]
    for leaves in (True, False):
        try:
            r = topological_analysis(ens, include_leaves=leaves) if not leaves else topological_analysis(ens)
        except RuntimeError:
            require(may_reject, "%s rejected", what)
            ctx.evaluated()
            continue
        cells = {}
        for t in T:
            for p in places(t, leaves):
                cells[p] = cells.get(p, 0) + 1
        rows = max(d for d, _ in cells) + 1

        def cmp(m, scale, name):
            m = m.tocoo()
            got = {(int(a), int(b)): float(v) for a, b, v in zip(m.row, m.col, m.data) if v != 0}
            require(set(got) == set(cells) and all(abs(got[k] - cells[k] / scale) <= 1e-5 * max(1, cells[k] / scale) for k in cells),
                    "%s (leaves %r): %s is %r, expected %r / %r", what, leaves, name, got if len(got) < 40 else len(got), cells if len(cells) < 40 else len(cells), scale)
            require(m.shape[0] == rows and m.shape[1] >= max(c for _, c in cells) + 1, "%s (leaves %r): %s has shape %r, %d levels expected", what, leaves, name, m.shape, rows)
        cmp(r.topology, 1.0, "topology")
        cmp(r.avg_tree_shape(), float(len(T)), "avg_tree_shape")
        require(same(r.height_trees, h), "%s (leaves %r): heights %r, expected %r", what, leaves, r.height_trees, h)
        full = np.asarray(r.fullness_per_level()).ravel()
        want = [sum(v for (d, _), v in cells.items() if d == l) / 2.0 ** l / len(T) for l in range(rows)]
        require(len(full) == rows and np.allclose(full, want, rtol=1e-5, atol=0), "%s (leaves %r): fullness %r, expected %r", what, leaves, full, want)
        s = r.describe_tree_height()
        require(s.nobs == len(T) and tuple(int(x) for x in s.minmax) == (min(h), max(h)) and abs(s.mean - sum(h) / len(h)) < 1e-9, "%s: tree heights %r, expected %r", what, s, h)
        if len(T) > 1:
            require(abs(s.variance - np.var(h, ddof=1)) < 1e-9, "%s: variance of the heights %r", what, s.variance)
        ctx.evaluated()
        if any(w != 1 for w in want[1:]):
            ctx.nontrivial((what, leaves, tuple(sorted(cells))[:50]))
    fz.check("topological_analysis")


def check(case, ctx):
    shps, order = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    ens = ensemble(T, order=order)
    verify(ens, T, "%r (%s)" % (shps, order), ctx)
    for n in range(1, len(T)):
        verify(ens.copy(n), T[:n], "copy(%d) of %r" % (n, shps), ctx)


def cases(t):
    for s in all_shapes(8 if t else 7):
        for o in ("pre", "bfs"):
            yield (s,), o
    for m, mx in ((2, 5), (3, 4 if t else 3)) + (((4, 3),) if t else ()):
        for c in itertools.product(all_shapes(mx), repeat=m):
            for o in ("pre", "bfs"):
                yield c, o


def ladder(case, ctx):
    kind, n = case
    if kind == "trees":
        s = all_shapes(4)
        T = [auto(s[(i * 5 + 1) % len(s)], i, scale=0.25) for i in range(n)]
        verify(ensemble(T), T, "%d trees" % n, ctx)
    elif kind == "balanced":
        def bal(d):
            return ("L", 1.0) if d == 0 else (d % 3, float(d), bal(d - 1), bal(d - 1))
        for o in ("pre", "bfs"):
            T = [bal(n), auto(None), bal(max(n - 1, 0))]
            verify(ensemble(T, order=o), T, "complete trees of height %d" % n, ctx)
    else:
        def zig(d):
            t = ("L", 1.0)
            for i in range(d):
                t = (0, float(i), t, ("L", 2.0)) if i % 2 else (0, float(i), ("L", 2.0), t)
            return t
        for T in ([chain(n, True)], [chain(n, False)], [chain(n, False), ("L", 0.5), chain(n // 2, True)], [zig(n), chain(2, True)]):
            for o in ("pre", "bfs"):
                verify(ensemble(T, order=o), T, "chain of height %d" % n, ctx, may_reject=n > 62)


def units(tier):
    t = tier == "thorough"
    big = LADDER if t else SHORT_LADDER
    return [Unit("shapes", lambda: cases(t), check),
            Unit("ladder", [("trees", n) for n in big + GIANT] + [("balanced", n) for n in list(range(0, 14 if t else 12)) + [15, 16, 17]] + [("chain", n) for n in list(range(1, 71)) + [100, 127, 128, 300]], ladder)]
