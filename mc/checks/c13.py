"""C13: CatBoost (CoreML) loading."""
import itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import formats
from .c10 import norm, rotate, VALS

PROPERTY, LEVEL = "C13", "exploration"
RULE = ("every sequence of up to three oblivious trees of every depth within the bound (equal and different depths, depth 0 "
        "included), both supported branch conditions at every node, both node orders, value alphabets, base predictions; deep "
        "single trees up to CatBoost's maximum depth of 16; files written independently with the CoreML protocol, the loaded "
        "ensemble compared node by node; thresholds and outputs on a lattice of mantissas for every exponent of single precision; non-trivial: some tree has a split")
ASSUMPTIONS = ["nodes are numbered from the leaves up, root last, as CatBoost writes them", "one prediction dimension"]
FEATS = [0, 1, 2, 45, 300]


def load(data, **kw):
    from rankeval.model import RTEnsemble
    p = scratch(".mlmodel")
    try:
        with open(p, "wb") as f:
            f.write(data)
        return RTEnsemble(p, format="CatBoost", **kw)
    finally:
        os.unlink(p)


def tree(depth, k):
    return list(zip(rotate(FEATS, k, depth), rotate(VALS, k, depth))), rotate(VALS, k + 3, 2 ** depth)


def verify(ens, L, base, what):
    n = [2 ** (len(s) + 1) - 1 for s, _ in L]
    require(ens.n_trees == len(L) and int(ens.n_nodes) == sum(n), "%s: %r trees and %r nodes, expected %d and %d", what,
            ens.n_trees, ens.n_nodes, len(L), sum(n))
    require(bool(np.all(ens.trees_weight == 1)) and ens.learning_rate == 1, "%s: weights", what)
    for i, (s, l) in enumerate(L):
        if len(s) <= 8:
            t = norm(formats.oblivious(s, l))
            require(rebuild(ens, i) == t, "%s: tree %d is %r, expected %r", what, i, rebuild(ens, i), t)
        else:           # walk level by level
            level = np.array([int(ens.trees_root[i])])
            for f, th in s:
                require(bool(np.all(ens.trees_nodes_feature[level] == f) and np.all(ens.trees_nodes_value[level] == F32(th))), "%s: split", what)
                level = np.stack([ens.trees_left_child[level], ens.trees_right_child[level]], axis=1).ravel()
                require(bool(np.all(level >= 0)) and len(set(level.tolist())) == len(level), "%s: children", what)
            require(same(ens.trees_nodes_value[level], np.array(l, dtype=F32)) and bool(np.all(ens.trees_left_child[level] == -1)), "%s: leaves", what)
    require((ens.base_score or 0) == base, "%s: base score %r, expected %r", what, ens.base_score, base)


def check(case, ctx):
    depths, k, base = case
    L = [tree(d, k + 3 * i) for i, d in enumerate(depths)]
    beh = [None, lambda t, h: False] + [lambda t, h, b=b: bool((h + t + b) % 2) for b in range(2)]
    for j, b in enumerate(beh):
        for order in ("leaf-first", "root-first"):
            ens = load(formats.coreml(L, base, b, order))
            verify(ens, L, base, "%r, branch variant %d, %s" % (case, j, order))
            ctx.evaluated()
    for n in range(1, len(L)):
        verify(load(formats.coreml(L, base), n_trees=n), L[:n], base, "%d of the trees of %r" % (n, case))
    if sum(d for d in depths) > 0 and max(FEATS) < 1000:
        T = [formats.oblivious([(f % 3, v) for f, v in s], l) for s, l in [([(i % 3, VALS[i]) for i in range(d)], [float(x) for x in range(2 ** d)]) for d in depths]]
        M = [([(i % 3, VALS[i]) for i in range(d)], [float(x) for x in range(2 ** d)]) for d in depths]
        X = documents(T, 3, cap=40)
        y = load(formats.coreml(M, base)).score(mkds(X))
        require(np.allclose(y, partial(T, None, X).sum(axis=1) + base), "%r: scores", case)
        ctx.nontrivial(case)


def cases(t):
    for d in range(0, 9 if t else 7):
        for k in range(12):
            yield (d,), k, (0.0, 0.25)[k % 2]
    for m, mx in ((2, 5 if t else 4), (3, 4 if t else 3)) + (((4, 2),) if t else ()):
        for c in itertools.product(range(mx + 1), repeat=m):
            for k in (0, 1, 2):
                yield c, k, (0.0, -1.5, 3.0)[k]


def check_unsupported(case, ctx):
    depth, h, b = case
    L = [tree(depth, 1), tree(depth, 2)]
    try:
        load(formats.coreml(L, 0.0, lambda t, x: b if (t, x) == (1, h) else True))
    except Exception:
        ctx.evaluated()
        ctx.nontrivial(case)
        return
    raise Violation("a branch condition of kind %d at node %d loaded silently" % (b, h))


def check_deep(case, ctx):
    L = [tree(d, 1 + d) for d in case]
    verify(load(formats.coreml(L, 0.0)), L, 0.0, "depths %r" % (case,))
    ctx.evaluated()
    ctx.nontrivial(case)


def check_bits(case, ctx):
    e, t = case
    L = [([(f, th)], [l[1], r[1]]) for f, th, l, r in stumps(e, t)]
    verify(load(formats.coreml(L, L[0][1][0])), L, L[0][1][0], "values with exponent %d" % e)
    v = [x for s, l in L for x in [s[0][1]] + l]
    big = [([(i % 3, v[i]) for i in range(7)], v[7:135])]
    verify(load(formats.coreml(big, 0.0)), big, 0.0, "values with exponent %d" % e)
    ctx.evaluated(2)
    ctx.nontrivial(case)


def prepare():
    import coremltools  # noqa: slow import, once before forking


def units(tier):
    t = tier == "thorough"
    return [Unit("ensembles", lambda: cases(t), check, prepare=prepare),
            Unit("unsupported", [(d, h, b) for d in (1, 2, 3) for h in range(2 ** d - 1) for b in (1, 2, 4, 5)], check_unsupported, prepare=prepare),
            Unit("exponents", [(e, t) for e in range(255)], check_bits, prepare=prepare),
            Unit("deep", [(d,) for d in range(7, 17)] + [(3, 12), (15, 2), (16, 1, 16)], check_deep, stall=200, prepare=prepare)]
