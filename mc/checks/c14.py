"""C14: copies and prunes are prefixes."""
import itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C14", "model_checking"
RULE = ("every sequence of copy(n) / score / cached score operations up to the depth bound over a growing family of ensembles "
        "(model state: the number of trees of each member; every transition replayed on real objects, every member checked "
        "after every step), plus every n for every ensemble of the universe, by copy and by loading a limited number of trees; arrays and cached scores of one member written over, the others must not change; "
        "non-trivial: at least one tree is dropped")
ASSUMPTIONS = ["1 <= n"]


def verify(ens, trees, weights, lr, base, what):
    n = len(trees)
    require(ens.n_trees == n, "%s: %r trees, expected %d", what, ens.n_trees, n)
    sizes = [2 * count_leaves(t) - 1 for t in trees]
    require(ens.n_nodes == sum(sizes), "%s: %r nodes, expected %d", what, ens.n_nodes, sum(sizes))
    require(len(ens.trees_root) == n and len(ens.trees_weight) == n and all(len(a) == sum(sizes) for a in (
        ens.trees_left_child, ens.trees_right_child, ens.trees_nodes_value, ens.trees_nodes_feature)), "%s: array sizes", what)
    require(same(ens.trees_weight, np.array(weights, dtype=F32)), "%s: weights %r", what, ens.trees_weight)
    for i, t in enumerate(trees):
        require(rebuild(ens, i) == norm(t), "%s: tree %d changed", what, i)
    require(ens.learning_rate == lr and ens.base_score == base, "%s: learning rate or base score changed", what)


def norm(t):
    return ("L", float(F32(t[1]))) if t[0] == "L" else (t[0], float(F32(t[1])), norm(t[2]), norm(t[3]))


SH = [((None, None), None), None, (None, (None, None)), (None, None)]


def check_hist(case, ctx):
    order, first, depth = case
    T = [auto(s, i) for i, s in enumerate(SH)]
    W = [1.0, 0.5, -2.0, 0.25]
    X = documents(T, 3, cap=20)
    ds = mkds(X)
    part = partial(T, W, X) * 0.5

    def exp(n):
        e = part[:, :n].copy()
        e[:, 0] += 0.25
        return e

    def ops(k):
        for i in range(k):
            for n in (None, 1, 2, 3, 4, 9):
                yield ("copy", i, n)
            yield ("score", i, 0, 1)
            yield ("score", i, 1, 0)
            yield ("zero", i)

    def play(seq):
        fam, size, alive = [ensemble(T, W, 0.5, 0.25, order)], [4], [True]
        for op in seq:
            ctx.transition()
            what = "%r in %r" % (op, seq)
            if op[0] == "copy":
                c = fam[op[1]].copy() if op[2] is None else fam[op[1]].copy(n_trees=op[2])
                require(c is not fam[op[1]], "%s returned the ensemble itself", what)
                fam.append(c)
                size.append(min(op[2] or 99, size[op[1]]))
                alive.append(alive[op[1]])
            elif op[0] == "score":
                r = fam[op[1]].score(ds, detailed=bool(op[2]), cache=bool(op[3]))
                if alive[op[1]]:
                    e = exp(size[op[1]])
                    require(same(r[0] if op[2] else r, e.sum(axis=1)) and (not op[2] or same(r[1], e)), "%s: wrong scores", what)
            else:            # overwrite every array of one member: the others must not notice
                f = fam[op[1]]
                for a in (f.trees_weight, f.trees_nodes_value, f.trees_nodes_feature, f.trees_left_child, f.trees_right_child, f.trees_root):
                    a[...] = 0
                f.trees_left_child[...] = -1
                f.trees_right_child[...] = -1
                f.trees_nodes_feature[...] = -1
                f.clear_cache()
                alive[op[1]] = False
            for f, n, a in zip(fam, size, alive):
                if a:
                    verify(f, T[:n], W[:n], 0.5, 0.25, what)
            ctx.state((order, tuple(zip(size, alive))))
        for f, n, a in zip(fam, size, alive):
            if a:
                require(same(f.score(ds), exp(n).sum(axis=1)), "after %r: wrong scores", seq)
        ctx.evaluated()
        ctx.trace()
        if min(size) < 4:
            ctx.nontrivial(seq)
        return len(fam)

    def go(seq):
        k = play(seq)
        if len(seq) < depth:
            for op in ops(k):
                go(seq + (op,))
    go((first,))


def hist_cases(depth):
    for order in ("pre", "bfs"):
        for n in (None, 1, 2, 3, 4, 9):
            yield order, ("copy", 0, n), depth
        yield order, ("score", 0, 0, 1), depth
        yield order, ("score", 0, 1, 0), depth
        yield order, ("score", 0, 1, 1), depth


def check_all_n(case, ctx):
    shps, order = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    W = [(-1.0) ** i * (1 + i % 4) / 2 for i in range(len(T))]
    ens = ensemble(T, W, 1, None, order)
    X = documents(T, 3, cap=12)
    ds = mkds(X)
    part = partial(T, W, X)
    for n in range(1, len(T) + 3):
        c = ens.copy(n)
        verify(c, T[:n], W[:n], 1, None, "copy(%d) of %d" % (n, len(T)))
        require(same(c.score(ds), part[:, :n].sum(axis=1)), "copy(%d) of %d: scores", n, len(T))
        if n > 1:
            d = c.copy(n - 1)
            verify(d, T[:min(n - 1, len(T))], W[:n - 1], 1, None, "copy of copy")
        ctx.evaluated()
        ctx.transition(2)
        ctx.trace()
        ctx.state((case, n))
        if n < len(T):
            ctx.nontrivial((case, n))
    verify(ens, T, W, 1, None, "the copied ensemble")


ARRAYS = ("trees_root", "trees_weight", "trees_left_child", "trees_right_child", "trees_nodes_value", "trees_nodes_feature")


def check_own(case, ctx):
    """Writing over the arrays, or the scores, of one ensemble leaves its copies, and its original, as they are."""
    m, n, cached, writes = case
    T = [auto((None, None), i) for i in range(m)]
    W = [1 + i / 2 for i in range(m)]
    ens = ensemble(T, W, 1, None)
    X = documents(T, 3, cap=6)
    ds = mkds(X)
    if cached:
        ens.score(ds, True, cache=True)
    c = ens.copy() if n is None else ens.copy(n)
    d = c.copy()
    k = min(n or m, m)
    part = partial(T, W, X)
    who = [(ens, m), (c, k), (d, k)]
    w, left = who[writes], who[:writes] + who[writes + 1:]
    if cached:
        for e, _ in who:
            e.score(ds, True, cache=True)
        for a in w[0].score(ds, True, cache=True):
            scribble(a)
    else:
        for f in ARRAYS:
            scribble(getattr(w[0], f))
    for e, j in left:
        verify(e, T[:j], W[:j], 1, None, "an ensemble of %d trees, another one of its family being written over" % j)
        y, p, _ = e.score(ds, True)
        require(same(y, part[:, :j].sum(axis=1)) and same(p, part[:, :j]), "scores of an ensemble of %d trees after those of another one were written over", j)
    ctx.evaluated()
    ctx.transition(2)
    ctx.trace()
    ctx.nontrivial(case)


def all_n_cases(t):
    s = all_shapes(3)
    for m in (1, 2, 3) + ((4,) if t else ()):
        for c in itertools.product(s, repeat=m):
            yield c, "pre" if len(c) % 2 else "bfs"


def check_ladder(case, ctx):
    m, n = case
    s = all_shapes(4)
    T = [auto(s[(i * 5 + 1) % len(s)], i, scale=0.25) for i in range(m)]
    W = [1.0 + i % 3 for i in range(m)]
    ens = ensemble(T, W, 1, None)
    c = ens.copy(n)
    verify(c, T[:n], W[:n], 1, None, "copy(%d) of %d" % (n, m))
    X = documents(T[:5], 3, cap=10)
    require(same(c.score(mkds(X)), partial(T[:n], W[:n], X).sum(axis=1)), "copy(%d) of %d: scores", n, m)
    verify(ens, T, W, 1, None, "the copied ensemble")
    ctx.evaluated()
    ctx.transition()
    ctx.trace()
    ctx.state(case)
    if n < m:
        ctx.nontrivial(case)


def check_load(case, ctx):
    """RTEnsemble(..., n_trees=n) keeps the first n trees of the file."""
    from rankeval.model import RTEnsemble
    m, n, form = case
    from . import formats
    T = [auto(all_shapes(3)[i % 4 if form != "CatBoost" else 1], i) for i in range(m)]
    p = scratch(".model")
    try:
        w = [1.0] * m
        if form == "QuickRank":
            w = [0.5 + i for i in range(m)]
            text = formats.quickrank(T, w)
        elif form == "LightGBM":
            T = [t if t[0] != "L" else auto((None, None), i) for i, t in enumerate(T)]
            text = formats.lightgbm(T)
        elif form == "XGBoost":
            text = formats.xgboost(T)
        with open(p, "w") as f:
            f.write(text)
        full = RTEnsemble(p, format=form)
        cut = RTEnsemble(p, format=form, n_trees=n)
        require(full.n_trees == m and cut.n_trees == min(m, n), "loading %d of %d trees gave %d", n, m, cut.n_trees)
        for i in range(cut.n_trees):
            require(rebuild(cut, i) == rebuild(full, i), "tree %d differs", i)
        require(same(cut.trees_weight, full.trees_weight[:n]), "weights differ")
        ds = mkds(documents(T, 3, cap=10))
        require(same(cut.score(ds, detailed=True)[1], full.score(ds, detailed=True)[1][:, :n]), "scores differ")
    finally:
        os.unlink(p)
    ctx.evaluated()
    ctx.transition()
    ctx.trace()
    ctx.state(case)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("histories", lambda: hist_cases(4 if t else 3), check_hist),
            Unit("every-n", lambda: all_n_cases(t), check_all_n),
            Unit("independent", [(m, n, c, w) for m in (1, 2, 3, 5, 40) for n in (None, 1, 2, m - 1, m, m + 1) if n != 0 for c in (False, True) for w in range(3)], check_own),
            Unit("limited-load", [(m, n, f) for m in range(1, 6) for n in range(1, 8) for f in ("QuickRank", "LightGBM", "XGBoost")], check_load),
            Unit("ladder", [(m, n) for m in (LADDER if t else SHORT_LADDER) if m <= 600 for n in sorted(set([1, m // 2, m - 1, m, m + 1])) if n >= 1]
                 + [(33000, n) for n in (32767, 32768, 32769)] + [(m, m - 1) for m in (GIANT if t else [])], check_ladder)]
