"""C15: size statistics."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C15", "exploration"
RULE = ("every ensemble of up to three tree shapes within the leaf bound in both node numberings, every prefix copy of each, and "
        "ladders over the number of trees and over tree depth; non-trivial: the trees differ in size")
ASSUMPTIONS = ["the nodes of a tree are stored contiguously, root first, as all loaders do"]


def verify(ens, T, what, ctx):
    require(ens.n_trees == len(T), "%s: n_trees", what)
    L = [count_leaves(t) for t in T]
    N = [2 * l - 1 for l in L]
    require(ens.n_nodes == sum(N), "%s: n_nodes %r", what, ens.n_nodes)
    require(same(ens.num_nodes(), N), "%s: num_nodes %r, expected %r", what, ens.num_nodes(), N)
    require(same(ens.num_leaves(), L), "%s: num_leaves %r, expected %r", what, ens.num_leaves(), L)
    require(ens.max_leaves() == max(L), "%s: max_leaves %r", what, ens.max_leaves())
    h = [height(t) for t in T]
    if max(h) < 400:
        require(same(ens.height_trees(), h), "%s: heights %r, expected %r", what, ens.height_trees(), h)
    k = 0
    step = 1 if sum(N) < 3000 else 7
    for i in range(0, sum(N), step):
        leaf = ens.trees_nodes_feature[i] == -1
        require(bool(ens.is_leaf_node(i)) == bool(leaf), "%s: is_leaf_node(%d)", what, i)
        k += bool(leaf)
    require(step > 1 or k == sum(L), "%s: %d leaf nodes", what, k)
    ctx.evaluated()


def check(case, ctx):
    shps, order = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    ens = ensemble(T, order=order)
    verify(ens, T, "ensemble", ctx)
    for n in range(1, len(T)):
        verify(ens.copy(n), T[:n], "copy(%d)" % n, ctx)
    verify(ens, T, "ensemble after copying", ctx)
    if len(set(map(n_leaves, shps))) > 1 or len(T) == 1:
        ctx.nontrivial(case)


def cases(t):
    for s in all_shapes(8 if t else 7):
        for o in ("pre", "bfs"):
            yield (s,), o
    for m, mx in ((2, 6 if t else 5), (3, 4)) + (((4, 3),) if t else ()):
        for c in itertools.product(all_shapes(mx), repeat=m):
            yield c, "pre" if (n_leaves(c[0]) + m) % 2 else "bfs"


def ladder(case, ctx):
    kind, n = case
    if kind == "trees":
        s = all_shapes(4)
        T = [auto(s[(i * 5 + 1) % len(s)], i, scale=0.25) for i in range(n)]
    elif kind == "chain":
        T = [chain(n, True), chain(max(1, n - 1), False), auto(None, 0)]
    elif kind == "complete":
        T = [complete(n), complete(2), auto(None, 0)]
    else:
        T = [auto(None, 0)] * n
    ens = ensemble(T, order="bfs" if n % 2 else "pre")
    verify(ens, T, "%s %d" % case, ctx)
    if n > 1:
        verify(ens.copy(n // 2 or 1) if kind in ("trees", "single") else ens.copy(1), T[:n // 2 or 1] if kind in ("trees", "single") else T[:1], "copy", ctx)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("shapes", lambda: cases(t), check),
            Unit("ladder", [(k, n) for k in ("trees", "chain", "single") for n in (LADDER if t else SHORT_LADDER) if n <= 1100]
                 + [("complete", n) for n in list(range(1, 13)) + [15, 16]] + [(k, n) for k in ("trees", "single") for n in (GIANT if t else [33000, 65537])], ladder)]
