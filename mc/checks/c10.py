"""C10: QuickRank load, save, round trip."""
import itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import formats

PROPERTY, LEVEL = "C10", "model_checking"
RULE = ("every tree shape up to the leaf bound x labelings over alphabets of features, thresholds, outputs and weights, written "
        "independently as QuickRank XML in several layouts, loaded and compared node by node; every sequence of "
        "load / copy / prune / save operations up to the depth bound, replayed on real files and compared with the tree model; "
        "thresholds and outputs on a lattice of mantissas for every exponent of single precision; non-trivial: the ensemble has a split")
ASSUMPTIONS = ["trees are not deeper than 300 levels", "at most 32767 features"]

VALS = [0.5, -1.0, 0.0, 0.1, -1e-7, 3.0e38, 1.1754944e-38, 16777217.0, 123456.789, -0.0, 1e-45, 33554432.0]
FEATS = [0, 1, 2, 45, 135, 300, 32766]
WEIGHTS = [1.0, 0.1, -0.5, 0.0, 1e-10, 3.0]


def norm(t):
    return ("L", float(F32(t[1]))) if t[0] == "L" else (t[0], float(F32(t[1])), norm(t[2]), norm(t[3]))


def verify(ens, trees, weights, what, lr=1, base=None):
    require(ens.n_trees == len(trees), "%s: %r trees, expected %d", what, ens.n_trees, len(trees))
    n = sum(2 * count_leaves(t) - 1 for t in trees)
    require(ens.n_nodes == n and all(len(a) == n for a in (ens.trees_left_child, ens.trees_right_child, ens.trees_nodes_value,
            ens.trees_nodes_feature)), "%s: %r nodes, expected %d", what, ens.n_nodes, n)
    require(same(ens.trees_weight, np.array(weights, dtype=F32)), "%s: weights %r, expected %r", what, ens.trees_weight, weights)
    for i, t in enumerate(trees):
        require(rebuild(ens, i) == norm(t), "%s: tree %d is %r, expected %r", what, i, rebuild(ens, i), norm(t))
    leaf = ens.trees_left_child == -1
    require(np.array_equal(leaf, ens.trees_right_child == -1) and np.array_equal(leaf, ens.trees_nodes_feature == -1),
            "%s: leaves are not marked as such", what)
    require(ens.learning_rate == lr and (ens.base_score or None) == base, "%s: learning rate or base score", what)


def load_text(text, fmt="QuickRank", **kw):
    from rankeval.model import RTEnsemble
    p = scratch(".model")
    try:
        with open(p, "wb" if isinstance(text, bytes) else "w") as f:
            f.write(text)
        return RTEnsemble(p, format=fmt, **kw)
    finally:
        os.unlink(p)


def read_saved(path):
    """What a saved file says, by the rules of the format and not by the loader under test."""
    import xml.etree.ElementTree as E
    root = E.parse(path).getroot()
    require(root.tag == "ranker", "the saved file's root is %r", root.tag)
    info = {e.tag: (e.text or "").strip() for e in root.findall("info/*")}
    require(len(root.findall("ensemble")) == 1, "the saved file has %d ensembles", len(root.findall("ensemble")))

    def node(e):
        tags = sorted(c.tag for c in e)
        if tags == ["output"]:
            return ("L", float(F32(e.find("output").text)))
        require(tags == ["feature", "split", "split", "threshold"], "a saved node has the elements %r", tags)
        kids = {c.get("pos"): c for c in e.findall("split")}
        require(set(kids) == {"left", "right"}, "the children of a saved node are %r", sorted(map(str, kids)))
        return (int(e.find("feature").text) - 1, float(F32(e.find("threshold").text)), node(kids["left"]), node(kids["right"]))
    trees = []
    for t in root.findall("ensemble/tree"):
        require([c.tag for c in t] == ["split"], "a saved tree has the elements %r", [c.tag for c in t])
        trees.append((int(t.get("id")), float(t.get("weight")), node(t.find("split"))))
    return info, trees


def verify_saved(path, ens):
    info, trees = read_saved(path)
    n = int(ens.n_trees)
    mine = [rebuild(ens, i) for i in range(n)]
    for name, want in (("trees", n), ("leaves", max(count_leaves(t) for t in mine)), ("shrinkage", float(ens.learning_rate))):
        require(name in info and float(info[name]) == want, "the saved file's header says %s is %r, not %r", name, info.get(name), want)
    require([t[0] for t in trees] == list(range(1, n + 1)), "the saved trees have the ids %r", [t[0] for t in trees])
    for i, (_, w, t) in enumerate(trees):
        require(same(F32(w), F32(ens.trees_weight[i] * ens.learning_rate)), "tree %d is saved with weight %r", i, w)
        require(t == mine[i], "tree %d is saved as %r, but it is %r", i, t, mine[i])


def roundtrip(ens):
    from rankeval.model import RTEnsemble
    p = scratch(".xml")
    try:
        with open(p, "w") as f:
            f.write("<ranker>an older and much longer file that must disappear</ranker>" * 50)
        require(ens.save(p) is True, "save did not report success")
        verify_saved(p, ens)
        return RTEnsemble(p, format="QuickRank")
    finally:
        os.unlink(p)


def rotate(alpha, k, n):
    return [alpha[(k * 3 + i * (1 + k % 5)) % len(alpha)] for i in range(n)]


def labelled(shape, k):
    n = n_leaves(shape)
    return label(shape, list(zip(rotate(FEATS, k, n - 1), rotate(VALS, k + 1, n - 1))), rotate(VALS, k + 4, n))


def check_load(case, ctx):
    shps, k = case
    T = [labelled(s, k + 5 * i) for i, s in enumerate(shps)]
    W = rotate(WEIGHTS, k, len(T))
    for info, ws, fmt in ((True, "\n", formats.num), (False, "", formats.num), (True, "\n\t  ", lambda v: "%.9g" % v)):
        ens = load_text(formats.quickrank(T, W, info, ws, fmt))
        verify(ens, T, W, "load")
        ctx.evaluated()
    for j, ids in enumerate(formats.IDS):
        ens = load_text(formats.quickrank(T, W, j % 3 != 1, ids=ids, mirrored=j % 2 == 1, comments=j >= 3))
        verify(ens, T, W, "load of a file with tree ids %r" % ([ids(i, len(T)) for i in range(len(T))],))
        ctx.evaluated()
    for nm in (1, 2, 3):
        if nm <= len(T):
            verify(load_text(formats.quickrank(T, W), n_trees=nm), T[:nm], W[:nm], "load of %d trees" % nm)
    verify(roundtrip(ens), T, W, "round trip")
    verify(ens, T, W, "the saved ensemble")
    ctx.trace()
    ctx.transition(3)
    ctx.state(case)
    if any(s is not None for s in shps):
        ctx.nontrivial(case)


def load_cases(t):
    for s in all_shapes(7 if t else 6):
        for k in range(24 if n_leaves(s) < 5 else 6):
            yield (s,), k
    for m in (2, 3) + ((4,) if t else ()):
        for c in itertools.product(all_shapes(4 if m == 2 else 3), repeat=m):
            for k in range(6 if m < 4 else 1):
                yield c, k


def check_hist(case, ctx):
    """Operation sequences over a family of ensembles: copy/prune and save+load of any member."""
    first, depth = case
    T = [labelled(s, i) for i, s in enumerate([((None, None), None), None, (None, (None, None))])]
    W = [0.1, -1.0, 2.5]

    def ops(k):
        for i in range(k):
            yield ("rt", i)
            yield ("over", i)
            for n in (1, 2, None):
                yield ("copy", i, n)

    def play(seq):
        p = scratch(".xml")
        try:
            from rankeval.model import RTEnsemble
            fam, size = [ensemble(T, W, order="bfs" if len(seq) % 2 else "pre")], [3]
            for op in seq:
                ctx.transition()
                if op[0] == "rt":
                    fam.append(roundtrip(fam[op[1]]))
                    size.append(size[op[1]])
                elif op[0] == "over":       # save over the same file again and again
                    fam[op[1]].save(p)
                    fam.append(RTEnsemble(p, format="QuickRank"))
                    size.append(size[op[1]])
                else:
                    fam.append(fam[op[1]].copy(op[2]))
                    size.append(min(op[2] or 9, size[op[1]]))
                for f, n in zip(fam, size):
                    verify(f, T[:n], W[:n], "%r" % (seq,))
                ctx.state(tuple(size))
        finally:
            os.unlink(p)
        ctx.evaluated()
        ctx.trace()
        ctx.nontrivial(seq)
        return len(fam)

    def go(seq):
        k = play(seq)
        if len(seq) < depth:
            for op in ops(k):
                go(seq + (op,))
    go((first,))


def check_lr(case, ctx):
    """The saved model scores like the saved ensemble, whatever its learning rate and base score."""
    lr, base, shps = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    W = [1.0, 0.5, -2.0][:len(T)]
    ens = ensemble(T, W, lr, base)
    X = documents(T, 3, cap=40)
    ds = mkds(X)
    a = ens.score(ds)
    b = roundtrip(ens).score(ds)
    key = None
    if base and same(b, ensemble(T, W, lr, None).score(ds)):
        key = "save drops the base score"
    require(same(a, b), "scores after the round trip differ with learning rate %r and base score %r: %r vs %r",
            lr, base, a[:3], b[:3], key=key)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_ladder(case, ctx):
    kind, n = case
    if kind == "trees":
        s = all_shapes(4)
        T = [labelled(s[(i * 5 + 1) % len(s)], i) for i in range(n)]
        W = rotate(WEIGHTS, n, n)
    elif kind == "complete":
        T = [complete(n), complete(1), complete(2)]
        W = [1.0, -0.5, 2.0]
    else:
        T, W = [chain(n, kind == "left")], [1.0]
    ens = load_text(formats.quickrank(T, W))
    verify(ens, T, W, "load of %s %d" % case)
    verify(roundtrip(ens), T, W, "round trip of %s %d" % case)
    ctx.evaluated(2)
    ctx.nontrivial(case)


def check_bits(case, ctx):
    e, t = case
    T = stumps(e, t)
    W = [T[-1 - i][2][1] if e < 200 else 1.0 for i in range(len(T))]
    for fmt in (formats.num, lambda v: "%.9g" % v):
        ens = load_text(formats.quickrank(T, W, fmt=fmt))
        verify(ens, T, W, "load of values with exponent %d" % e)
    verify(roundtrip(ens), T, W, "round trip of values with exponent %d" % e)
    ctx.evaluated(3)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    fam = [("rt", 0), ("over", 0)] + [("copy", 0, n) for n in (1, 2, None)]
    return [Unit("load", lambda: load_cases(t), check_load),
            Unit("histories", [(f, 4 if t else 3) for f in fam], check_hist),
            Unit("learning-rate", lambda: ((lr, b, c) for lr in (1, 0.5, 0.25, 2, -1) for b in (None, 0.25, -3.0)
                                           for m in (1, 2, 3) for c in itertools.product(all_shapes(3), repeat=m)), check_lr),
            Unit("exponents", [(e, t) for e in range(255)], check_bits),
            Unit("ladder", [("trees", n) for n in (LADDER if t else SHORT_LADDER) if n < 1100]
                 + [(k, n) for k in ("left", "right") for n in (LADDER if t else SHORT_LADDER) if n <= 300]
                 + [("complete", n) for n in list(range(1, 13)) + [15, 16]] + [("trees", n) for n in (GIANT if t else [33000])], check_ladder)]
