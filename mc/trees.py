"""Trees and ensembles: enumeration, reference semantics, and construction of RTEnsemble objects.

A tree is nested tuples: ("L", value) or (feature, threshold, left, right); value <= threshold goes left.
"""
import itertools, os
import numpy as np
from .lib import scratch

F32 = np.float32


def shapes(leaves):
    """All binary tree shapes with that many leaves: None is a leaf, (l, r) a split."""
    if leaves == 1:
        yield None
        return
    for k in range(1, leaves):
        for l in shapes(k):
            for r in shapes(leaves - k):
                yield (l, r)


def all_shapes(max_leaves):
    return [s for n in range(1, max_leaves + 1) for s in shapes(n)]


def n_leaves(s):
    return 1 if s is None else n_leaves(s[0]) + n_leaves(s[1])


def label(shape, splits, outs):
    """Labels a shape: splits (feature, threshold) consumed in preorder, outs in leaf order."""
    splits, outs = iter(splits), iter(outs)

    def go(s):
        if s is None:
            return ("L", next(outs))
        f, t = next(splits)
        return (f, t, go(s[0]), go(s[1]))
    return go(shape)


def auto(shape, t=0, feats=(0, 1, 2), thrs=(0.5, -1.0, 2.0), scale=None):
    """A labelled tree whose leaf outputs are exact, distinct and identify (tree, leaf) in sums."""
    k = n_leaves(shape)
    scale = scale if scale is not None else 8.0 ** (t % 6) / 64
    return label(shape, [(feats[(i * 2 + t) % len(feats)], thrs[(i + t) % len(thrs)]) for i in range(k - 1)],
                 [(j + 1) * scale for j in range(k)])


def stumps(e, t=False, n=96, nf=3):
    """One-split trees whose thresholds and outputs are a lattice of the values with binary exponent e (both signs)."""
    from .lib import floats, mantissas
    m = mantissas(t)
    pick = [m[(i * 131) % len(m)] for i in range(3 * n)] + m[:24] + m[64:88]
    v = [float(x) for x in floats([e], pick).ravel()]
    v = [-x if i % 2 else x for i, x in enumerate(v)]
    return [(i % nf, v[3 * i], ("L", v[3 * i + 1]), ("L", v[3 * i + 2])) for i in range(len(v) // 3)]


def chain(depth, left=True, feat=0, step=1.0):
    """A degenerate tree with `depth` splits, built bottom-up (deep ones must not be walked recursively)."""
    node = ("L", float(depth))
    for i in reversed(range(depth)):
        other = ("L", float(i) + 0.5)
        thr = (-(i + 1) if left else (i + 1)) * step
        node = (feat, thr, node, other) if left else (feat, thr, other, node)
    return node


def complete(depth, i=1):
    """A complete tree of the given height; thresholds and outputs tell its nodes apart."""
    if depth == 0:
        return ("L", float(i) / 4)
    return (i % 3, float(i) / 2 if i % 2 else -float(i) / 2, complete(depth - 1, 2 * i), complete(depth - 1, 2 * i + 1))


def flatten(tree, order="pre"):
    """Nodes as a list of dicts in the given numbering (pre = depth first, bfs = by level); root first."""
    nodes = []
    if order == "pre":
        stack = [(tree, None, None)]
        while stack:
            t, parent, side = stack.pop()
            i = len(nodes)
            nodes.append({"t": t, "l": -1, "r": -1})
            if parent is not None:
                nodes[parent][side] = i
            if t[0] != "L":
                stack.append((t[3], i, "r"))
                stack.append((t[2], i, "l"))
    else:
        queue = [(tree, None, None)]
        for t, parent, side in queue:
            i = len(nodes)
            nodes.append({"t": t, "l": -1, "r": -1})
            if parent is not None:
                nodes[parent][side] = i
            if t[0] != "L":
                queue.append((t[2], i, "l"))
                queue.append((t[3], i, "r"))
    return nodes


STUB = """<ranker>
  <info><type>LAMBDAMART</type><trees>1</trees><leaves>2</leaves><shrinkage>1</shrinkage></info>
  <ensemble>
    <tree id="1" weight="1">
      <split><feature>1</feature><threshold>0.5</threshold>
        <split pos="left"><output>1</output></split>
        <split pos="right"><output>2</output></split>
      </split>
    </tree>
  </ensemble>
</ranker>
"""
_base = None


def ensemble(trees, weights=None, lr=1, base=None, order="pre", name="m"):
    """An RTEnsemble holding exactly these trees (through its documented arrays)."""
    global _base
    from rankeval.model import RTEnsemble
    if _base is None:
        p = scratch(".xml")
        with open(p, "w") as f:
            f.write(STUB)
        _base = RTEnsemble(p, name="stub", format="QuickRank")
        os.unlink(p)
    ens = _base.copy()
    ens.name, ens.learning_rate, ens.base_score = name, lr, base
    flat = [flatten(t, order) for t in trees]
    ens.initialize(len(trees), sum(map(len, flat)))
    for k, d in (("trees_nodes_feature", np.int16), ("trees_left_child", np.int32), ("trees_right_child", np.int32)):
        setattr(ens, k, getattr(ens, k).astype(d))          # the loaders work on wider integers
    o = 0
    for i, nodes in enumerate(flat):
        ens.trees_root[i] = o
        ens.trees_weight[i] = 1.0 if weights is None else weights[i]
        for j, n in enumerate(nodes):
            if n["t"][0] == "L":
                ens.trees_nodes_value[o + j] = n["t"][1]
            else:
                ens.trees_nodes_feature[o + j], ens.trees_nodes_value[o + j] = n["t"][0], n["t"][1]
                ens.trees_left_child[o + j], ens.trees_right_child[o + j] = o + n["l"], o + n["r"]
        o += len(nodes)
    return ens


def leaf_of(tree, x):
    """The leaf a document reaches (single precision comparison)."""
    while tree[0] != "L":
        tree = tree[2] if F32(x[tree[0]]) <= F32(tree[1]) else tree[3]
    return tree[1]


def partial(trees, weights, X):
    """Reference per-tree contributions, float64."""
    w = weights if weights is not None else [1.0] * len(trees)
    return np.array([[float(F32(leaf_of(t, x))) * float(F32(wi)) for t, wi in zip(trees, w)] for x in X],
                    dtype=np.float64).reshape(len(X), len(trees))


def thresholds(tree, acc=None):
    """{feature: set of thresholds}"""
    acc = {} if acc is None else acc
    stack = [tree]
    while stack:
        t = stack.pop()
        if t[0] != "L":
            acc.setdefault(t[0], set()).add(float(F32(t[1])))
            stack += [t[2], t[3]]
    return acc


def documents(trees, nf, extra=(), cap=400):
    """Documents at, just below and just above every threshold of every feature (all combinations, up to the cap)."""
    acc = {}
    for t in trees:
        thresholds(t, acc)
    vals = []
    for f in range(nf):
        s = set([0.0]) if f not in acc else set()
        for t in acc.get(f, ()):
            s |= {t, float(np.nextafter(F32(t), F32(-np.inf))), float(np.nextafter(F32(t), F32(np.inf)))}
        if f in acc:
            s |= set(extra)
        vals.append(sorted(s, key=lambda v: (v != v, v)))
    total = 1
    for v in vals:
        total *= len(v)
    if total <= cap:
        rows = list(itertools.product(*vals))
    else:        # a covering set: every value of every feature, against rotations of the others
        rows, m = [], max(map(len, vals))
        for r in range(cap):
            rows.append(tuple(v[(r * (2 * i + 1) + r // (m + i)) % len(v)] for i, v in enumerate(vals)))
    return np.array(rows, dtype=F32).reshape(len(rows), nf)


def mkds(X, y=None, sizes=None):
    from rankeval.dataset import Dataset
    n = len(X)
    y = np.zeros(n, dtype=F32) if y is None else np.asarray(y, dtype=F32)
    if sizes is None:
        q = np.ones(n, dtype=np.int32)
    else:
        q = np.repeat(np.arange(1, len(sizes) + 1), sizes).astype(np.int32)
    return Dataset(X, y, q)


def height(tree):
    best, stack = 0, [(tree, 0)]
    while stack:
        t, d = stack.pop()
        best = max(best, d)
        if t[0] != "L":
            stack += [(t[2], d + 1), (t[3], d + 1)]
    return best


def count_leaves(tree):
    n, stack = 0, [tree]
    while stack:
        t = stack.pop()
        if t[0] == "L":
            n += 1
        else:
            stack += [t[2], t[3]]
    return n


def rebuild(ens, i):
    """The i-th tree of a loaded RTEnsemble as nested tuples (small trees)."""
    def go(n):
        l, r = int(ens.trees_left_child[n]), int(ens.trees_right_child[n])
        if l == -1 and r == -1:
            return ("L", float(ens.trees_nodes_value[n]))
        return (int(ens.trees_nodes_feature[n]), float(ens.trees_nodes_value[n]), go(l), go(r))
    return go(int(ens.trees_root[i]))
