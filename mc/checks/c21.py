"""C21: caching and call histories are invisible."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C21", "model_checking"
RULE = ("every sequence of scoring operations up to the depth bound on one ensemble and its copies, over equal, nearly equal and "
        "failing datasets; the model state is (which trees, learning rate and base score each live ensemble has, what is cached "
        "and how detailed), every transition is replayed on real objects and compared with cache-free reference scores; "
        "non-trivial: the history hits a cached result or follows a failure")
ASSUMPTIONS = ["callers do not modify returned arrays, datasets or ensembles between the calls"]

TREES = [auto(((None, None), None), 0), auto((None, (None, None)), 1), auto((None, None), 2), auto(None, 3)]
W = [1.0, 0.5, -2.0, 0.25]
W2 = [2.0, 1.0, 1.0, 0.25]


class World:
    def __init__(self):
        X = documents(TREES, 3, cap=24)
        n = len(X)
        X2 = X.copy()
        X2[5, 0] += 100
        X2[7, :] -= 50
        h = n // 2
        self.ds = {
            "A": mkds(X, sizes=[h, n - h]),
            "A'": mkds(np.asfortranarray(X), sizes=[h, n - h]),           # equal to A
            "B": mkds(X2, sizes=[h, n - h]),                              # other features
            "C": mkds(X, sizes=[h - 1, n - h + 1]),                       # other query boundary
            "D": mkds(X[:n - 3], sizes=[h, n - 3 - h]),                   # prefix
            "E": mkds(X2[:, :2], sizes=[h, n - h]),                       # too few features: fails
            "F": mkds(X.astype(np.float64) + 0.125, sizes=[h, n - h]),    # unsupported type: fails or scores
        }
        self.equal = {"A'": "A"}
        self.part = {}

    def reference(self, d, m):
        """Full result of scoring dataset d with model description m = (n trees, weights id, lr, base)."""
        k = (d, m)
        if k not in self.part:
            nt, w, lr, base = m
            p = partial(TREES[:nt], (W, W2)[w][:nt], np.asarray(self.ds[d].X)) * lr
            if base:
                p[:, 0] += base
            self.part[k] = (p.sum(axis=1), p)
        return self.part[k]


_w = None


def prepare():
    global _w
    _w = World()


def run(seq, ctx):
    """One history: list of ops ('s', slot, ds, detailed, cache) | ('c', slot) | ('y', slot, n).  Returns nothing, raises."""
    w = _w
    models = [ensemble(TREES, W, 0.5, 0.25), None]
    desc = [(4, 0, 0.5, 0.25), None]
    other = ensemble(TREES[:3], W2[:3], 1, None)
    cached = [{}, {}]
    failed = False
    returned = []
    for i, op in enumerate(seq):
        what = "step %d %r of %r" % (i, op, seq)
        ctx.transition()
        if op[0] == "s":
            _, slot, d, detailed, cache = op
            if models[slot] is None:
                return
            try:
                r = models[slot].score(w.ds[d], detailed=bool(detailed), cache=bool(cache))
            except Exception as e:
                require(d in ("E", "F"), "%s failed: %s: %s", what, type(e).__name__, e)
                failed = True
            else:
                require(d != "E", "%s returned a result for an incompatible dataset", what)
                y, p = w.reference(d, desc[slot])
                if detailed:
                    require(isinstance(r, tuple) and len(r) == 3, "%s returned %r", what, type(r))
                    require(r[0] is not None and same(r[0], y), "%s: wrong scores", what)
                    require(r[1] is not None and same(r[1], p), "%s: wrong partial scores", what)
                    m = models[slot]
                    require(r[2] is not None and r[2].shape == p.shape and bool(np.all(m.trees_left_child[r[2]] == -1)), "%s: wrong leaves", what)
                    raw = m.trees_nodes_value[r[2]].astype(float) * m.trees_weight.astype(float) * desc[slot][2]
                    if desc[slot][3]:
                        raw[:, 0] += desc[slot][3]
                    require(same(raw, p), "%s: leaves of other documents", what)
                    returned += [(r[0], y, what), (r[1], p, what)]
                else:
                    require(isinstance(r, np.ndarray) and same(r, y), "%s: wrong scores", what)
                    returned.append((r, y, what))
                key = w.equal.get(d, d)
                if key in cached[slot] or failed:
                    ctx.nontrivial(tuple(seq[:i + 1]))
                if cache:
                    cached[slot][key] = max(detailed, cached[slot].get(key, 0))
        elif op[0] == "c":
            if models[op[1]] is None:
                return
            models[op[1]].clear_cache()
            cached[op[1]] = {}
        else:
            _, slot, n = op
            if models[slot] is None:
                return
            models[1 - slot] = models[slot].copy(n) if n else models[slot].copy()
            nt = min(n or 9, desc[slot][0])
            cached[1 - slot] = dict(cached[slot]) if nt == desc[slot][0] else {}
            desc[1 - slot] = (nt,) + desc[slot][1:]
        ctx.state((tuple(desc), tuple(tuple(sorted(c.items())) for c in cached), failed))
    for r, y, what in returned:
        require(same(r, y), "the result of %s was changed by a later call", what)
    ctx.evaluated()
    ctx.trace()


def check_hist(case, ctx):
    first, ops, depth = case
    for rest in itertools.product(ops, repeat=depth - 1):
        run(first + rest, ctx)


def ops(datasets, copies, slots=(0, 1)):
    o = [("s", s, d, det, c) for s in slots for d in datasets for det in (0, 1) for c in (0, 1)]
    o += [("c", s) for s in slots]
    o += [("y", 0, n) for n in copies]
    if copies and len(slots) > 1:
        o += [("y", 1, n) for n in copies[:2]]
    return tuple(o)


def histories(depth, o):
    for a in o:
        for b in o:
            yield (a, b), o, depth - 1


def check_params(case, ctx):
    """Every learning rate / base score / pruning with all pairs of modes, twice."""
    lr, base, n = case
    w = _w
    m = ensemble(TREES, W, lr, base).copy(n)
    d = (n, 0, lr, base)
    for seq in itertools.product(itertools.product((0, 1), (0, 1)), repeat=3):
        m.clear_cache()
        for det, cache in seq:
            for ds in ("A", "A'"):
                r = m.score(w.ds[ds], detailed=bool(det), cache=bool(cache))
                y, p = w.reference(ds, d)
                require(same(r[0] if det else r, y), "lr %r base %r history %r: wrong scores", lr, base, seq)
                require(not det or same(r[1], p), "lr %r base %r history %r: wrong partial scores", lr, base, seq)
                ctx.transition()
        ctx.evaluated()
        ctx.trace()
        ctx.state((case, seq))
    ctx.nontrivial(case)


def check_many(n, ctx):
    """n cached datasets, then every one of them again."""
    m = ensemble(TREES, W, 0.5, 0.25)
    base = documents(TREES, 3, cap=8)
    dss = []
    for i in range(n):
        X = base.copy()
        X[i % 8, i % 3] += 64 * (i + 1)
        dss.append(mkds(X, sizes=[3, 5]))
    exp = [partial(TREES, W, d.X) * 0.5 for d in dss]
    for e in exp:
        e[:, 0] += 0.25
    for rnd in range(2):
        for det in (0, 1):
            for d, e in zip(dss, exp):
                r = m.score(d, detailed=bool(det), cache=True)
                require(same(r[0] if det else r, e.sum(axis=1)) and (not det or same(r[1], e)), "dataset of %d: wrong scores", n)
                ctx.transition()
    ctx.evaluated()
    ctx.trace()
    ctx.state(("many", n))
    ctx.nontrivial(("many", n))


def units(tier):
    t = tier == "thorough"
    full = ops(["A", "A'", "B", "C", "E"], [None, 2])
    deep = ops(["A", "B", "F"], [1], slots=(0,))
    return [Unit("histories", lambda: histories(3, full), check_hist, prepare=prepare),
            Unit("histories-deep", lambda: histories(5 if t else 4, deep), check_hist, prepare=prepare),
            Unit("histories-sizes", lambda: histories(4 if t else 3, ops(["A", "D", "F"], [None, 3])), check_hist, prepare=prepare),
            Unit("parameters", [(lr, b, n) for lr in (1, 0.5, 2, 0.0, -1.0) for b in (None, 0, 0.5, -1.0) for n in (1, 2, 3, 4)], check_params, prepare=prepare),
            Unit("many-datasets", list(range(1, 20)) + [33, 65, 129, 257], check_many)]
