"""C11: LightGBM and Jforests loading."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import formats
from .c10 import verify, labelled, rotate, load_text, WEIGHTS, VALS

PROPERTY, LEVEL = "C11", "exploration"
RULE = ("every tree shape up to the leaf bound x every numbering of its splits and leaves, all pairs and triples of shapes "
        "(one-leaf trees included for LightGBM), value alphabets, format variants; every decision type at every node; "
        "every file is written independently and the loaded ensemble compared node by node and by scores; "
        "thresholds and outputs on a lattice of mantissas for every exponent of single precision; non-trivial: the ensemble has a split")
ASSUMPTIONS = ["numerical features without missing values (the proxies document others as unsupported)", "at most 32767 features"]


def scores(ens, T, W, ctx):
    nf = 1 + max([0] + [n["t"][0] for t in T for n in flatten(t) if n["t"][0] != "L"])
    if nf > 6:
        return
    X = documents(T, nf, cap=60)
    y = ens.score(mkds(X))
    e = partial(T, W, X).sum(axis=1)
    require(np.allclose(y, e, rtol=1e-5, atol=1e-6), "scores %r, expected %r", y[:4], e[:4])


def perms_of(t, full):
    n = count_leaves(t)
    sp = [(0,) + tuple(1 + i for i in p) for p in itertools.permutations(range(n - 2))] if n >= 2 else [()]
    lp = list(itertools.permutations(range(n)))
    if not full:
        sp, lp = [sp[0], sp[-1]], [lp[0], lp[-1]]
    return itertools.product(sp, lp)


def check_num(case, ctx):
    form, shape, k = case
    t = labelled(shape, k) if k < 100 else auto(shape, k - 100)
    for p in perms_of(t, n_leaves(shape) <= 4):
        if form == "LightGBM":
            text, W = formats.lightgbm([t], [p]), [1.0]
        else:
            W = rotate(WEIGHTS, k, 1)
            text = formats.jforests([t], W, [p], quantised=k % 3)
        ens = load_text(text, form)
        verify(ens, [t], W, "%s numbering %r" % (form, p))
        if k >= 100:
            scores(ens, [t], W, ctx)
        ctx.evaluated()
        if shape is not None:
            ctx.nontrivial((case, p))


def num_cases(t):
    for form in ("LightGBM", "Jforests"):
        for s in all_shapes(7 if t else 6):
            if s is None and form == "Jforests":
                continue
            for k in list(range(6 if n_leaves(s) < 6 else 2)) + [100]:
                yield form, s, k


def check_multi(case, ctx):
    form, shps, k = case
    T = [labelled(s, k + 5 * i) for i, s in enumerate(shps)] if k < 100 else [auto(s, i) for i, s in enumerate(shps)]
    P = [list(perms_of(t, False)) for t in T]
    for j in range(2):
        ps = [p[(j * (i + 1)) % len(p)] for i, p in enumerate(P)]
        if form == "LightGBM":
            W = [1.0] * len(T)
            for old, sh, recent in ((False, 0.1, False), (True, 1, False), (False, 1, False), (False, 0.5, True)):
                ens = load_text(formats.lightgbm(T, ps, old=old, shrinkage=sh, recent=recent), form)
                verify(ens, T, W, "LightGBM (shrinkage %r)" % sh)
                ctx.evaluated()
            for recent in (False, True):
                verify(load_text(formats.lightgbm(T, ps, shrinkage=1, recent=recent, average=True), form),
                       T, [np.float32(1) / np.float32(len(T))] * len(T), "LightGBM random forest")
                ctx.evaluated()
        else:
            W = rotate(WEIGHTS, k, len(T))
            for quantised in range(3):
                ens = load_text(formats.jforests(T, W, ps, quantised=quantised, indent="\t" * j), form)
                verify(ens, T, W, "Jforests (bins: %d)" % quantised)
                ctx.evaluated()
        if k >= 100:
            scores(ens, T, W, ctx)
    for n in range(1, len(T) + 1):
        txt = formats.lightgbm(T, ps) if form == "LightGBM" else formats.jforests(T, W, ps)
        verify(load_text(txt, form, n_trees=n), T[:n], W[:n], "%d of the trees" % n)
    if any(s is not None for s in shps):
        ctx.nontrivial(case)


def multi_cases(t):
    for form in ("LightGBM", "Jforests"):
        for m in (2, 3) + ((4,) if t else ()):
            for c in itertools.product(all_shapes(4 if m == 2 else 3), repeat=m):
                if form == "Jforests" and None in c:
                    continue
                for k in (0, 3, 100) if m < 4 else (100,):
                    yield form, c, k


def check_unsupported(case, ctx):
    """Categorical splits and missing values are documented as unsupported: such files must not load silently wrong."""
    kind, shps, ti, pos, v = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    if kind == "decision":
        text = formats.lightgbm(T, decision=lambda i, n: [v if (i, j) == (ti, pos) else 2 for j in range(n)])
        bad = v & 1 or v & 12
    elif kind == "default":
        text = formats.lightgbm(T, old=True, default=lambda i, n: [v if (i, j) == (ti, pos) else 0 for j in range(n)])
        bad = v != 0
    else:
        text = formats.lightgbm(T, old=True, categorical=v)
        bad = v
    try:
        ens = load_text(text, "LightGBM")
    except Exception:
        require(bad or (kind == "decision" and v != 2), "%s %r in tree %d node %d rejected", kind, v, ti, pos)
        ctx.evaluated()
        ctx.nontrivial(case)
        return
    require(not bad, "unsupported %s %r in tree %d node %d loaded silently", kind, v, ti, pos)
    verify(ens, T, [1.0] * len(T), "LightGBM")
    ctx.evaluated()


def uns_cases():
    for c in itertools.product(all_shapes(3)[1:], repeat=2):
        for ti in range(2):
            for pos in range(n_leaves(c[ti]) - 1):
                for v in range(16):
                    yield "decision", c, ti, pos, v
                for v in (0, 1.5, -1e-9):
                    yield "default", c, ti, pos, v
        yield "categorical", c, 0, 0, 0
        yield "categorical", c, 0, 0, 1


def check_ladder(case, ctx):
    form, kind, n = case
    if kind == "trees":
        s = [x for x in all_shapes(4) if x is not None]
        T = [labelled(s[(i * 5 + 1) % len(s)], i) for i in range(n)]
    elif kind == "complete":
        T = [complete(n), complete(1), complete(2)]
    else:
        T = [chain(n, kind == "left")]
    if form == "LightGBM":
        ens, W = load_text(formats.lightgbm(T), form), [1.0] * len(T)
    else:
        W = rotate(WEIGHTS, n, len(T))
        ens = load_text(formats.jforests(T, W), form)
    verify(ens, T, W, "%s %s %d" % case)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_bits(case, ctx):
    form, e, t = case
    T = stumps(e, t)
    W = [1.0] * len(T) if form == "LightGBM" or e >= 200 else [T[-1 - i][2][1] for i in range(len(T))]
    for fmt in (formats.num, lambda v: "%.9g" % v):
        text = formats.lightgbm(T, fmt=fmt) if form == "LightGBM" else formats.jforests(T, W, fmt=fmt)
        verify(load_text(text, form), T, W, "%s load of values with exponent %d" % (form, e))
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    lad = LADDER if t else SHORT_LADDER
    return [Unit("numberings", lambda: num_cases(t), check_num),
            Unit("ensembles", lambda: multi_cases(t), check_multi),
            Unit("unsupported", lambda: uns_cases(), check_unsupported),
            Unit("exponents", [(f, e, t) for f in ("LightGBM", "Jforests") for e in range(255)], check_bits),
            Unit("ladder", [(f, k, n) for f in ("LightGBM", "Jforests") for k in ("trees", "left", "right") for n in lad
                            if n <= (1100 if k == "trees" else 300)]
                 + [(f, "complete", n) for f in ("LightGBM", "Jforests") for n in list(range(1, 13)) + [15, 16]]
                 + [(f, "trees", n) for f in ("LightGBM", "Jforests") for n in (GIANT if t else [33000])], check_ladder)]
