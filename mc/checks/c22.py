"""C22: the parallel kernels under a controlled OpenMP runtime (mc/omp/mcomp.cpp)."""
import ctypes, itertools
import numpy as np
from .. import native
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C22", "exploration"
TECHNIQUE = ("stateless model checking of the compiled kernels: a controlled OpenMP runtime runs every order of the synchronisation "
             "operations of every parallel region, with vector-clock race detection over every memory access")
RULE = ("every team size x every ensemble of the enumerated tree shapes x document counts, every parallel region of scoring, detailed "
        "scoring, topology and feature importance executed once per order of its synchronisation operations (up to the schedule cap "
        "per region, whose hits are counted as truncated), its writes rolled back in between; on each schedule every memory access is "
        "checked for a conflicting concurrent one, and all schedules must leave the same memory; results equal those of the reference; "
        "non-trivial: a team of at least two threads executed the case")
ASSUMPTIONS = ["data are dyadic, so that sums are exact and independent of their order", "atomic operations are sequentially consistent",
               "native code runs no threads other than OpenMP's"]
CAP = {"quick": 8000, "thorough": 60000}
KINDS = {1: "data race", 2: "schedule-dependent result", 3: "deadlock"}


def controlled(threads, cap, what, f, ctx, exact=True):
    """Runs f with that team size; judges what the runtime saw."""
    lib = native.CONTROL
    if lib is None:
        set_threads(threads)
        try:
            r = f()
        finally:
            set_threads(1)
        ctx.count("uncontrolled_runs")
        ctx.evaluated()
        return r
    buf, c = ctypes.create_string_buffer(600), (ctypes.c_ulonglong * 6)()
    lib.mc_compare(int(exact))
    lib.mc_config(threads, ctypes.c_long(cap))
    try:
        r = f()
    finally:
        kind = lib.mc_result(buf, 600, c)
        lib.mc_off()
    for n, v in zip(("regions", "schedules", "sync_operations", "memory_accesses", "truncated_regions"), c):
        ctx.count(n, int(v))
    if kind == 4:
        ctx.count("unsupported_regions")
    elif kind:
        raise Violation("%s with %d threads: %s: %s" % (what, threads, KINDS[kind], buf.value.decode()))
    ctx.evaluated(max(1, int(c[1])))
    if threads > 1 and c[0]:
        ctx.count("parallel_runs")
    return r


def set_threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)
    except (OSError, AttributeError):
        pass


def topology(trees, leaves):
    """Reference: how many nodes (leaves included or not) at each (level, index in level)."""
    cells = {(0, 0): 0}
    for t in trees:
        st = [(t, 0, 0)]
        while st:
            n, d, i = st.pop()
            if n[0] != "L":
                st += [(n[2], d + 1, 2 * i), (n[3], d + 1, 2 * i + 1)]
                cells[(d, i)] = cells.get((d, i), 0) + 1
            elif leaves:
                cells[(d, i)] = cells.get((d, i), 0) + 1
    cells[(0, 0)] = len(trees)
    return {k: v for k, v in cells.items() if v}


def check_kernels(case, ctx):
    shp, order, ndocs, teams, cap = case
    trees = [auto(s, i) for i, s in enumerate(shp)]
    W = [(1.0, 0.5, -2.0, 0.25)[i % 4] for i in range(len(trees))]
    D = documents(trees, 3, cap=64)
    X = np.ascontiguousarray(D[np.arange(ndocs) * 7 % len(D)]) if ndocs else D[:0]
    part = partial(trees, W, X)
    for T in teams:
        ens = ensemble(trees, W, 1, None, order)
        ds = mkds(X)
        y = controlled(T, cap, "scoring", lambda: ens.score(ds), ctx)
        require(same(y, part.sum(axis=1)), "scoring with %d threads: %r, expected %r", T, np.asarray(y)[:8].tolist(), part.sum(axis=1)[:8].tolist())
        ens = ensemble(trees, W, 1, None, order)
        r = controlled(T, cap, "detailed scoring", lambda: ens.score(ds, detailed=True), ctx)
        require(same(r[0], part.sum(axis=1)) and same(r[1], part), "detailed scoring with %d threads gives other scores", T)
        vals = np.array(ens.trees_nodes_value)[r[2]] if r[2].size else np.zeros(part.shape)
        require(same(vals.astype(float) * np.array(W), part), "detailed scoring with %d threads gives other leaves", T)
        from rankeval.analysis.topological import topological_analysis
        for leaves in (True, False):
            t = controlled(T, cap, "topological analysis", lambda: topological_analysis(ens, include_leaves=leaves), ctx)
            m = t.topology.tocoo()
            got = {(int(a), int(b)): float(v) for a, b, v in zip(m.row, m.col, m.data) if v}
            require(got == topology(trees, leaves), "topology with %d threads: %r, expected %r", T, got, topology(trees, leaves))
        if T > 1:
            ctx.nontrivial((shp, order, ndocs, T))


def populations(tree, X):
    """The documents of every node (index arrays)."""
    st = [(tree, np.arange(len(X)))]
    while st:
        t, idx = st.pop()
        yield len(idx)
        if t[0] != "L":
            left = X[idx, t[0]] <= F32(t[1])
            st += [(t[2], idx[left]), (t[3], idx[~left])]


def check_importance(case, ctx):
    shp, rows, teams, cap, exact = case
    from rankeval.analysis.feature import feature_importance
    trees = [auto(s, i) for i, s in enumerate(shp)]
    D = documents(trees, 3, cap=64)
    X = np.ascontiguousarray(D[list(rows)])
    y = [(i * 3 % 5) for i in range(len(rows))]
    ds, base = mkds(X, y), None
    for T in teams:
        ens = ensemble(trees)
        r = controlled(T, cap, "feature importance", lambda: feature_importance(ens, ds, normalize=False), ctx, exact)
        v = np.array(r.values, dtype=np.float64)
        if base is None:
            base = v
        ok = same(v, base) if exact else v.shape == base.shape and np.allclose(v[0], base[0], rtol=0, atol=1e-3) and same(v[1], base[1])
        require(ok, "feature importance with %d threads: %r, with %d: %r", T, v.tolist(), teams[0], base.tolist())
        if T > 1:
            ctx.nontrivial((shp, rows, T))


def importance_cases(tier):
    t = tier == "thorough"
    for k, maxl in ((1, 5 if t else 4), (2, 4 if t else 3)) + (((3, 3),) if t else ()):
        shp = [s for s in all_shapes(maxl) if s is not None or k > 1]
        for combo in itertools.product(shp, repeat=k):
            trees = [auto(s, i) for i, s in enumerate(combo)]
            D = documents(trees, 3, cap=64)
            seen = set()
            for n in (1, 2, 3, 4, 5, 7, 8, 16):
                for a in range(0, len(D), 3):
                    rows = tuple((a + j * (5 if n < 8 else 3)) % len(D) for j in range(n))
                    X = D[list(rows)]
                    pops = tuple(p for tr in trees for p in populations(tr, X))
                    if pops in seen:
                        continue
                    seen.add(pops)
                    # when every mean is over a power of two of documents, all sums stay exact
                    exact = all(p & (p - 1) == 0 for p in pops)
                    teams = [1, 2, 3] + ([4] if n >= 4 and exact else []) + ([5] if t or (n == 4 and k == 1 and exact) else [])
                    yield combo, rows, teams, CAP[tier] if exact else CAP[tier] // 10, exact


def kernel_cases(tier):
    t = tier == "thorough"
    shp = all_shapes(3)
    cap = CAP[tier]
    for k in (1, 2, 3):
        for combo in itertools.product(shp, repeat=k):
            for n in ((0, 1, 2, 3, 5) if k < 3 else (4,)):
                yield combo, "pre", n, [1, 2, 3, 4], cap
    for combo in itertools.product(all_shapes(5 if t else 4), repeat=1):
        for order in ("pre", "bfs"):
            yield combo, order, 6, [1, 2, 3, 5, 8], cap
    big = [s for s in all_shapes(4)]
    for nt in range(1, 18 if not t else 40):
        for nd in (1, 7, 16, 33):
            yield tuple(big[i % len(big)] for i in range(nt)), "pre", nd, [1, 2, 3, 4, 7, 8, 16], 50


def units(tier):
    return [Unit("kernels", lambda: kernel_cases(tier), check_kernels),
            Unit("importance", lambda: importance_cases(tier), check_importance)]
