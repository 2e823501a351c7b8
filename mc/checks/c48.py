"""C48: plots."""
import itertools, warnings
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C48", "exploration"
RULE = ("every table shape (numbers of datasets, models, metrics, steps, classes, labels, bins) up to the bound filled with pairwise different values, "
        "with every placement of one undefined value in the small ones, every value vector over an alphabet for bars, confusion matrices and feature "
        "importances, every option, results of the real analyses, every small tree shape; the artists of the figures are read back and compared with "
        "the table; two plots in a row; non-trivial: more than one value is drawn")
ASSUMPTIONS = ["colours, sizes, titles and the position of legends are presentation and not compared, except that the colour of a cell of the confusion "
               "matrix must grow with its count"]

_ready = []


def setup():
    if not _ready:
        import matplotlib
        matplotlib.use("Agg")
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        _ready.append(1)
    from matplotlib import pyplot as plt
    import rankeval.visualization.effectiveness as E
    plt.close("all")
    return plt, E


class Named:
    """Datasets, models and metrics as far as plots see them."""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


def objects(prefix, n):
    a = np.empty(n, dtype=object)
    a[:] = [Named("%s%d" % (prefix, i)) for i in range(n)]
    return a


def table(name, dims, sizes, coords=None, values=None):
    import xarray as xr
    n = int(np.prod(sizes))
    if values is None:
        values = [((i * 37 + 11) % 101 + 1 + i) / 128.0 for i in range(n)]        # pairwise different
        assert len(set(values)) == n or n > 60
    return xr.DataArray(np.array(values, dtype=float).reshape(sizes), name=name, dims=dims,
                        coords=[(coords or {}).get(d, objects(d, s)) for d, s in zip(dims, sizes)])


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)


def label_texts(ax):
    return [t.get_text() for t in ax.get_xticklabels()]


def legend_texts(ax, what):
    require(ax.get_legend() is not None, "%s has no legend", what)
    return [t.get_text() for t in ax.get_legend().get_texts()]


def check_bars(ax, series, groups, value, what, show=False, legend=True):
    """One bar container per series; bar g of series s has the height value(s, g) and is nearest to the tick named after group g."""
    require(len(ax.containers) == len(series), "%s: %d groups of bars, expected %d", what, len(ax.containers), len(series))
    if legend:
        require(legend_texts(ax, what) == [str(s) for s in series], "%s: legend %r, expected %r", what, legend_texts(ax, what), [str(s) for s in series])
        for h, c in zip(ax.get_legend().legend_handles, ax.containers):
            require(h.get_facecolor() == c[0].get_facecolor(), "%s: colours of the legend do not match the bars", what)
    ticks, names = ax.get_xticks(), label_texts(ax)
    require(names == [str(g) for g in groups], "%s: ticks %r, expected %r", what, names, [str(g) for g in groups])
    texts = [(t.get_position(), t.get_text()) for t in ax.texts]
    lo, hi = ax.get_ylim()
    spans = []
    for i, (s, c) in enumerate(zip(series, ax.containers)):
        require(len(c) == len(groups), "%s: %d bars, expected %d", what, len(c), len(groups))
        for j, g in enumerate(groups):
            v, b = value(i, j), c[j]
            require(eq(b.get_height(), v) and b.get_y() == 0, "%s: bar of (%s, %s) is %r, expected %r", what, s, g, b.get_height(), v)
            x = b.get_x() + b.get_width() / 2
            require(int(np.argmin([abs(x - t) for t in ticks])) == j, "%s: bar of (%s, %s) is at the tick of another group", what, s, g)
            spans.append((b.get_x(), b.get_x() + b.get_width()))
            require(v != v or lo <= min(v, 0) and lo < hi and max(v, 0) <= hi, "%s: bar of (%s, %s) exceeds the axis", what, s, g)
            if show:
                mine = [t for p, t in texts if abs(p[0] - x) < 1e-6]
                require(len(mine) == 1 and eq(float(mine[0]), round(float(v), 3)), "%s: number of (%s, %s) is %r, value %r", what, s, g, mine, v)
    spans.sort()
    require(all(b <= c + 1e-9 for (_, b), (c, _) in zip(spans, spans[1:])), "%s: bars overlap", what)
    require(len(texts) == (len(spans) if show else 0), "%s: %d numbers on the bars", what, len(texts))


def check_lines(ax, want, what):
    """want: list of (x, y) in order; markers and empty lines are ignored."""
    got = [(l.get_xdata(), l.get_ydata()) for l in ax.lines if l.get_linestyle() not in ("None", "", " ")]
    require(len(got) == len(want), "%s: %d curves, expected %d", what, len(got), len(want))
    for i, ((x, y), (u, v)) in enumerate(zip(got, want)):
        require(eq(x, u) and eq(y, v), "%s: curve %d is %r, %r; expected %r, %r", what, i, list(x), list(y), list(u), list(v))


def figures(figs, n, what):
    from matplotlib.figure import Figure
    require(isinstance(figs, list) and len(figs) == n and all(isinstance(f, Figure) for f in figs), "%s: %d figures, expected %d", what, len(figs), n)
    require(len(set(map(id, figs))) == n, "%s: the same figure twice", what)


def plotted(f, p, n, what, **kw):
    before = p.copy(deep=True)
    r = f(p, **kw)
    require(same(before.values, p.values) and before.dims == p.dims and all(same(before.coords[d].values, p.coords[d].values) for d in p.dims
                                                                           if p.coords[d].dtype != object), "%s modified its input", what)
    if n is not None:
        figures(r, n, what)
    return r


def axes_of(fig, n, what):
    ax = fig.axes
    require(len(ax) == n, "%s: %d axes, expected %d", what, len(ax), n)
    return ax


def verify_model(p, ctx, what):
    plt, E = setup()
    D, M, T = (p.coords[d].values for d in ("dataset", "model", "metric"))
    for compare, show in itertools.product(("models", "metrics"), (False, True)):
        w = "plot_model_performance(%s, %r) of %s" % (compare, show, what)
        figs = plotted(E.plot_model_performance, p, len(D), w, compare=compare, show_values=show)
        for i, fig in enumerate(figs):
            ax = axes_of(fig, 1, w)[0]
            v = np.asarray(p.values[i])
            if compare == "models":
                check_bars(ax, M, T, lambda a, b: v[a, b], w, show)
            else:
                check_bars(ax, T, M, lambda a, b: v[b, a], w, show)
            require(str(D[i].name) in ax.get_title(), "%s: title %r", w, ax.get_title())
        plt.close("all")
        ctx.evaluated()


def check_model(case, ctx):
    sizes, values = case
    p = table("Model Performance", ("dataset", "model", "metric"), sizes, values=values)
    verify_model(p, ctx, "%r" % (case,))
    if np.prod(sizes) > 1:
        ctx.nontrivial(case)


def model_cases(t):
    for s in itertools.product((1, 2, 3), (1, 2, 3, 4), (1, 2, 3, 4)):
        yield s, None
    for s in ((1, 1, 7), (1, 7, 1), (1, 5, 6), (5, 1, 2)) + (((4, 6, 6), (1, 12, 3)) if t else ()):
        yield s, None
    for n, s in ((1, (1, 1, 1)), (2, (1, 2, 1)), (2, (1, 1, 2)), (2, (2, 1, 1)), (3, (1, 3, 1)), (4, (1, 2, 2))):
        for v in itertools.product((0.0, 1.0, 0.33349, -0.0624, -1.0, float("nan")) if n < 4 or t else (0.5, -0.5, float("nan")), repeat=n):
            yield s, v


def verify_tree_wise(p, ctx, what):
    plt, E = setup()
    D, M, T = (p.coords[d].values for d in ("dataset", "model", "metric"))
    K = p.coords["k"].values
    get = lambda d, m, t: np.asarray(p.sel(dataset=D[d], model=M[m], metric=T[t]).values, dtype=float)
    raw = np.asarray(p.transpose("dataset", "model", "metric", "k").values)
    for compare, figs_n, axes_n, lines, ylabel in (
            ("models", len(D), len(T), M, T), ("metrics", len(D), len(M), T, M), ("datasets", len(M), len(T), D, T)):
        w = "plot_tree_wise_performance(%s) of %s" % (compare, what)
        figs = plotted(E.plot_tree_wise_performance, p, figs_n, w, compare=compare)
        for f, fig in enumerate(figs):
            for a, ax in enumerate(axes_of(fig, axes_n, w)):
                rows = []
                for l in range(len(lines)):
                    d, m, t = {"models": (f, l, a), "metrics": (f, a, l), "datasets": (l, f, a)}[compare]
                    rows.append(raw[d, m, t])
                check_lines(ax, [(K, r) for r in rows], "%s, figure %d, axis %d" % (w, f, a))
                marks = [(float(l.get_xdata()[0]), float(l.get_ydata()[0])) for l in ax.lines
                         if l.get_linestyle() in ("None", "", " ") and len(l.get_xdata()) and l.get_ydata()[0] == l.get_ydata()[0]]
                best = [(float(K[i]), float(r[i])) for r in rows if not np.all(np.isnan(r)) for i in [int(np.nanargmax(r))]]
                require(len(marks) == len(best) and all(abs(x - u) < 1e-9 and abs(y - v) < 1e-6 for (x, y), (u, v) in zip(marks, best)),
                        "%s: maxima marked at %r, expected %r", w, marks, best)
                require(ax.get_ylabel() == str(ylabel[a]), "%s: axis %d is labelled %r", w, a, ax.get_ylabel())
            got = legend_texts(fig.axes[-1], w)
            names = [x.name if compare == "datasets" else str(x) for x in lines]
            require(got[:len(names)] == names, "%s: legend %r, expected %r", w, got, names)
        plt.close("all")
        ctx.evaluated()


def check_tree_wise(case, ctx):
    sizes, ks, values = case
    p = table("Tree-Wise Performance", ("dataset", "model", "k", "metric"), (sizes[0], sizes[1], len(ks), sizes[2]), {"k": np.array(ks)}, values)
    verify_tree_wise(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def tree_wise_cases(t):
    for s in itertools.product((1, 2), (1, 2, 3), (1, 2, 3)):
        for ks in ((10,), (1, 2, 3), (5, 10, 12)):
            yield s, ks, None
    for n in (1, 2, 3, 4):
        for v in itertools.product((0.0, 0.5, 0.75, float("nan"))[:4 if n < 4 or t else 2], repeat=n):
            yield (1, 1, 1), tuple(range(10, 10 * n + 1, 10)), v


def verify_lines(p, ctx, what):
    """plot_query_wise_performance."""
    plt, E = setup()
    D, M, T = (p.coords[d].values for d in ("dataset", "model", "metric"))
    B = p.coords["bin"].values
    raw = np.asarray(p.values)
    for compare in ("models", "metrics"):
        w = "plot_query_wise_performance(%s) of %s" % (compare, what)
        for f, fig in enumerate(plotted(E.plot_query_wise_performance, p, len(D), w, compare=compare)):
            for a, ax in enumerate(axes_of(fig, len(T) if compare == "models" else len(M), w)):
                check_lines(ax, [(B, 100 * r) for r in (raw[f, :, a] if compare == "models" else raw[f, a])], "%s, figure %d, axis %d" % (w, f, a))
            require(legend_texts(fig.axes[-1], w) == [str(x) for x in (M if compare == "models" else T)], "%s: legend %r", w, legend_texts(fig.axes[-1], w))
        plt.close("all")
        ctx.evaluated()


def check_query_wise(case, ctx):
    sizes, bins, values = case
    p = table("Query-Wise Performance", ("dataset", "model", "metric", "bin"), sizes + (len(bins),), {"bin": np.array(bins)}, values)
    verify_lines(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def query_wise_cases(t):
    for s in itertools.product((1, 2), (1, 2, 3), (1, 2, 3)):
        for b in ((1.0,), (0.5, 1.0), (-1.0, 0.0, 2.5)):
            yield s, b, None
    for v in itertools.product((0.0, 0.25, 1.0), repeat=4 if t else 3):
        yield (1, 1, 1), tuple(range(len(v))), v


def verify_contribution(p, ctx, what):
    plt, E = setup()
    w = "plot_tree_wise_average_contribution of %s" % what
    M = p.coords["model"].values
    for f, fig in enumerate(plotted(E.plot_tree_wise_average_contribution, p, len(p.coords["dataset"]), w)):
        for a, ax in enumerate(axes_of(fig, len(M), w)):
            check_lines(ax, [(p.coords["trees"].values, p.values[f, a])], "%s, figure %d, axis %d" % (w, f, a))
            require(legend_texts(ax, w) == [str(M[a])], "%s: legend %r", w, legend_texts(ax, w))
    plt.close("all")
    ctx.evaluated()


def check_contribution(case, ctx):
    d, m, n = case
    p = table("Tree-Wise Average Contribution", ("dataset", "model", "trees"), case, {"trees": np.arange(n)})
    verify_contribution(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def verify_graded(p, ctx, what):
    plt, E = setup()
    w = "plot_document_graded_relevance of %s" % what
    M, L = p.coords["model"].values, p.coords["label"].values
    for f, fig in enumerate(plotted(E.plot_document_graded_relevance, p, len(p.coords["dataset"]), w)):
        for a, ax in enumerate(axes_of(fig, len(M), w)):
            check_lines(ax, [(p.coords["bin"].values, r) for r in p.values[f, a]], "%s, figure %d, axis %d" % (w, f, a))
            require(M[a].name in ax.get_title() and p.coords["dataset"].values[f].name in ax.get_title(), "%s: title %r", w, ax.get_title())
        require(legend_texts(fig.axes[-1], w) == ["Label %d" % l for l in L], "%s: legend %r", w, legend_texts(fig.axes[-1], w))
    plt.close("all")
    ctx.evaluated()


def check_graded(case, ctx):
    d, m, labels, bins = case
    p = table("Document Graded Relevance", ("dataset", "model", "label", "bin"), (d, m, len(labels), len(bins)), {"label": np.array(labels, dtype=F32), "bin": np.array(bins)})
    verify_graded(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def mesh_of(ax, what):
    from matplotlib.collections import QuadMesh
    q = [c for c in ax.collections if isinstance(c, QuadMesh)]
    require(len(q) == 1, "%s: %d coloured meshes", what, len(q))
    return q[0]


def verify_confusion(p, ctx, what):
    plt, E = setup()
    w = "plot_rank_confusion_matrix of %s" % what
    M, n = p.coords["model"].values, len(p.coords["label_i"])
    for f, fig in enumerate(plotted(E.plot_rank_confusion_matrix, p, len(p.coords["dataset"]), w)):
        for a, ax in enumerate(axes_of(fig, len(M), w)):
            q = mesh_of(ax, w)
            xy = q.get_coordinates()
            require(xy.shape == (n + 1, n + 1, 2) and np.all(np.diff(xy[:, :, 0], axis=1) > 0) and np.all(np.diff(xy[:, :, 1], axis=0) > 0), "%s: cells", w)
            require("i" in ax.get_ylabel().split() and "j" in ax.get_xlabel().split(), "%s: axes %r, %r", w, ax.get_xlabel(), ax.get_ylabel())
            require(ax.get_ylim()[0] < ax.get_ylim()[1] and ax.get_xlim()[0] < ax.get_xlim()[1], "%s: axes are inverted", w)
            col = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(q.get_array(), dtype=float)), -np.inf).reshape(n, n)
            cnt = np.asarray(p.values[f, a])
            order = np.argsort(cnt, axis=None, kind="stable")
            c, v = col.ravel()[order], cnt.ravel()[order]
            require(all((c[i] < c[i + 1]) == (v[i] < v[i + 1]) and c[i] <= c[i + 1] for i in range(n * n - 1)),
                    "%s: colours %r for counts %r", w, col.tolist(), cnt.tolist())
            require(M[a].name in ax.get_title() and p.coords["dataset"].values[f].name in ax.get_title(), "%s: title %r", w, ax.get_title())
    plt.close("all")
    ctx.evaluated()


def check_confusion(case, ctx):
    d, m, labels, values = case
    k = len(labels)
    vals = values if values is not None else [(i * 37 + 11) % 101 for i in range(d * m * k * k)]
    p = table("Rank Confusion Matrix", ("dataset", "model", "label_i", "label_j"), (d, m, k, k), {"label_i": np.array(labels), "label_j": np.array(labels)}, vals).astype(int)
    verify_confusion(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def confusion_cases(t):
    for d, m, k in itertools.product((1, 2), (1, 2, 3), (1, 2, 3, 5)):
        yield d, m, tuple(range(k)), None
    for v in (0, 1, 7):
        yield 1, 1, (2,), (v,)
    for v in itertools.product((0, 1, 2, 5, 300) if t else (0, 1, 2, 300), repeat=4):
        yield 1, 1, (0, 3), v


def verify_class(p, ctx, what):
    plt, E = setup()
    D, M, T, C = (p.coords[d].values for d in ("dataset", "model", "metric", "classes"))
    raw = np.asarray(p.values)
    for compare, show in itertools.product(("models", "metrics"), (False, True)):
        w = "plot_query_class_performance(%s, %r) of %s" % (compare, show, what)
        for f, fig in enumerate(plotted(E.plot_query_class_performance, p, len(D), w, compare=compare, show_values=show)):
            n = len(T) if compare == "models" else len(M)
            for a, ax in enumerate(axes_of(fig, n, w)):
                v = raw[f, :, a] if compare == "models" else raw[f, a]
                check_bars(ax, M if compare == "models" else T, C, lambda s, g: v[s, g], "%s, figure %d, axis %d" % (w, f, a), show, a == n - 1)
                if compare == "models":
                    require(ax.get_ylabel() == str(T[a]), "%s: axis %d is labelled %r", w, a, ax.get_ylabel())
        plt.close("all")
        ctx.evaluated()


def check_class(case, ctx):
    sizes, classes, values = case
    p = table("Query Class Performance", ("dataset", "model", "metric", "classes"), sizes + (len(classes),), {"classes": np.array(classes)}, values)
    verify_class(p, ctx, "%r" % (case,))
    if p.size > 1:
        ctx.nontrivial(case)


def class_cases(t):
    for s in itertools.product((1, 2), (1, 2, 3), (1, 2, 3)):
        for c in ((7,), ("a", "b"), (-1, 0, 2)):
            yield s, c, None
    for n in (1, 2, 3):
        for v in itertools.product((0.0, 0.5, -0.25, float("nan")), repeat=n):
            yield (1, 1, 1), tuple("xyz"[:n]), v


def verify_importance(p, ctx, what, names=None, limits=(10,)):
    plt, _ = setup()
    import rankeval.visualization.feature as F
    imp, cnt = np.asarray(p.sel(type="importance").values), np.asarray(p.sel(type="count").values)
    n = len(imp)
    for by, lim in itertools.product(("gain", "count"), limits):
        w = "plot_feature_importance(%r, %s, names %r) of %s" % (lim, by, names is not None, what)
        fig = plotted(F.plot_feature_importance, p, None, w, max_features=lim, sort_by=by, feature_names=names)
        ax1, ax2 = axes_of(fig, 2, w)
        k = n if lim is None else min(lim, n)
        require(len(ax1.containers) == 1 and len(ax2.containers) == 1 and len(ax1.containers[0]) == k and len(ax2.containers[0]) == k, "%s: number of bars", w)
        texts, ticks = [t.strip() for t in label_texts(ax1)], ax1.get_xticks()
        idx = [list(names).index(t) for t in texts] if names is not None else [int(t) - 1 for t in texts]
        require(len(set(idx)) == k, "%s: features %r", w, texts)
        key = imp if by == "gain" else cnt
        for i, f in enumerate(idx):
            a, b = ax1.containers[0][i], ax2.containers[0][i]
            require(eq(a.get_height(), imp[f]) and eq(b.get_height(), cnt[f]), "%s: bars of feature %d are %r, %r; expected %r, %r", w, f, a.get_height(),
                    b.get_height(), imp[f], cnt[f])
            for bar in (a, b):
                x = bar.get_x() + bar.get_width() / 2
                require(ticks[i] - 0.5 <= x <= ticks[i] + 0.5, "%s: bar of feature %d is away from its label", w, f)
            require(i == 0 or key[idx[i - 1]] >= key[f], "%s: not sorted: %r", w, [key[j] for j in idx])
        rest = [j for j in range(n) if j not in idx]
        require(not rest or not idx or max(key[j] for j in rest) <= key[idx[-1]], "%s: a more important feature is missing", w)
        legend = (ax1.get_legend() or ax2.get_legend())
        require(legend and [t.get_text() for t in legend.get_texts()] == ["Importance", "Count"], "%s: legend", w)
        h = legend.legend_handles
        require(h[0].get_facecolor() == ax1.containers[0][0].get_facecolor() and h[1].get_facecolor() == ax2.containers[0][0].get_facecolor(), "%s: legend colours", w)
        lo, hi = ax1.get_ylim()
        require(max(imp[j] for j in idx) <= hi + 1e-9 and min([0] + [imp[j] for j in idx]) >= lo - 1e-9, "%s: bars exceed the axis", w)
        require(ax2.get_ylim()[0] <= 0 and max(cnt[j] for j in idx) <= ax2.get_ylim()[1], "%s: bars exceed the axis of counts", w)
        plt.close("all")
        ctx.evaluated()


def importance_table(imp, cnt):
    import xarray as xr
    return xr.DataArray([np.array(imp, dtype=F32), np.array(cnt, dtype=np.int64)], name="Feature Importance Analysis",
                        coords=[["importance", "count"], np.arange(len(imp), dtype=np.uint16)], dims=["type", "feature"])


def check_importance(case, ctx):
    imp, cnt, named = case
    p = importance_table(imp, cnt)
    verify_importance(p, ctx, "%r" % (case,), ["feat %c" % (122 - i % 26) + "%d" % i for i in range(len(imp))] if named else None,
                      (1, 2, 10, None) if len(imp) < 4 else (len(imp) - 1, 10, None))
    if len(imp) > 1:
        ctx.nontrivial(case)


def importance_cases(t):
    for n in (1, 2, 3):
        for imp in itertools.product((0.0, 0.25, 1.0)[:3 if n < 3 or t else 2], repeat=n):
            for k, cnt in enumerate(itertools.product((0, 1, 7)[:3 if n < 3 or t else 2], repeat=n)):
                if max(imp) > 0:
                    yield imp, cnt, k % 2 == 1
    for n in (4, 5, 9, 10, 11, 12, 30):
        yield tuple((i * 7 % n) / 8.0 for i in range(n)), tuple(i * 5 % n * 3 for i in range(n)), n % 2 == 0
    yield (1.0, -0.5, 0.25), (300, 40000, 65535), False
    yield (1.0, -0.5, 0.25), (65535, 65536, 70000), True
    yield (1.0, 0.5, 0.25, 2.0), (131072, 300000, 65537, 5), False
    yield (0.0, 0.0), (1, 2), False


def check_real(case, ctx):
    """The results of the analyses themselves, plotted."""
    import rankeval.analysis.effectiveness as A
    from rankeval.analysis.feature import feature_importance
    from .tables import First, indexed, lookup_tree
    nd, nm = case
    from rankeval.metrics import NDCG, Precision
    dss = [indexed([(i * 3 + j) % 3 for i in range(6 + 2 * j)], (2, 3, 1 + 2 * j), "data %d" % j, nf=2) for j in range(nd)]
    models = [ensemble([lookup_tree([(i * (5 + 2 * m) % 11) / 16.0 for i in range(12)]), (1, 2.5, ("L", 0.25), ("L", 0.5 * m))] * (6 + m), name="model %d" % m)
              for m in range(nm)]
    mets = [NDCG(cutoff=2), Precision(cutoff=1), First()]
    verify_model(A.model_performance(dss, models, mets), ctx, "model_performance")
    verify_tree_wise(A.tree_wise_performance(dss, models, mets[:2], step=5), ctx, "tree_wise_performance")
    verify_contribution(A.tree_wise_average_contribution(dss, models), ctx, "tree_wise_average_contribution")
    verify_lines(A.query_wise_performance(dss, models, mets[:2], bins=3), ctx, "query_wise_performance")
    verify_graded(A.document_graded_relevance(dss, models, bins=4), ctx, "document_graded_relevance")
    verify_confusion(A.rank_confusion_matrix(dss, models), ctx, "rank_confusion_matrix")
    cl = [["news", "web", "web"], ["web", "shop", "web"]][:nd]
    verify_class(A.query_class_performance(dss, models, mets, cl), ctx, "query_class_performance")
    for m in models:
        verify_importance(feature_importance(m, dss[0]), ctx, "feature_importance")
    ctx.nontrivial(case)


def check_shape(case, ctx):
    plt, _ = setup()
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import plot_shape
    from matplotlib.collections import QuadMesh
    shps, levels, leaves = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    r = topological_analysis(ensemble(T), include_leaves=leaves)
    shape = np.asarray(r.avg_tree_shape().todense())
    top = r.topology.copy()
    other = plt.figure()
    ob = other.add_subplot(111)
    for lev in levels:
        fig = plot_shape(r, max_level=lev) if lev is not None else plot_shape(r)
        w = "plot_shape(max_level=%r) of %r, leaves %r" % (lev, shps, leaves)
        require(fig is not other and other.axes == [ob] and not ob.collections, "%s draws on another figure", w)
        rings = min(shape.shape[0], (10 if lev is None else lev) + 1)
        axs = fig.axes + [b for a in fig.axes for b in getattr(a, "parasites", [])]
        mesh = [q for a in axs for q in a.collections if isinstance(q, QuadMesh) and q.get_coordinates()[:, :, 0].max() > 3]
        mesh = list({id(q): q for q in mesh}.values())
        require(len(mesh) == 1, "%s: %d meshes", w, len(mesh))
        q = mesh[0]
        xy = q.get_coordinates()
        z = np.ma.filled(q.get_array(), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
        require(q.norm.vmin == 0 and q.norm.vmax == 1, "%s: frequencies from %r to %r", w, q.norm.vmin, q.norm.vmax)
        cells = {}
        for a in range(z.shape[0]):
            for b in range(z.shape[1]):
                th = (xy[a, b, 0] + xy[a + 1, b, 0]) / 2
                rr = (xy[a, b, 1] + xy[a, b + 1, 1]) / 2
                level, node = int(rr), int(th / np.pi * 2 ** int(rr))
                want = shape[level, node] if level < rings and node < shape.shape[1] else 0.0
                require(abs(z[a, b] - want) < 1e-6, "%s: node %d of level %d is drawn as %r, expected %r", w, node, level, z[a, b], want)
                cells.setdefault(level, set()).add(node)
        require(all(cells.get(l) == set(range(2 ** l)) for l in range(rings)) and not any(l >= rings + 1 for l in cells), "%s: levels drawn %r", w, sorted(cells))
        pts = q.get_transform().transform([(np.pi / 4, 1.5), (3 * np.pi / 4, 1.5)])
        require(pts[0][0] < pts[1][0], "%s: left and right subtrees are exchanged", w)
        ctx.evaluated()
    require(same(r.topology.todense(), top.todense()), "plot_shape modified its input")
    plt.close("all")
    if len(shps) > 1 or shps[0] is not None:
        ctx.nontrivial(case)


def shape_cases(t):
    for s in all_shapes(6 if t else 5):
        yield (s,), (None, 0, 1, 2, 12), True
    for s in all_shapes(4):
        yield (s,), (None,), False
    for p in itertools.product(all_shapes(3), repeat=2):
        yield p, (None, 1), True
    for p in itertools.product(all_shapes(2), repeat=3):
        yield p, (None,), True
    for d in (7, 8, 9, 10, 11) if t else (7, 8, 10):
        s = None
        for _ in range(d):
            s = (s, None) if d % 2 else (None, s)
        yield (s,), (None, d - 1), True


def check_args(case, ctx):
    plt, E = setup()
    import rankeval.visualization.feature as F
    name, kw, ok = case
    dims = {"plot_model_performance": ("dataset", "model", "metric"), "plot_tree_wise_performance": ("dataset", "model", "k", "metric"),
            "plot_query_wise_performance": ("dataset", "model", "metric", "bin"), "plot_query_class_performance": ("dataset", "model", "metric", "classes")}
    if name in dims:
        f, p = getattr(E, name), table("P", dims[name], (2,) * len(dims[name]), {"k": np.arange(2), "bin": np.arange(2.0)})
    else:
        f, p = F.plot_feature_importance, importance_table([1.0, 0.5], [3, 4])
    try:
        f(p, **kw)
    except RuntimeError:
        require(not ok, "%s(%r) rejected", name, kw)
    else:
        require(ok, "%s(%r) accepted", name, kw)
    if name in dims:                                  # defaults: the models are compared
        a, b = f(p), f(p, compare="models")
        require(len(a) == len(b) and all(legend_texts(x.axes[-1], name) == legend_texts(y.axes[-1], name) for x, y in zip(a, b)), "default of %s", name)
    plt.close("all")
    E.init_plot_style()
    ctx.evaluated()
    ctx.nontrivial((name, repr(kw)))


def units(tier):
    t = tier == "thorough"
    args = [(n, {"compare": c}, c in ok) for n, ok in (("plot_model_performance", ("models", "metrics")), ("plot_tree_wise_performance", ("models", "metrics", "datasets")),
                                                     ("plot_query_wise_performance", ("models", "metrics")), ("plot_query_class_performance", ("models", "metrics")))
            for c in ("models", "metrics", "datasets", "model", "", None)]
    args += [("plot_feature_importance", {"sort_by": s}, s in ("gain", "count")) for s in ("gain", "count", "name", "", None)]
    return [Unit("model_performance", lambda: model_cases(t), check_model), Unit("tree_wise", lambda: tree_wise_cases(t), check_tree_wise),
            Unit("query_wise", lambda: query_wise_cases(t), check_query_wise),
            Unit("contribution", lambda: itertools.product((1, 2), (1, 2, 3), (1, 2, 5, 12)), check_contribution),
            Unit("graded", lambda: itertools.product((1, 2), (1, 2, 3), ((0,), (1, 3), (0, 1, 4)), ((1.0,), (0.0, 0.5, 2.0))), check_graded),
            Unit("confusion", lambda: confusion_cases(t), check_confusion), Unit("classes", lambda: class_cases(t), check_class),
            Unit("importance", lambda: importance_cases(t), check_importance), Unit("shape", lambda: shape_cases(t), check_shape),
            Unit("analyses", lambda: itertools.product((1, 2), (1, 2, 3)), check_real), Unit("arguments", args, check_args)]
