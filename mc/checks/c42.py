"""C42: query-class averages and rank confusion matrix."""
import itertools
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import ensemble, mkds

PROPERTY, LEVEL = "C42", "exploration"
RULE = ("every assignment of classes (integers, strings; lists, tuples, arrays) to queries and every per-query value vector up to the bound; every "
        "label vector (contiguous or not) x every score pattern (ties included) x every partition into queries, both settings of skip_same_label, "
        "1-2 datasets of different sizes and label sets; ladders over queries, classes and documents (to millions); non-trivial: more than one class, or some pair counted")
ASSUMPTIONS = ["integer relevance labels", "the classes of a call are of one type", "document pairs with equal scores follow no order and are not counted"]
VAL = (0.0, 0.5, 1.0, 0.25, 2.0)


def check_c(case, ctx):
    from rankeval.analysis.effectiveness import query_class_performance
    from .tables import First, Frozen, indexed, labelled, lookup_tree
    assigns, kind, nm = case
    conv = {"int": lambda c: [3 * x - 1 for x in c], "str": lambda c: ["class %s" % "zab"[x] for x in c],
            "arr": lambda c: np.array([x * 2 for x in c]), "tup": lambda c: tuple("qpr"[x] for x in c),
            "arrstr": lambda c: np.array(["yxz"[x] * (x + 1) for x in c])}[kind]
    cl = [conv(a) for a in assigns]
    dss = [indexed([0] * len(a), (1,) * len(a), "d%d" % i, first=100 * i) for i, a in enumerate(assigns)]
    models, vals = [], []
    for j in range(nm):
        tree = None
        vs = [[VAL[(k * (j + 1) + i) % 5] for k in range(len(a))] for i, a in enumerate(assigns)]
        for i in reversed(range(len(assigns))):
            part = lookup_tree(vs[i], first=100 * i)
            tree = part if tree is None else (0, 100 * (i + 1) - 0.5, part, tree)
        models.append(ensemble([tree], name="m%d" % j))
        vals.append(vs)
    mets = [First("a"), First("b", 1.0)]
    fz = Frozen(dss, models)
    p = query_class_performance(dss, models, mets, cl, cache=nm == 2)
    classes = sorted(set(np.asarray(x).tolist() if not isinstance(x, np.generic) else x.item() for c in cl for x in list(c)))
    labelled(p, [("dataset", dss), ("model", models), ("metric", mets), ("classes", [np.asarray(c)[()] for c in classes])], "query_class_performance")
    for (i, a), j, (l, s), (c, cn) in itertools.product(enumerate(cl), range(nm), enumerate((0.0, 1.0)), enumerate(classes)):
        got = p.values[i, j, l, c]
        mine = [v + s for v, k in zip(vals[j][i], list(a)) if k == cn]
        if mine:
            require(abs(got - sum(mine) / len(mine)) < 1e-5, "class %r of %r, values %r: %r, expected %r", cn, a, vals[j][i], got, sum(mine) / len(mine))
        else:
            require(np.isnan(got), "class %r has no query in %r: %r", cn, a, got)
    ctx.evaluated()
    fz.check("query_class_performance")
    if len(classes) > 1:
        ctx.nontrivial(case)


def check_millions(case, ctx):
    """So many queries that their sums need more digits than single precision has."""
    from rankeval.analysis.effectiveness import query_class_performance
    from rankeval.dataset import Dataset
    from .tables import First, lookup_tree
    n, values, kind = case

    class Scores(First):
        """The scores themselves, of queries of one document."""
        def eval(self, dataset, y_pred):
            return 0.0, np.array(y_pred)
    which = np.arange(n) * len(values) // n
    ds = Dataset(np.ascontiguousarray(which.astype(np.float32)[:, None]), np.zeros(n, dtype=np.float32), np.arange(n))
    cl = (np.arange(n) % 2 if kind == "mixed" else (np.arange(n) * 2 // n)).astype(int)
    p = query_class_performance([ds], [ensemble([lookup_tree(values)])], [Scores("s")], [cl]).values[0, 0, 0]
    s = np.array(values, dtype=np.float32).astype(float)[which]
    want = [s[cl == c].mean() for c in (0, 1)]
    require(np.allclose(p, want, rtol=1e-4), "averages of two classes of %d queries: %r, expected %r", n, p, want)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_u(case, ctx):
    """The average of a class is that of its queries with a metric value, as the metric's own average is."""
    from rankeval.analysis.effectiveness import query_class_performance
    from .tables import Partly, UNDEF, indexed, lookup_tree
    vals, cl = case
    ds = indexed([0] * len(vals), (1,) * len(vals), "d")
    p = query_class_performance([ds], [ensemble([lookup_tree(vals)])], [Partly()], [list(cl)])
    for c, cn in enumerate(sorted(set(cl))):
        mine = [v for v, k in zip(vals, cl) if k == cn and v != UNDEF]
        got = p.values[0, 0, 0, c]
        require(abs(got - sum(mine) / len(mine)) < 1e-5 if mine else np.isnan(got), "class %r of %r, values %r (99: none): %r", cn, cl, vals, got)
    ctx.evaluated()
    ctx.nontrivial(case)


def u_cases(t):
    from .tables import UNDEF
    for n in range(1, 6 if t else 5):
        for v in itertools.product((0.0, 1.0, UNDEF), repeat=n):
            if UNDEF in v:
                for c in itertools.product((1, 2), repeat=n):
                    yield v, c


def c_cases(t):
    for n in range(1, 7 if t else 6):
        for a in itertools.product(range(3), repeat=n):
            for kind in ("int", "str", "arr", "tup", "arrstr"):
                yield (a,), kind, 1
    for n, m in itertools.product((1, 2, 3), repeat=2):
        for a in itertools.product(range(3), repeat=n):
            for b in itertools.product(range(3), repeat=m):
                yield (a, b), ("int", "str", "arr", "tup", "arrstr")[(sum(a) + sum(b) + n) % 5], 2
    for n in (50, 99):
        yield (tuple(i * i % 3 for i in range(n)),), "int", 1


def check_m(case, ctx):
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    from .tables import Frozen, indexed, labelled, lookup_tree
    specs, nm = case                     # per dataset: labels, scores, sizes
    dss = [indexed(l, z, "d%d" % i, first=100 * i) for i, (l, s, z) in enumerate(specs)]
    models, sc = [], []
    for j in range(nm):
        tree = None
        ss = [[x * (1 - 2 * j) for x in s] for _, s, _ in specs]
        for i in reversed(range(len(specs))):
            part = lookup_tree(ss[i], first=100 * i)
            tree = part if tree is None else (0, 100 * (i + 1) - 0.5, part, tree)
        models.append(ensemble([tree], name="m%d" % j))
        sc.append(ss)
    fz = Frozen(dss, models)
    labels = sorted(set(x for l, _, _ in specs for x in l))
    some = 0
    for skip in (False, True):
        p = rank_confusion_matrix(dss, models, skip_same_label=skip, cache=skip)
        labelled(p, [("dataset", dss), ("model", models), ("label_i", [float(x) for x in labels]), ("label_j", [float(x) for x in labels])], "rank_confusion_matrix")
        for (i, (l, _, z)), j in itertools.product(enumerate(specs), range(nm)):
            want = np.zeros((len(labels),) * 2, dtype=int)
            o = 0
            for k in z:
                for a, b in itertools.permutations(range(o, o + k), 2):
                    if sc[j][i][a] < sc[j][i][b] and not (skip and l[a] == l[b]):
                        want[labels.index(l[a]), labels.index(l[b])] += 1
                o += k
            require(same(p.values[i, j], want), "rank_confusion_matrix(skip_same_label=%r) of labels %r, scores %r, queries %r: %r, expected %r",
                    skip, l, sc[j][i], z, p.values[i, j].tolist(), want.tolist())
            some += want.sum()
        ctx.evaluated()
    fz.check("rank_confusion_matrix")
    if some:
        ctx.nontrivial(case)


def m_cases(t):
    for n in range(1, 6 if t else 5):
        for l in itertools.product((0, 1, 4) if n < 4 else (1, 2) if n == 4 else (0, 3), repeat=n):
            for s in weak_orders(n) if n < 5 else itertools.product((0, 1, 2), repeat=n):
                for z in compositions(n):
                    if n < 4 or t or len(z) < 3:
                        yield ((l, tuple(x * 0.5 for x in s), z),), 1
    for l in itertools.product((0, 1, 2), repeat=2):
        for k in itertools.product((0, 3), repeat=3):
            for s in weak_orders(3):
                yield ((l, (0.5, 0.0), (2,)), (k, s, (3,))), 2
                yield ((k, s, (2, 1)), (l, (0.5, 1.0), (2,))), 2
    for n in (30, 65):
        yield ((tuple(i * 7 % 5 for i in range(n)), tuple(float(i * 11 % 17) for i in range(n)), (n // 2, n - n // 2)),), 2


def check_many(case, ctx):
    """Many queries and classes."""
    from rankeval.analysis.effectiveness import query_class_performance
    from .tables import First, lookup_tree
    n, k, kind = case
    score = [((j * 7) % 16) * 0.25 for j in range(16)]
    which = (np.arange(n) * 5 + np.arange(n) // 7) % 16
    X = np.zeros((n, 1), dtype=np.float32)
    X[:, 0] = which
    ds = mkds(X, np.zeros(n, dtype=np.float32), (1,) * n)
    num = (np.arange(n) * 3 + np.arange(n) // 11) % k
    cl = num.tolist() if kind == "int" else ["c%d" % c for c in num] if kind == "str" else num * 100003 - 7
    p = query_class_performance([ds], [ensemble([lookup_tree(score)])], [First("a", 0.5)], [cl])
    vals = np.array(score)[which] + 0.5
    cls = list(p.coords["classes"].values)
    require(len(cls) == len(set(num.tolist())), "%d classes, expected %d", len(cls), len(set(num.tolist())))
    name = dict(zip([c if kind != "arr" else int(c) for c in cl], num))
    for c, got in zip(cls, p.values[0, 0, 0]):
        want = vals[num == name[str(c) if kind == "str" else int(c)]].mean()
        require(abs(got - want) < 1e-5, "class %r of %d queries in %d classes: %r, expected %r", c, n, k, got, want)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_pairs(case, ctx):
    """Many documents and labels; pairs are counted by label and sorted scores."""
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    from .tables import lookup_tree
    n, k, kind, sizes = case
    lab = (np.arange(n) * 7 + np.arange(n) // 5) % k * (1 if kind != "spread" else 300)
    which = (np.arange(n) * 5 + np.arange(n) // 3) % 16 if kind != "sorted" else lab % 16
    score = np.array([j * 0.25 for j in range(16)])
    X = np.zeros((n, 1), dtype=np.float32)
    X[:, 0] = which
    ds = mkds(X, lab.astype(np.float32), sizes)
    labels = sorted(set(lab.tolist()))
    for skip in (False, True):
        p = rank_confusion_matrix([ds], [ensemble([lookup_tree(score)])], skip_same_label=skip)
        want = np.zeros((len(labels),) * 2, dtype=int)
        o = 0
        for z in sizes:
            l, s = lab[o:o + z], score[which[o:o + z]]
            for (i, a), (j, b) in itertools.product(enumerate(labels), repeat=2):
                if not (skip and i == j):
                    want[i, j] += np.searchsorted(np.sort(s[l == a]), s[l == b], "left").sum()
            o += z
        require([float(x) for x in p.coords["label_i"].values] == [float(x) for x in labels], "labels %r", p.coords["label_i"].values)
        require(same(p.values[0, 0], want), "rank_confusion_matrix of %d documents, labels %r: %r, expected %r", n, labels, p.values[0, 0].tolist()[:3], want.tolist()[:3])
        ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("classes", lambda: c_cases(t), check_c), Unit("undefined", lambda: u_cases(t), check_u), Unit("confusion", lambda: m_cases(t), check_m),
            Unit("millions", [(n, v, k) for n in MILLIONS for v in ((0.1, 0.1), (0.1, 0.7), (0.3, 0.9, 1e-3)) for k in ("mixed", "halves")], check_millions, stall=300),
            Unit("many classes", [(n, k, kind) for n in (LADDER if t else SHORT_LADDER) + GIANT for k in (2, 5, 300) for kind in ("int", "str", "arr") if n >= 2 * k or k == 2], check_many),
            Unit("many pairs", [(n, k, kind, z) for n in (LADDER if t else SHORT_LADDER) if n < 300 for k in (2, 5, 40) for kind in ("mixed", "spread", "sorted")
                                for z in {(n,), (1,) * n, (n - n // 2,) + (n // 2,) * (n > 1)}]
                 + [(1000, 2, "sorted", (1000,)), (1000, 5, "mixed", (999, 1)), (70001, 5, "mixed", (3,) * 23333 + (2,)), (70001, 2, "sorted", (1,) * 70001)], check_pairs)]
