"""C47: DOT export."""
import io, itertools, os, re
import numpy as np
from ..core import Unit, require
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C47", "exploration"
RULE = ("every tree shape up to the leaf bound x every depth limit x every combination of display options (with documents' leaves or not, labels, names, "
        "ids, special characters, ...), every tree of ensembles of every pair of shapes in both numberings, every kind of target, every precision x "
        "values of every magnitude; the text is parsed as DOT and the graph compared with the tree; non-trivial: the tree has splits")
ASSUMPTIONS = ["colours, fonts and ranks are presentation and not compared", "feature names without quotes", "trees shallow enough for recursion"]


def text_of(label):
    s = re.sub(r"<br\s*/?>", "\n", label).replace("\\n", "\n").replace("&le;", "<=").replace("&#35;", "#").replace("&#37;", "%")
    return re.sub(r"</?(SUB|FONT)[^>]*>", "", s)


NUM = r"(-?(?:inf|nan|\d+(?:\.\d*)?(?:e[-+]?\d+)?))"


def check_graph(dot, ens, tid, tree, first, what, max_depth=None, counts=None, label="all", show=False, proportion=False, names=None, ids=False,
                precision=3, order="pre", parallel=False):
    """Parses the text and matches it with the tree; first: row of the tree's root; counts: {row: documents}."""
    from .dot import parse
    try:
        nodes, edges, ranks = parse(dot)
    except ValueError as e:
        require(False, "%s: malformed DOT: %s", what, e)
    kids, indeg = {}, {}
    for a, b, at in edges:
        require(a in nodes and b in nodes, "%s: edge %s -> %s to an undefined node", what, a, b)
        kids.setdefault(a, []).append((b, at))
        indeg[b] = indeg.get(b, 0) + 1
        require(indeg[b] == 1, "%s: node %s has two parents", what, b)
    roots = [x for x in nodes if x not in indeg]
    require(len(roots) == 1, "%s: %d roots", what, len(roots))
    # rows of the nodes
    flat = flatten(tree, order)
    rowof = {}

    def number(j, g):
        rowof[id(flat[j]["t"]), g] = first + j
    seen = set()

    def walk(g, j, depth, is_root):
        n = flat[j]
        t, row = n["t"], first + j
        seen.add(g)
        ch = kids.get(g, [])
        txt = text_of(nodes[g].get("label", ""))
        if max_depth is not None and depth > max_depth:
            require("..." in txt and not ch, "%s: node below the depth limit is drawn: %r", what, txt)
            return
        if ids:
            require(re.search(r"#%d(?!\d)" % row, txt), "%s: node %d shows %r", what, row, txt)
        shown = counts is not None and show and (label == "all" or t[0] == "L")
        m = re.search(r"counts = (\d+)(?: \(%s%%\))?" % NUM, txt)
        require(bool(m) == shown, "%s: counts of node %d shown as %r", what, row, txt)
        if m:
            require(int(m.group(1)) == counts.get(row, 0), "%s: counts of node %d: %r, expected %d", what, row, txt, counts.get(row, 0))
            require((m.group(2) is not None) == bool(proportion), "%s: percentage of node %d: %r", what, row, txt)
            if proportion:
                require(abs(float(m.group(2)) - 100.0 * counts.get(row, 0) / counts[first]) < 0.0051, "%s: percentage of node %d: %r", what, row, txt)
        rest = re.sub(r"counts = .*", "", txt)
        v = re.search((r"output = " if t[0] == "L" else r"<= *") + NUM, rest)
        val = t[1]
        require(v and abs(float(v.group(1)) - float(F32(val))) <= 0.5 * 10.0 ** -precision + 2e-7 * abs(val), "%s: node %d shows %r, value %r", what, row, txt, val)
        if t[0] == "L":
            require(not ch and "<=" not in rest, "%s: leaf %d has children or a condition: %r", what, row, txt)
        else:
            require("output" not in rest, "%s: split %d has an output: %r", what, row, txt)
            ft = rest.split("<=")[0].strip().split("\n")[-1].strip()
            ok = ft == names[t[0]] if names is not None else re.sub(r"[\[\] ]", "", ft) == "f%d" % t[0]
            require(ok, "%s: node %d shows feature %r, expected %r", what, row, ft, t[0] if names is None else names[t[0]])
            require(len(ch) == 2, "%s: split %d has %d children", what, row, len(ch))
            if is_root and (max_depth is None or max_depth > 0):
                hl = [at.get("headlabel") for _, at in ch]
                require(hl == ["True", "False"], "%s: branches of the root are labelled %r", what, hl)
            walk(ch[0][0], n["l"], depth + 1, False)
            walk(ch[1][0], n["r"], depth + 1, False)
    walk(roots[0], 0, 0, True)
    require(seen == set(nodes), "%s: %d nodes not of the tree", what, len(set(nodes) - seen))
    if parallel:
        leaves = [g for g in nodes if g not in kids]
        require(any(set(r) == set(leaves) for r in ranks), "%s: leaves are not on the same rank: %r", what, ranks)


def leaf_rows(ens, trees, X):
    return ens.score(mkds(X), detailed=True)[2]


def node_counts(tree, first, order, leaves):
    flat = flatten(tree, order)
    c = {}

    def go(j):
        n = flat[j]
        c[first + j] = int(np.sum(leaves == first + j)) if n["t"][0] == "L" else go(n["l"]) + go(n["r"])
        return c[first + j]
    go(0)
    return c


OPTS = ("rounded", "special_characters", "node_ids", "leaves_parallel", "highlight_leaves", "label_show", "proportion")


def check(case, ctx):
    from rankeval.visualization.topological import export_graphviz
    shape, order, bits = case
    t = auto(shape, 2)
    ens = ensemble([auto((None, None), 0), t, ("L", 1.0)], order=order)
    first, h = 3, height(t)
    o = dict((k, bool(bits >> i & 1)) for i, k in enumerate(OPTS))
    X = documents([t], 3, cap=30)[::2]
    L = leaf_rows(ens, [t], X)
    c = node_counts(t, first, order, L[:, 1])
    for names, lab, depth in itertools.product((None, ["alpha", "be ta", "gamma", "delta"]), (None, "all", "leaves"), [None] + list(range(h + 1))):
        what = "shape %r %s names=%r label=%r max_depth=%r %r" % (shape, order, names is not None, lab, depth, sorted(k for k in o if o[k]))
        kw = dict(o, feature_names=names, max_depth=depth)
        if lab:
            kw.update(output_leaves=L, label=lab)
        dot = export_graphviz(ens, 1, **kw)
        check_graph(dot, ens, 1, t, first, what, depth, c if lab else None, lab, o["label_show"], o["proportion"], names, o["node_ids"], 3, order,
                    o["leaves_parallel"])
        ctx.evaluated()
    if shape is not None:
        ctx.nontrivial(case)


def check_ens(case, ctx):
    from rankeval.visualization.topological import export_graphviz
    from .tables import Frozen
    shps, order = case
    T = [auto(s, i) for i, s in enumerate(shps)]
    ens = ensemble(T, order=order)
    fz = Frozen([], [ens])
    first = 0
    for i, t in enumerate(T):
        path = scratch(".dot")
        a = export_graphviz(ens, i)
        check_graph(a, ens, i, t, first, "tree %d of %r %s" % (i, shps, order), order=order)
        require(export_graphviz(ens, tree_id=i, out_file=path) is None and open(path, encoding="utf-8").read() == a, "file output of tree %d of %r", i, shps)
        b = io.StringIO()
        export_graphviz(ens, tree_id=i, out_file=b)
        require(b.getvalue() == a, "file object output of tree %d", i)
        os.unlink(path)
        first += 2 * count_leaves(t) - 1
        ctx.evaluated(3)
    require(export_graphviz(ens) == export_graphviz(ens, 0), "default tree")
    for k in (len(T), len(T) + 1):
        try:
            export_graphviz(ens, k)
        except ValueError:
            pass
        else:
            require(False, "tree %d of %d accepted", k, len(T))
    fz.check("export_graphviz")
    ctx.nontrivial(case)


def check_names(case, ctx):
    from rankeval.visualization.topological import export_graphviz
    f, k = case
    t = (f, 0.5, ("L", 1.0), (0, 1.5, ("L", 2.0), ("L", 3.0)))
    ens = ensemble([t, ("L", 2.0)])
    names = ["name %d" % i for i in range(k)]
    try:
        dot = export_graphviz(ens, feature_names=names)
    except ValueError:
        require(k <= f, "%d names with features up to %d: rejected", k, f)
    else:
        require(k > f, "%d names with features up to %d: accepted", k, f)
        check_graph(dot, ens, 0, t, 0, "%d names" % k, names=names)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_values(case, ctx):
    from rankeval.visualization.topological import export_graphviz
    v, prec = case
    t = (1, v, ("L", -v), (0, v * 3, ("L", v), ("L", v / 3)))
    ens = ensemble([t])
    for sp in (False, True):
        check_graph(export_graphviz(ens, precision=prec, special_characters=sp), ens, 0, t, 0, "value %r, precision %d" % (v, prec), precision=prec)
        ctx.evaluated()
    ctx.nontrivial(case)


def check_args(case, ctx):
    from rankeval.visualization.topological import export_graphviz
    kw, ok = case
    ens = ensemble([auto(((None, None), None))])
    X = np.zeros((2, 3), dtype=F32)
    kw = dict(kw)
    if "label" in kw:
        kw["output_leaves"] = leaf_rows(ens, None, X)
    try:
        export_graphviz(ens, **kw)
    except ValueError:
        require(not ok, "%r rejected", kw)
    else:
        require(ok, "%r accepted", kw)
    ctx.evaluated()
    ctx.nontrivial(repr(kw))


def units(tier):
    t = tier == "thorough"
    sub = [0, 1, 2, 4, 8, 16, 32, 64, 127, 96, 98, 36, 42, 111]
    return [Unit("options", lambda: ((s, o, b) for s in all_shapes(6 if t else 5) for o in ("pre", "bfs") for b in (range(128) if n_leaves(s) < (5 if t else 4) else sub)), check),
            Unit("ensembles", lambda: ((p, o) for r, m in ((1, 7), (2, 4), (3, 3)) for p in itertools.product(all_shapes(m), repeat=r) for o in ("pre", "bfs")), check_ens),
            Unit("names", [(f, k) for f in range(0, 12) for k in range(0, 15)] + [(f, f + d) for f in (63, 255, 256, 1000, 32766) for d in (-1, 0, 1, 2)], check_names),
            Unit("values", [(m * 10.0 ** e, p) for e in range(-4, 8) for m in (1.0, -2.5, 1.23456, 9.9996) for p in range(0, 7)], check_values),
            Unit("arguments", [((("precision", p),), ok) for p, ok in ((0, True), (3, True), (-1, False), (-3, False), (1.5, False), ("2", False), (None, False))] +
                 [((("label", l),), ok) for l, ok in (("all", True), ("leaves", True), ("none", False), ("root", False))], check_args)]
