"""Writers of model files in every supported format, from trees of nested tuples (independent of the code under test)."""
from ..trees import flatten, count_leaves


def num(v):
    return repr(float(v))


IDS = [lambda i, n: i + 1, lambda i, n: i, lambda i, n: 3 * i + 7, lambda i, n: n - i, lambda i, n: 1, lambda i, n: None]


def quickrank(trees, weights=None, info=True, ws="\n", fmt=num, ids=IDS[0], mirrored=False, comments=False):
    """ids: the tree ids written (they carry no meaning); mirrored: right subtrees are written before left ones."""
    out = ["<ranker>"]
    if comments:
        out.append("<!-- <tree> <split> 1 -->")
    if info:
        out.append("<info><type>LAMBDAMART</type><trees>%d</trees><leaves>%d</leaves><shrinkage>0.1</shrinkage></info>"
                   % (len(trees), max(map(count_leaves, trees)) if trees else 0))
    out.append("<ensemble>")

    def node(t, pos):
        out.append('<split pos="%s">' % pos if pos else "<split>")
        if t[0] == "L":
            out.append("<output> %s </output>" % fmt(t[1]))
        else:
            out.append("<feature> %d </feature>" % (t[0] + 1))
            out.append("<threshold> %s </threshold>" % fmt(t[1]))
            for side in ((3, 2) if mirrored else (2, 3)):
                if comments:
                    out.append("<!-- %d -->" % side)
                node(t[side], ("left", "right")[side - 2])
        out.append("</split>")
    for i, t in enumerate(trees):
        k = ids(i, len(trees))
        at = (['id="%d"' % k] if k is not None else []) + ['weight="%s"' % num(1.0 if weights is None else weights[i])]
        out.append("<tree %s>" % " ".join(at[::-1] if mirrored else at))
        node(t, None)
        out.append("</tree>")
    return ws.join(out + ["</ensemble>", "</ranker>"]) + "\n"


def arrays(tree, perm=None, leafperm=None):
    """Split and leaf arrays: children >= 0 are splits, -(i+1) is leaf i.  The root is always split 0."""
    splits, leaves = [], []
    nodes = flatten(tree)
    idx = {}
    for i, n in enumerate(nodes):
        if n["t"][0] == "L":
            idx[i] = ("L", len(leaves))
            leaves.append(n["t"][1])
        else:
            idx[i] = ("S", len(splits))
            splits.append(n)
    sp = list(perm) if perm else list(range(len(splits)))          # new position of split k
    lp = list(leafperm) if leafperm else list(range(len(leaves)))

    def ref(i):
        k, j = idx[i]
        return sp[j] if k == "S" else -(lp[j] + 1)
    f, th, l, r = [[None] * len(splits) for _ in range(4)]
    for j, n in enumerate(splits):
        f[sp[j]], th[sp[j]], l[sp[j]], r[sp[j]] = n["t"][0], n["t"][1], ref(n["l"]), ref(n["r"])
    v = [None] * len(leaves)
    for j, x in enumerate(leaves):
        v[lp[j]] = x
    return f, th, l, r, v


def lightgbm(trees, perms=None, old=False, decision=None, shrinkage=0.1, fmt=num, categorical=0, default=None, recent=False, average=False):
    nf = 1 + max([0] + [n["t"][0] for t in trees for n in flatten(t) if n["t"][0] != "L"])
    out = ["tree", "version=v2" if not old else "tree", "num_class=1", "num_tree_per_iteration=1", "label_index=0",
           "max_feature_idx=%d" % (nf - 1), "objective=lambdarank",
           "feature_names=" + " ".join("Column_%d" % i for i in range(nf)),
           "feature_infos=" + " ".join("[0:1]" for i in range(nf))]
    if average:
        out.insert(out.index("objective=lambdarank") + (1 if recent else 0), "average_output")
    if recent:
        out += ["tree_sizes=" + " ".join("100" for t in trees)]
    out += [""]
    for i, t in enumerate(trees):
        p, lp = perms[i] if perms else (None, None)
        f, th, l, r, v = arrays(t, p, lp)
        j = lambda s, g=str: " ".join(map(g, s))
        dec = [2] * len(f) if decision is None else decision(i, len(f))
        out += ["Tree=%d" % i, "num_leaves=%d" % len(v), "num_cat=0", "split_feature=" + j(f), "split_gain=" + j([1] * len(f)),
                "threshold=" + j(th, fmt), "decision_type=" + j(dec)]
        if default is not None:
            out += ["default_value=" + j(default(i, len(f)))]
        out += ["left_child=" + j(l), "right_child=" + j(r),
                "leaf_parent=" + j([0] * len(v)), "leaf_value=" + j(v, fmt), "leaf_count=" + j([1] * len(v)),
                "internal_value=" + j([0] * len(f)), "internal_count=" + j([2] * len(f))]
        if recent:
            out[-3:-3] = ["leaf_weight=" + j([3] * len(v))]
            out += ["internal_weight=" + j([7] * len(f)), "is_linear=0"]
        if old:
            out += ["has_categorical=%d" % categorical]
        out += ["shrinkage=%s" % shrinkage, "", ""]
    out += ["", "feature importances:", "Column_0=3", "", "parameters:", "[boosting: gbdt]", "[num_leaves: 31]", "[learning_rate: 0.1]",
            "end of parameters"]
    return "\n".join(out) + "\n"


def jforests(trees, weights=None, perms=None, fmt=num, quantised=0, indent=""):
    """quantised: no Thresholds element (the bins), one before, or one after the real thresholds."""
    out = ["<Ensemble>"] if quantised == 1 else ['<?xml version="1.0" encoding="utf-8"?>', "<Ensemble>"]
    for i, t in enumerate(trees):
        p, lp = perms[i] if perms else (None, None)
        f, th, l, r, v = arrays(t, p, lp)
        j = lambda s, g=str: " ".join(map(g, s))
        q = ["<Thresholds>%s</Thresholds>" % j([17 * k + 3 for k in range(len(f))])]
        at = 'type="RegressionTree" ' if indent else 'id="%d" ' % i if quantised == 0 else ""
        out += [indent + x for x in [
            '<Tree %sleaves="%d" weight="%s">' % (at, len(v), num(1.0 if weights is None else weights[i]))]
            + (["<NumLeaves>%d</NumLeaves>" % len(v)] if indent else []) + [
            "<SplitFeatures>%s</SplitFeatures>" % j(f), "<LeftChildren>%s</LeftChildren>" % j(l),
            "<RightChildren>%s</RightChildren>" % j(r)] + (q if quantised == 1 else []) + [
            "<OriginalThresholds>%s</OriginalThresholds>" % j(th, fmt)] + (q if quantised == 2 else []) + [
            "<LeafOutputs>%s</LeafOutputs>" % j(v, fmt), "</Tree>"]]
    return "\n".join(out + ["</Ensemble>"]) + "\n"


def _text(trees, op, order, stats, fmt, head, name=lambda k: k):
    out = []
    for i, t in enumerate(trees):
        nodes = flatten(t, order)
        out.append(head(i))
        stack = [(0, 1)]
        while stack:
            k, d = stack.pop()
            n = nodes[k]
            pad = "\t" * (d if op == "<=" else d - 1)
            if n["t"][0] == "L":
                out.append("%s%d:leaf=%s%s" % (pad, name(k), fmt(n["t"][1]), ",cover=2.5" if stats else ""))
            else:
                tail = "" if op == "<=" else " yes=%d,no=%d,missing=%d%s" % (name(n["l"]), name(n["r"]), name(n["l"]), ",gain=1.5,cover=4" if stats else "")
                out.append("%s%d:[f%d%s%s]%s" % (pad, name(k), n["t"][0], op, fmt(n["t"][1]), tail))
                stack += [(n["r"], d + 1), (n["l"], d + 1)]
    return "\n".join(out) + "\n"


def xgboost(trees, order="bfs", stats=False, fmt=num, named=False, gaps=0):
    """xgboost's text dump: depth-first lines, nodes numbered by level; the left (yes) branch is value < threshold.
    gaps: the ids xgboost leaves behind when it prunes splits."""
    return _text(trees, "<", order, stats, fmt, lambda i: "booster[%d]%s:" % (i, " [f0]" if named else ""),
                 lambda k: k + gaps * ((k + 1) // 2))


def sklearn(trees, base=None, lr=None, order="pre", fmt=num):
    head = ("" if base is None else "base_score=%s\n" % num(base)) + ("" if lr is None else "learning_rate=%s\n" % num(lr))
    return head + _text(trees, "<=", order, False, fmt, lambda i: "booster[%d] [f0 f1]:" % i)


def coreml(levels_trees, base=None, behaviors=None, node_order="leaf-first"):
    """A CoreML tree ensemble of oblivious trees, the way CatBoost writes it.

    levels_trees: per tree (splits [(feature, threshold)] from the root level down, leaf values left to right).
    Nodes are numbered from the leaves up; the root has the highest number; children follow the flipped order.
    """
    from coremltools.proto import Model_pb2
    s = Model_pb2.Model()
    s.specificationVersion = 1
    i = s.description.input.add()
    i.name = "features"
    i.type.multiArrayType.shape.append(8)
    i.type.multiArrayType.dataType = 65568
    o = s.description.output.add()
    o.name = "prediction"
    o.type.doubleType.SetInParent()
    s.description.predictedFeatureName = "prediction"
    te = s.treeEnsembleRegressor.treeEnsemble
    te.numPredictionDimensions = 1
    te.basePredictionValue.append(0.0 if base is None else base)
    for ti, (splits, leaves) in enumerate(levels_trees):
        d = len(splits)
        assert len(leaves) == 2 ** d
        last = 2 ** (d + 1) - 2
        # heap position h (0 = root, children 2h+1 / 2h+2) -> node id last - h
        order = range(last, -1, -1) if node_order == "leaf-first" else range(last + 1)
        for h in order:
            n = te.nodes.add()
            n.treeId, n.nodeId = ti, last - h
            lev = (h + 1).bit_length() - 1
            if lev == d:
                n.nodeBehavior = 6
                e = n.evaluationInfo.add()
                e.evaluationIndex, e.evaluationValue = 0, leaves[h - (2 ** d - 1)]
            else:
                gt = behaviors(ti, h) if behaviors else True
                if isinstance(gt, bool):
                    n.nodeBehavior = 3 if gt else 0            # BranchOnValueGreaterThan / LessThanEqual
                else:
                    n.nodeBehavior, gt = gt, False
                n.branchFeatureIndex, n.branchFeatureValue = splits[lev]
                left, right = last - (2 * h + 1), last - (2 * h + 2)
                n.trueChildNodeId, n.falseChildNodeId = (right, left) if gt else (left, right)
    return s.SerializeToString()


def oblivious(splits, leaves):
    """The same oblivious tree as nested tuples."""
    def go(lev, k):
        if lev == len(splits):
            return ("L", leaves[k])
        return (splits[lev][0], splits[lev][1], go(lev + 1, 2 * k), go(lev + 1, 2 * k + 1))
    return go(0, 0)
