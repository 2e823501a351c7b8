"""C16: damaged or unsupported model files are rejected, never loaded as something else."""
import io, itertools, os, sys
import xml.etree.ElementTree as ET
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import formats
from .c10 import norm

PROPERTY, LEVEL = "C16", "fault_enumeration"
RULE = ("model files of every format over every tree shape up to the bound, damaged in every way of the fault model: cut at every "
        "byte; every line, element, attribute and CoreML node deleted and duplicated; every number blanked, made non-numeric or not a "
        "number, every feature and child reference replaced by every value of a range around the valid ones (all arrays of references "
        "of small trees); every sequence of header, split and leaf lines up to the length bound; every numbering of the nodes; feature ids and references of every width; every "
        "unsupported construct at every node; every file as every other format; the outcome of the load is judged by strict readers "
        "independent of the code; non-trivial: the damaged file is not a valid description of an ensemble")
ASSUMPTIONS = ["cuts inside a number that leave a shorter number are not detectable (the files of the cut unit have one-digit numbers)",
               "a file cut between two trees of a format without an end marker or counts is a valid file of fewer trees"]

BAD, ANY = "BAD", "ANY"         # verdicts of the strict readers; otherwise a list of (trees, weights) the load may give
EXT = {"QuickRank": ".xml", "Jforests": ".xml", "LightGBM": ".txt", "XGBoost": ".txt", "ScikitLearn": ".txt", "CatBoost": ".mlmodel"}


def attempt(data, fmt, **kw):
    """The ensemble, or the exception."""
    from rankeval.model import RTEnsemble
    p = scratch(EXT[fmt])
    try:
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        try:
            return RTEnsemble(p, format=fmt, **kw)
        except Exception as e:
            return e
    finally:
        os.unlink(p)


def matches(ens, trees, weights):
    try:
        return (ens.n_trees == len(trees) and ens.n_nodes == sum(2 * count_leaves(t) - 1 for t in trees)
                and same(ens.trees_weight, np.array(weights, dtype=F32)) and all(rebuild(ens, i) == norm(t) for i, t in enumerate(trees))
                and [int(x) for x in ens.num_leaves()] == [count_leaves(t) for t in trees]
                and [int(x) for x in ens.num_nodes()] == [2 * count_leaves(t) - 1 for t in trees])
    except (RecursionError, IndexError):
        return False


def judge(ctx, data, fmt, verdict, what, **kw):
    ctx.evaluated()
    ctx.faults += 1
    got = attempt(data, fmt, **kw)
    if verdict == ANY:
        return
    ok = isinstance(got, Exception)
    if verdict == BAD:
        ctx.nontrivial(h(data))
        require(ok, "%s %s: accepted as %s", fmt, what, "" if ok else show(got))
        return
    must, allowed = verdict           # must: the file is valid, an error is a violation too
    must = must and all(widest(t) <= 32767 for T, _ in allowed for t in T)
    if ok:
        require(not must, "%s %s: a valid file is rejected: %r", fmt, what, got if ok else None)
        return
    if fmt == "XGBoost":              # the loader turns < into <=
        allowed = [([below(t) for t in T], W) for T, W in allowed]
    require(any(matches(got, T, W) for T, W in allowed), "%s %s: loaded as %s, the file says %r", fmt, what, show(got), allowed[:2])


def h(data):
    from ..core import h8
    return h8(data if isinstance(data, bytes) else data.encode())


def widest(t):
    return 0 if t[0] == "L" else max(t[0], widest(t[2]), widest(t[3]))


def below(t):
    return t if t[0] == "L" else (t[0], float(np.nextafter(F32(t[1]), F32(-np.inf))), below(t[2]), below(t[3]))


def show(ens):
    return "%r trees, roots %r, left %r, right %r, features %r, values %r" % (ens.n_trees, ens.trees_root.tolist(),
        ens.trees_left_child.tolist(), ens.trees_right_child.tolist(), ens.trees_nodes_feature.tolist(), ens.trees_nodes_value.tolist())


def digits(v):
    return "%d" % v


def small(shape, t=0):
    """One-digit features, thresholds, outputs; distinct within the tree as far as they go."""
    n = n_leaves(shape)
    return label(shape, [((i + t) % 3, (i * 2 + t) % 4 + 1) for i in range(n - 1)], [(i + 5 + t) % 10 for i in range(n)])


def universe(t):
    for s in all_shapes(5 if t else 4):
        yield (s,)
    for c in itertools.product(all_shapes(3), repeat=2):
        yield c
    for c in itertools.product(all_shapes(2), repeat=3):
        yield c


TEXTS = {
    "QuickRank": lambda T: formats.quickrank(T, [1] * len(T), fmt=digits).replace('weight="1.0"', 'weight="1"'),
    "Jforests": lambda T: formats.jforests(T, [1] * len(T), fmt=digits).replace('weight="1.0"', 'weight="1"'),
    "LightGBM": lambda T: formats.lightgbm(T, shrinkage=1, fmt=digits),
    "XGBoost": lambda T: formats.xgboost(T, order="pre", fmt=digits),
    "ScikitLearn": lambda T: formats.sklearn(T, fmt=digits),
}


# ---------------------------------------------------------------------- strict readers
def number(s):
    try:
        v = float(s)
    except (TypeError, ValueError):
        return None
    return None if v != v else v


def integer(s):
    try:
        return int(s)
    except ValueError:
        return None


def natural(s):
    try:
        return int(s) if int(s) >= 0 else None
    except (TypeError, ValueError):
        return None


def link(features, thresholds, left, right, leaves):
    """The tree of split/leaf arrays, or None."""
    S, L = len(features), len(leaves)
    if not (len(thresholds) == len(left) == len(right) == S and L == S + 1) or any(f is None for f in features) \
            or any(x is None for x in thresholds + left + right + leaves):
        return None
    refs = left + right
    if any(not (-L <= r < S) or r == 0 for r in refs) or len(set(refs)) != 2 * S:
        return None

    def go(r, seen):
        if r < 0:
            return ("L", leaves[-r - 1])
        if r in seen:
            raise ValueError
        a, b = go(left[r], seen | {r}), go(right[r], seen | {r})
        return (features[r], thresholds[r], a, b)
    try:
        t = go(0 if S else -1, frozenset())
    except ValueError:
        return None
    return t if count_leaves(t) == L else None       # all of it reached


def read_lines(text, op):
    """XGBoost / scikit-learn dumps: (tree id, [(node id, 'S', f, t) or (node id, 'L', v)]) or the verdict."""
    out, junk = [], False
    for line in text.split("\n"):
        s = line.strip()
        if not s:
            continue
        if s.startswith("booster["):
            k = natural(s[8:s.index("]")]) if "]" in s else None
            if k is None:
                junk = True
                continue
            out.append((k, []))
            continue
        if s.startswith(("base_score", "learning_rate")):
            junk = True
            continue
        i, _, rest = s.partition(":")
        n = natural(i)
        if n is None or not out and not rest:
            junk = True
            continue
        if rest.startswith("leaf="):
            v = number(rest[5:].split(",")[0])
            if v is None:
                return BAD
            out.append((None, [])) if not out else None
            out[-1][1].append((n, "L", v))
        elif rest.startswith("[f") and "]" in rest:
            f, o, x = rest[2:rest.index("]")].partition(op)
            if natural(f) is None or number(x) is None:
                junk = True                 # an unsupported split: the tree is not complete without it
                continue
            out.append((None, [])) if not out else None
            out[-1][1].append((n, "S", int(f), number(x)))
        else:
            junk = True
    return out, junk


def strict_lines(text, op, must=True):
    r = read_lines(text, op)
    if r == BAD:
        return BAD
    heads, junk = r
    if not heads or [k for k, _ in heads] != list(range(len(heads))):
        return BAD
    T = []
    for _, nodes in heads:
        it = iter(nodes)
        ids = [n[0] for n in nodes]

        def go():
            n = next(it)
            if n[1] == "L":
                return ("L", n[2])
            a = go()
            return (n[2], n[3], a, go())
        try:
            t = go()
        except StopIteration:
            return BAD
        if next(it, None) is not None:
            return BAD
        if op == "<=" and (sorted(ids) != list(range(len(ids))) or ids[0] != 0):
            return BAD
        if op == "<" and len(set(ids)) != len(ids):
            return BAD if must == "ids" else ANY
        T.append(t)
    return must and not junk, [(T, [1] * len(T))]


def strict_lightgbm(text):
    """Every key that defines the tree is needed, once."""
    need = ("num_leaves", "split_feature", "threshold", "left_child", "right_child", "leaf_value")
    trees, dup, junk, first = [], False, False, {}
    for line in text.split("\n"):
        k, eq, v = line.partition("=")
        if k == "Tree" and eq and not v:
            junk = True
        elif k == "Tree" and eq:
            trees.append((first, natural(v)))
            first = {}
        elif k in need and eq:
            if not trees:
                first[k] = v
                junk = True
                continue
            if k != "num_leaves" and k in trees[-1][0] and trees[-1][0][k] != v:
                return BAD
            dup = dup or k in trees[-1][0]
            trees[-1][0][k] = v
        elif k in ("is_linear", "num_tree_per_iteration") and eq:
            if v.strip() != "01"[k[0] == "n"]:
                return BAD if v.strip() in ("0", "1", "2", "3") else ANY
        elif k == "decision_type" and eq:
            if any(x != "2" for x in v.split()):
                return BAD
    if not trees or [k for _, k in trees] != list(range(len(trees))):
        return BAD
    T = []
    for d, _ in trees:
        if any(k not in d for k in need[1:]):
            lone = count_missing_ok(d)
            if lone is None:
                return BAD
            T.append(lone)
            junk = True
            continue
        ints = lambda k: [natural(x) if k == "split_feature" else (integer(x)) for x in d[k].split()]
        nums = lambda k: [number(x) for x in d[k].split()]
        t = link(ints("split_feature"), nums("threshold"), ints("left_child"), ints("right_child"), nums("leaf_value"))
        if t is None:
            return BAD
        if natural(d.get("num_leaves")) != count_leaves(t):
            junk = True                 # the arrays tell the tree; the count may be checked against them
        T.append(t)
    if dup:
        junk = True                     # a repeated line that says the same thing may be rejected or not
    return not junk, [(T, [1] * len(T))]


def count_missing_ok(d):
    """A one-leaf tree has no splits: their (empty) lines may be missing."""
    if "leaf_value" in d and not any(d.get(k, "").strip() for k in ("split_feature", "threshold", "left_child", "right_child")):
        v = [number(x) for x in d["leaf_value"].split()]
        if len(v) == 1 and v[0] is not None:
            return ("L", v[0])
    return None


def root_of(text):
    try:
        return ET.fromstring(text)
    except ET.ParseError:
        return None


def strict_quickrank(root):
    if root is None or root.tag != "ranker":
        return BAD
    free = False
    ens = [e for e in root if e.tag == "ensemble"]
    if len(ens) != 1:
        free, ens = True, [[e for e in root.iter() if e.tag == "tree"]]       # out of place

    def go(e):
        nonlocal free
        kids = {}
        for c in e:
            key = c.tag if c.tag != "split" else c.attrib.get("pos")
            if c.tag == "split" and key is not None and key != "left":
                free, key = free or key != "right", "right"
            if key not in ("feature", "threshold", "output", "left", "right"):
                raise ValueError
            if key in kids:
                free = True
                if ET.tostring(kids[key]) != ET.tostring(c) or key in ("left", "right"):
                    raise ValueError
            kids[key] = c
        if set(kids) == {"output"}:
            v = number((kids["output"].text or "").strip())
            if v is None:
                raise ValueError
            return ("L", v)
        if set(kids) != {"feature", "threshold", "left", "right"}:
            raise ValueError
        f, x = natural((kids["feature"].text or "").strip()), number((kids["threshold"].text or "").strip())
        if not f or x is None:
            raise ValueError
        return (f - 1, x, go(kids["left"]), go(kids["right"]))
    T, W = [], []
    for t in ens[0]:
        if t.tag != "tree":
            return ANY
        w = number(t.attrib.get("weight"))
        if w is None:
            return BAD
        if [c.tag for c in t] == ["output"] and number((t[0].text or "").strip()) is not None:
            T.append(("L", number(t[0].text.strip())))
            W.append(w)
            free = True
            continue
        if [c.tag for c in t] != ["split"] or "pos" in t[0].attrib:
            return BAD
        try:
            T.append(go(t[0]))
        except ValueError:
            return BAD
        W.append(w)
    return (not free, [(T, W)]) if T else BAD


def strict_jforests(root):
    if root is None or root.tag != "Ensemble":
        return BAD
    T, W, free = [], [], False
    for t in root:
        if t.tag != "Tree":
            return ANY
        d = {}
        for c in t:
            if c.tag in d:
                free = True
                if (d[c.tag] or "") != (c.text or ""):
                    return BAD
            d[c.tag] = c.text or ""
        w = number(t.attrib.get("weight"))
        keys = ("SplitFeatures", "LeftChildren", "RightChildren", "OriginalThresholds", "LeafOutputs")
        if w is None or any(k not in d for k in keys):
            return BAD
        f, l, r, x, v = [[natural(y) if k == "SplitFeatures" else number(y) if k in keys[3:] else
                          integer(y) for y in d[k].split()] for k in keys]
        tree = link(f, x, l, r, v)
        if tree is None:
            return BAD
        T.append(tree)
        W.append(w)
    return (not free, [(T, W)]) if T else BAD


def strict_coreml(trees):
    """trees: {tree id: [(node id, 'S', f, t, left, right) or (node id, 'L', v or None)]}"""
    ids = sorted(trees)
    if not ids or ids != list(range(len(ids))):
        return BAD
    T = []
    for k in ids:
        nodes = trees[k]
        by = {n[0]: n for n in nodes}
        last = len(nodes) - 1
        if sorted(n[0] for n in nodes) != list(range(len(nodes))):
            return BAD
        refs = [c for n in nodes if n[1] == "S" for c in n[4:]]
        if sorted(refs) != list(range(last)):          # the root is the last one, all the others have one parent
            return BAD

        def go(i, seen):
            n = by[i]
            if n[1] == "L":
                if n[2] is None:
                    raise ValueError
                return ("L", n[2])
            if i in seen:
                raise ValueError
            return (n[2], n[3], go(n[4], seen | {i}), go(n[5], seen | {i}))
        try:
            T.append(go(last, frozenset()))
        except ValueError:
            return BAD
        if 2 * count_leaves(T[-1]) - 1 != len(nodes):
            return BAD
    return True, [(T, [1] * len(T))]


def strict(fmt, text):
    if fmt == "QuickRank":
        return strict_quickrank(root_of(text))
    if fmt == "Jforests":
        return strict_jforests(root_of(text))
    if fmt == "LightGBM":
        return strict_lightgbm(text)
    return strict_lines(text, "<" if fmt == "XGBoost" else "<=")


# ---------------------------------------------------------------------- units
def suits(fmt, T):
    """Jforests has no one-leaf trees."""
    return fmt != "Jforests" or all(t[0] != "L" for t in T)


def check_cut(case, ctx):
    """Every prefix of the file; where a reader may stop early, a prefix of the trees that are complete."""
    fmt, shp = case
    T = [small(s, i) for i, s in enumerate(shp)]
    text = TEXTS[fmt](T)
    judge(ctx, text, fmt, (True, [(T, [1] * len(T))]), "undamaged")
    for k in range(len(text.rstrip())):
        v = strict(fmt, text[:k])
        if v not in (BAD, ANY):
            v = (False, v[1])           # an incomplete file may always be rejected
        judge(ctx, text[:k], fmt, v, "cut after %d of %d bytes: %r" % (k, len(text), text[max(0, k - 30):k]))
        if k % 7 == 0:                  # with a limit on the trees: an error or the first tree
            judge(ctx, text[:k], fmt, (False, [(T[:1], [1])]), "cut after %d bytes, one tree wanted" % k, n_trees=1)
    ctx.trace()


def check_lines(case, ctx):
    """Every line deleted, duplicated, and moved to the end of the file or of another tree."""
    fmt, shp = case
    T = [small(s, i) for i, s in enumerate(shp)]
    lines = TEXTS[fmt](T).split("\n")
    for i, l in enumerate(lines):
        if not l.strip():
            continue
        for what, ls in (("deleted", lines[:i] + lines[i + 1:]), ("duplicated", lines[:i + 1] + lines[i:]),
                         ("moved last", lines[:i] + lines[i + 1:] + [l]), ("repeated last", lines + [l]), ("moved first", [l] + lines[:i] + lines[i + 1:])):
            if fmt == "LightGBM" and what[:4] in ("move", "repe"):      # keys of a tree in another one: no meaning
                continue
            text = "\n".join(ls)
            v = strict(fmt, text)
            if v not in (BAD, ANY):
                v = (False, v[1])           # optional lines may be required
            judge(ctx, text, fmt, v, "line %r %s" % (l, what))
    ctx.trace()


def paths(root):
    """(parent, index, element) of every element but the root."""
    for p in root.iter():
        for i, c in enumerate(list(p)):
            yield p, i, c


def check_xml(case, ctx):
    """Every element deleted and duplicated, every attribute removed or changed, every text blanked, garbled or replaced."""
    import copy
    fmt, shp = case
    T = [small(s, i) for i, s in enumerate(shp)]
    src = ET.fromstring(TEXTS[fmt](T))
    n = len(list(paths(src)))

    def go(edit, what):
        for j in range(n):
            root = copy.deepcopy(src)
            p, i, c = list(paths(root))[j]
            for _ in edit(p, i, c):
                text = ET.tostring(root).decode()
                v = strict(fmt, text)
                if v not in (BAD, ANY):
                    v = (False, v[1])
                judge(ctx, text, fmt, v, "<%s> number %d %s: %s" % (c.tag, j, what, text[-400:]))

    def delete(p, i, c):
        p.remove(c)
        yield

    def dup(p, i, c):
        p.insert(i, copy.deepcopy(c))
        yield

    def swap(p, i, c):
        if i + 1 < len(p):
            d = p[i + 1]
            p.remove(d)
            p.insert(i, d)
            yield

    def hoist(p, i, c):
        """The element replaced by its children."""
        if len(c):
            p.remove(c)
            for k, d in enumerate(list(c)):
                p.insert(i + k, d)
            yield

    def attrs(p, i, c):
        for k in list(c.attrib):
            old = c.attrib[k]
            for new in (None, "", "x", "nan", "left", "right"):
                if k in ("id", "leaves") or new == old:
                    continue
                c.attrib.pop(k, None)
                if new is not None:
                    c.attrib[k] = new
                yield
            c.attrib[k] = old

    def addpos(p, i, c):
        if c.tag == "split" and "pos" not in c.attrib:
            for v in ("left", "right"):
                c.attrib["pos"] = v
                yield

    def texts(p, i, c):
        if (c.text or "").strip() and c.tag in ("feature", "threshold", "output", "SplitFeatures", "LeftChildren", "RightChildren", "OriginalThresholds", "LeafOutputs"):
            words = c.text.split()
            real = c.tag in ("threshold", "output", "OriginalThresholds", "LeafOutputs")
            for k in range(len(words)):
                for new in ("", "x", "nan", "1 1", "-", "--1") + (() if real else ("0", "-1", "-2", "1.5", "40000", "65535")):
                    w = words[:k] + ([new] if new else []) + words[k + 1:]
                    c.text = " ".join(w)
                    yield
            c.text = None
            yield
    for e in (delete, dup, swap, hoist, attrs, addpos, texts):
        go(e, e.__name__)
    ctx.trace()


def check_numbers(case, ctx):
    """Every number of a text file replaced."""
    fmt, shp = case
    T = [small(s, i) for i, s in enumerate(shp)]
    lines = TEXTS[fmt](T).split("\n")
    for i, l in enumerate(lines):
        if fmt == "LightGBM":
            k, eq, v = l.partition("=")
            if k not in ("num_leaves", "split_feature", "threshold", "left_child", "right_child", "leaf_value", "Tree", "decision_type",
                         "num_tree_per_iteration") or not v.strip():
                continue
            pre, words, sep, post = k + "=", v.split(" "), " ", ""
            real = k in ("threshold", "leaf_value")
            news = ("", "x", "nan") + (() if real else ("-9", "-1", "0", "1", "2", "3", "7", "1.5"))
            if k == "split_feature":
                news = ("", "x", "-1", "-2", "40000", "1.5")
            elif k == "Tree":
                news = ("", "x", "0", "1", "2", "3", "7")
        else:
            s = l.strip()
            if not s or s.startswith(("base", "learn")):
                continue
            if s.startswith("booster"):
                pre, words, post = "booster[", [s[8:s.index("]")]], s[s.index("]"):]
                news = ("", "x", "0", "1", "2", "3", "-1", "7")
            elif "leaf=" in s:
                pre, words, post = l[:l.index("leaf=") + 5], [s[s.index("leaf=") + 5:]], ""
                news = ("", "x", "nan", "c1")
            else:
                op = "<" if fmt == "XGBoost" else "<="
                a, b = l.index("[f"), l.index("]")
                f, _, x = l[a + 2:b].partition(op)
                for new in ("", "x", "-1", "1.5"):
                    one(ctx, fmt, lines, i, l[:a + 2] + new + op + x + l[b:])
                for new in ("age", "f", "", "age2", "x 1", "F1", "ff1"):        # a named feature
                    one(ctx, fmt, lines, i, l[:a + 1] + new + op + x + l[b:])
                one(ctx, fmt, lines, i, l[:a + 2] + f + l[b:])                      # an indicator feature
                one(ctx, fmt, lines, i, l[:a + 2] + f + ":{%s}" % x + l[b:])        # a categorical split
                one(ctx, fmt, lines, i, l[:a + 2] + f + op + l[b:])
                one(ctx, fmt, lines, i, l[:a + 2] + f + "<=>"[:3 - len(op)][-1:] * (op == "<=") + ">" + x + l[b:])
                pre, words, post = l[:a + 2] + f + op, [x], l[b:]
                news = ("", "x", "nan")
            sep = " "
        for k in range(len(words)):
            for new in news:
                w = words[:k] + ([new] if new or sep != " " else []) + words[k + 1:]
                one(ctx, fmt, lines, i, pre + sep.join(w) + post)
    ctx.trace()


def one(ctx, fmt, lines, i, new):
    text = "\n".join(lines[:i] + [new] + lines[i + 1:])
    judge(ctx, text, fmt, strict(fmt, text), "line %r changed to %r" % (lines[i], new))


def check_refs(case, ctx):
    """Every array of child references of a small tree (followed by another tree)."""
    fmt, S, lo, hi, first = case
    f, x, v = [(i + 1) % 3 for i in range(S)], [i + 1 for i in range(S)], [5 + i for i in range(S + 1)]
    tail = (2, 9, ("L", 7), ("L", 8))
    j = lambda s: " ".join(map(str, s))
    if fmt == "LightGBM":
        sp = TEXTS[fmt]([(0, 1, ("L", 1), ("L", 2)), tail]).split("Tree=")
        head, second = sp[0], "Tree=" + sp[2]
        mk = lambda l, r: head + "Tree=0\nnum_leaves=%d\nnum_cat=0\nsplit_feature=%s\nthreshold=%s\nleft_child=%s\nright_child=%s\nleaf_value=%s\nshrinkage=1\n\n" % (
            S + 1, j(f), j(x), j(l), j(r), j(v)) + second
    else:
        one = TEXTS[fmt]([tail])
        second = one[one.index("<Tree"):]
        mk = lambda l, r: ('<Ensemble>\n<Tree id="0" leaves="%d" weight="1">\n<SplitFeatures>%s</SplitFeatures><LeftChildren>%s</LeftChildren>'
                           '<RightChildren>%s</RightChildren><OriginalThresholds>%s</OriginalThresholds><LeafOutputs>%s</LeafOutputs></Tree>\n' % (
                               S + 1, j(f), j(l), j(r), j(x), j(v))) + second
    for rest in itertools.product(range(lo, hi + 1), repeat=2 * S - len(first)):
        refs = list(first + rest)
        l, r = refs[:S], refs[S:]
        t = link(f, x, l, r, v)
        ctx.state((fmt, tuple(refs)))
        judge(ctx, mk(l, r), fmt, BAD if t is None else (True, [([t, tail], [1, 1])]), "child references %r %r" % (l, r))
        ctx.transition()


def refs_cases(t):
    for fmt in ("LightGBM", "Jforests"):
        yield fmt, 1, -5, 4, ()
        for a in range(-5, 5):
            yield fmt, 2, -5, 4, (a,)
        for a in itertools.product(range(-4, 3), repeat=2 if not t else 2):
            if t or a[0] in (-1, 1, 2):
                yield fmt, 3, -4, 2, a


def check_seq(case, ctx):
    """Every sequence of header, split and leaf lines; nodes are numbered in order of appearance within their tree."""
    fmt, first, n = case
    op = "<" if fmt == "XGBoost" else "<="
    for rest in itertools.product("HSL", repeat=n - len(first)):
        seq = first + rest
        out, k, b = [], 0, 0
        for p, c in enumerate(seq):
            if c == "H":
                out.append("booster[%d]:" % b)
                b, k = b + 1, 0
                continue
            out.append("%d:[f%d%s%d]" % (k, p % 3, op, p % 7 + 1) if c == "S" else "%d:leaf=%d" % (k, p + 1))
            k += 1
        text = "\n".join(out) + "\n"
        judge(ctx, text, fmt, strict(fmt, text), "lines %s" % "".join(seq))
        ctx.state(seq)
        ctx.transition()


def seq_cases(t):
    for fmt in ("XGBoost", "ScikitLearn"):
        for n in range(1, 10 if not t else 12):
            for first in itertools.product("HSL", repeat=min(n, 3 if not t else 5)):
                yield fmt, first, n


def check_ids(case, ctx):
    """Every numbering of the nodes of scikit-learn trees (the numbers are storage positions) and every order of tree numbers."""
    shp, shift = case
    T = [small(s, i) for i, s in enumerate(shp)]
    n = 2 * n_leaves(shp[0]) - 1
    base = TEXTS["ScikitLearn"](T).split("\n")
    pos = [i for i, l in enumerate(base) if l.strip() and not l.startswith("booster")][:n]
    for ids in itertools.product(range(n + 1), repeat=n):
        if n > 5 and len(set(ids)) < n - 1:
            continue
        lines = list(base)
        for i, k in zip(pos, ids):
            lines[i] = lines[i][:len(lines[i]) - len(lines[i].lstrip())] + str(k) + lines[i][lines[i].index(":"):]
        text = "\n".join(lines)
        judge(ctx, text, "ScikitLearn", strict("ScikitLearn", text), "nodes numbered %r" % (ids,))
        ctx.transition()
    for fmt in ("XGBoost", "ScikitLearn", "LightGBM"):
        src = TEXTS[fmt](T)
        mark = "Tree=%d\n" if fmt == "LightGBM" else "booster[%d]"
        for ids in itertools.product(range(len(T) + 1), repeat=len(T)):
            text = src
            for i in range(len(T)):
                text = text.replace(mark % i, (mark % 99).replace("99", "@%d@" % ids[i]), 1)
            text = text.replace("@", "")
            v = strict(fmt, text)
            if v == BAD and sorted(ids) == list(range(len(T))):
                v = (False, [([T[ids.index(i)] for i in range(len(T))], [1] * len(T))])      # trees in another order, numbered so
                if fmt == "LightGBM":
                    v = ANY
            judge(ctx, text, fmt, v, "trees numbered %r" % (ids,))


def coreml_text(depths):
    from coremltools.proto import Model_pb2
    L = [([(i % 3, float(i + 1)) for i in range(d)], [float(x + t) for x in range(2 ** d)]) for t, d in enumerate(depths)]
    s = Model_pb2.Model()
    s.ParseFromString(formats.coreml(L))
    return s


def coreml_nodes(spec):
    out = {}
    for n in spec.treeEnsembleRegressor.treeEnsemble.nodes:
        if n.nodeBehavior == 6:
            out.setdefault(n.treeId, []).append((n.nodeId, "L", n.evaluationInfo[0].evaluationValue if len(n.evaluationInfo) else None))
        elif n.nodeBehavior in (0, 3):
            a, b = n.trueChildNodeId, n.falseChildNodeId
            out.setdefault(n.treeId, []).append((n.nodeId, "S", n.branchFeatureIndex, n.branchFeatureValue) + ((b, a) if n.nodeBehavior == 3 else (a, b)))
        else:
            return None
    return out


def check_coreml(case, ctx):
    from coremltools.proto import Model_pb2
    depths, kind, j = case
    src = coreml_text(depths)

    def fresh():
        s = Model_pb2.Model()
        s.CopyFrom(src)
        return s, s.treeEnsembleRegressor.treeEnsemble.nodes

    def go(s, what):
        ns = coreml_nodes(s)
        judge(ctx, s.SerializeToString(), "CatBoost", BAD if ns is None else strict_coreml(ns), what)
        ctx.transition()
    n = len(src.treeEnsembleRegressor.treeEnsemble.nodes)
    if kind == "cut":
        data = src.SerializeToString()
        T = [None]
        for k in range(j, len(data), 8):
            try:
                p = Model_pb2.Model()
                p.ParseFromString(data[:k])
            except Exception:
                judge(ctx, data[:k], "CatBoost", BAD, "cut after %d of %d bytes" % (k, len(data)))
                continue
            ns = coreml_nodes(p)
            v = BAD if ns is None else strict_coreml(ns)
            judge(ctx, data[:k], "CatBoost", v if v == BAD else (False, v[1]), "cut after %d of %d bytes" % (k, len(data)))
        return
    if kind == "node":
        s, ns = fresh()
        del ns[j]
        go(s, "node %d removed" % j)
        s, ns = fresh()
        ns.add().CopyFrom(ns[j])
        go(s, "node %d duplicated" % j)
        s, ns = fresh()
        if ns[j].nodeBehavior == 6:
            del ns[j].evaluationInfo[:]
            go(s, "leaf %d without a value" % j)
        for b in range(0, 7):
            s, ns = fresh()
            ns[j].nodeBehavior = b
            ids = coreml_nodes(s)
            v = BAD if ids is None else strict_coreml(ids)
            judge(ctx, s.SerializeToString(), "CatBoost", v, "node %d with behaviour %d" % (j, b))
        for field, vals in (("nodeId", range(n + 2)), ("treeId", range(len(depths) + 1)), ("trueChildNodeId", range(n + 2)), ("falseChildNodeId", range(n + 2))):
            for v in vals:
                s, ns = fresh()
                setattr(ns[j], field, v)
                go(s, "%s of node %d set to %d" % (field, j, v))
        return
    # all references of two splits at once
    sp = [i for i, x in enumerate(src.treeEnsembleRegressor.treeEnsemble.nodes) if x.nodeBehavior != 6]
    a, b = j
    for refs in itertools.product(range(2 ** (max(depths) + 1)), repeat=4 if len(sp) > 1 else 2):
        s, ns = fresh()
        ns[sp[a]].trueChildNodeId, ns[sp[a]].falseChildNodeId = refs[:2]
        if len(refs) > 2:
            ns[sp[b]].trueChildNodeId, ns[sp[b]].falseChildNodeId = refs[2:]
        go(s, "children of %d and %d set to %r" % (a, b, refs))


def coreml_cases(t):
    for d in ((0,), (1,), (2,), (0, 1), (1, 1), (2, 1), (1, 2)) + (((3,), (2, 2), (1, 1, 1)) if t else ()):
        for j in range(8):
            yield d, "cut", j
        for j in range(sum(2 ** (x + 1) - 1 for x in d)):
            yield d, "node", j
    for d in ((1,), (1, 1)):
        yield d, "refs", (0, len(d) - 1)
    if t:
        for p in ((0, 1), (0, 2), (1, 2)):
            yield (2,), "refs", p


def check_cross(case, ctx):
    """Every file as every other format, unknown formats, and what is not a model at all."""
    from rankeval.model import RTEnsemble
    kind, shp = case
    T = [small(s, i) for i, s in enumerate(shp)]
    if kind == "cross":
        files = {f: TEXTS[f](T).encode() for f in TEXTS if suits(f, T)}
        files["CatBoost"] = coreml_text([n_leaves(s) - 1 for s in shp if n_leaves(s) < 4] or [1]).SerializeToString()
        for f, data in files.items():
            for g in EXT:
                lone = all(t[0] == "L" for t in T)
                if f != g and not (lone and {f, g} == {"XGBoost", "ScikitLearn"}):
                    judge(ctx, data, g, BAD, "given a %s file" % f)
            for g in ("quickrank", "QUICKRANK", "", "xgboost", "Unknown", None):
                p = scratch(EXT[f])
                with open(p, "wb") as fo:
                    fo.write(data)
                try:
                    RTEnsemble(p, format=g)
                    raise Violation("a %s file loaded as format %r" % (f, g))
                except Violation:
                    raise
                except Exception:
                    ctx.evaluated()
                finally:
                    os.unlink(p)
        return
    if kind == "nomodel":
        for g in EXT:
            for data in (b"", b"\n", b"\n\n\n", b"0", b"<", b"<ranker></ranker>", b"<ranker><ensemble></ensemble></ranker>", b"<Ensemble></Ensemble>", b"<a/>",
                         b"tree\nversion=v2\nnum_class=1\n\n", b"booster[0]:\n", b"booster[0]:\nbias:\n0.5\nweight:\n1\n2\n", b"1 qid:1 1:0.5\n", b"{}",
                         b"base_score=0.5\nlearning_rate=0.1\n", bytes(range(256)), b"\x00" * 64):
                judge(ctx, data, g, BAD, "given %r" % data)
            d = scratch("dir")
            os.unlink(d)
            for what in ("a missing file", "a directory"):
                if what == "a directory":
                    os.mkdir(d)
                try:
                    RTEnsemble(d, format=g)
                    raise Violation("%s: %s loaded" % (g, what))
                except Violation:
                    raise
                except Exception:
                    ctx.evaluated()
            os.rmdir(d)
        # CatBoost without its library
        saved = {k: sys.modules[k] for k in list(sys.modules) if k.split(".")[0] == "coremltools"}
        for k in saved:
            del sys.modules[k]
        sys.modules["coremltools"] = None
        try:
            judge(ctx, formats_bytes(), "CatBoost", BAD, "without coremltools")
        finally:
            del sys.modules["coremltools"]
            sys.modules.update(saved)
        return
    # unsupported LightGBM models
    text = TEXTS["LightGBM"](T)
    recent = formats.lightgbm(T, shrinkage=1, fmt=digits, recent=True)
    judge(ctx, recent, "LightGBM", (True, [(T, [1] * len(T))]), "recent file")
    for i in range(len(T)):
        parts = recent.split("is_linear=0")
        judge(ctx, "is_linear=0".join(parts[:i + 1]) + "is_linear=1" + "is_linear=0".join(parts[i + 1:]), "LightGBM", BAD, "with a linear tree %d" % i)
        for n in (2, 3, 10):
            judge(ctx, text.replace("num_tree_per_iteration=1", "num_tree_per_iteration=%d" % n).replace("num_class=1", "num_class=%d" % n), "LightGBM", BAD, "multi-class")
    for n in (2, 3):
        if len(T) % n == 0:
            judge(ctx, text.replace("num_tree_per_iteration=1", "num_tree_per_iteration=%d" % n), "LightGBM", BAD, "multi-class")
    for i, t in enumerate(T):
        k = count_leaves(t) - 1
        for p in range(k):
            for d in list(range(0, 16)) + [-1, 255]:
                txt = formats.lightgbm(T, shrinkage=1, fmt=digits, decision=lambda ti, n: [d if (ti, q) == (i, p) else 2 for q in range(n)])
                judge(ctx, txt, "LightGBM", BAD if d != 2 else (True, [(T, [1] * len(T))]), "decision type %d at split %d of tree %d" % (d, p, i))
            txt = formats.lightgbm(T, shrinkage=1, fmt=digits, default=lambda ti, n: [int((ti, q) == (i, p)) for q in range(n)])
            judge(ctx, txt, "LightGBM", BAD, "a default value at split %d of tree %d" % (p, i))
        old = formats.lightgbm(T, shrinkage=1, fmt=digits, old=True).split("has_categorical=0")
        judge(ctx, "has_categorical=0".join(old[:i + 1]) + "has_categorical=1" + "has_categorical=0".join(old[i + 1:]), "LightGBM", BAD, "categorical tree %d" % i)


_bytes = None


def formats_bytes():
    return _bytes


def cross_cases(t):
    global _bytes
    _bytes = coreml_text([1]).SerializeToString()
    yield "nomodel", (None,)
    for shp in universe(t):
        yield "cross", shp
        if any(s is not None for s in shp):
            yield "unsupported", shp


WIDE = [127, 128, 255, 256, 32766, 32767, 32768, 40000, 65535, 65536, 65537, 70000, 98304, 131072, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1,
        2 ** 33 + 7, 2 ** 48 + 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 80 + 2]


def check_wide(case, ctx):
    """Feature ids and references to children of every width: too large ones are rejected, not cut."""
    fmt, shp = case
    k = n_leaves(shp)
    for i in range(k - 1):
        for f in WIDE:
            T = [label(shp, [(f if j == i else j % 3, 0.5 + j) for j in range(k - 1)], [1.0 + j for j in range(k)]), ("L", 1.0)]
            if fmt == "Jforests":
                T[1] = (1, 0.5, ("L", 1.0), ("L", 2.0))
            if fmt == "CatBoost":
                if f >= 2 ** 64 or i:
                    continue
                L = [([(f, 0.5), (1, 1.5)], [1.0, 2.0, 3.0, 4.0]), ([(2, 1.0)], [5.0, 6.0])]
                data, T = formats.coreml(L), [formats.oblivious(*x) for x in L]
            elif fmt == "LightGBM":
                data = formats.lightgbm([label(shp, [(j % 3, 0.5 + j) for j in range(k - 1)], [1.0 + j for j in range(k)]), T[1]])
                line = [x for x in data.split("\n") if x.startswith("split_feature=")][0]
                ids = line[len("split_feature="):].split()
                ids[i] = str(f)
                data = data.replace(line, "split_feature=" + " ".join(ids), 1)
                T = [relabel(shp, [int(x) for x in ids]), T[1]]
            else:
                data = getattr(formats, {"QuickRank": "quickrank", "XGBoost": "xgboost", "Jforests": "jforests", "ScikitLearn": "sklearn"}[fmt])(T)
            judge(ctx, data, fmt, (f <= 32767, [(T, [1.0] * len(T))]) if f <= 32767 else BAD, "with feature %d at split %d" % (f, i), **({"base_score": 0.0} if fmt == "XGBoost" else {}))
    if fmt in ("LightGBM", "Jforests"):
        T = [label(shp, [(j % 3, 0.5 + j) for j in range(k - 1)], [1.0 + j for j in range(k)])] * 2
        data = formats.lightgbm(T) if fmt == "LightGBM" else formats.jforests(T)
        for side in ("left_child=", "right_child=") if fmt == "LightGBM" else ("<LeftChildren>", "<RightChildren>"):
            line = [x for x in data.split("\n") if side in x][0]
            head, rest = line.split(side)
            refs = rest.split("<")[0].split()
            for i in range(len(refs)):
                for d in (2 ** 8, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 63, 2 ** 64):
                    for s in (-1, 1):
                        new = refs[:i] + [str(int(refs[i]) + s * d)] + refs[i + 1:]
                        judge(ctx, data.replace(line, head + side + " ".join(new) + rest[len(" ".join(refs)):], 1), fmt, BAD, "with %s%s" % (side, " ".join(new)))


def relabel(shp, ids):
    return label(shp, [(f, 0.5 + j) for j, f in enumerate(ids)], [1.0 + j for j in range(n_leaves(shp))])


def units(tier):
    t = tier == "thorough"

    def over(fmts):
        for shp in universe(t):
            for f in fmts:
                if suits(f, [small(s) for s in shp]):
                    yield f, shp
    return [Unit("nomodel", lambda: cross_cases(t), check_cross),
            Unit("cut", lambda: over(TEXTS), check_cut),
            Unit("lines", lambda: over(("LightGBM", "XGBoost", "ScikitLearn")), check_lines),
            Unit("xml", lambda: over(("QuickRank", "Jforests")), check_xml),
            Unit("numbers", lambda: over(("LightGBM", "XGBoost", "ScikitLearn")), check_numbers),
            Unit("refs", lambda: refs_cases(t), check_refs),
            Unit("sequences", lambda: seq_cases(t), check_seq),
            Unit("numbering", lambda: ((s, 0) for s in universe(False) if n_leaves(s[0]) <= (4 if t else 3)), check_ids),
            Unit("wide", [(f, s) for s in all_shapes(5 if t else 4) if s is not None for f in EXT if f != "CatBoost" or s == (None, None)], check_wide),
            Unit("coreml", lambda: coreml_cases(t), check_coreml)]
