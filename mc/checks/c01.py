"""C01: SVMlight load fidelity."""
import bz2, gzip, io, itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C01", "exploration"
RULE = ("every sequence of up to N lines over the line alphabet (rows with every feature pattern, comments), every single and "
        "pairwise choice of decorations (separators, endings, trailing comments, number notations), every way of passing the "
        "file, a lattice of mantissas for every exponent of single precision, and ladders over rows, width, line length and query count; non-trivial: at least two data lines")
ASSUMPTIONS = ["well formed: indices positive, sorted, unique; comment lines start with '#'; ids fit 32 bits; all rows or no "
               "row carry a query id"]
FMAX = float(np.finfo(np.float32).max)

# feature patterns: [(index, text)]
FEATS = [(), ((1, "1"),), ((2, "0.5"),), ((1, "-2"), (3, "4.25")), ((4, "1e-2"),), ((1, "0"),), ((2, "3"), (3, "7"), (5, "-0.125"))]
NUMS = ["1", "0", "-1", "+3", "2.5", ".5", "-.25", "5.", "1e3", "1E-2", "-1.5e+2", "0.1", "123456789", "3.4e38", "-3.4e38",
        "1e-30", "16777217", "0.000001", "007", "1e39", "inf", "-inf", "1e-50", "65504.5", "-0"]


def value(t):
    v = np.float32(np.float64(t))
    return np.float32(FMAX) if v == np.inf else v


def render(rows, deco=None):
    """rows: list of ('#', text) or (label, qid or None, feats).  Returns (bytes, expected X, y, q)."""
    d = dict(sep=" ", end="\n", trail="", last=True)
    d.update(deco or {})
    out, y, q, fs = [], [], [], []
    for r in rows:
        if r[0] == "#":
            out.append("#" + r[1])
            continue
        lab, qid, feats = r
        toks = [lab] + (["qid:%d" % qid] if qid is not None else []) + ["%d:%s" % f for f in feats]
        out.append(d["sep"].join(toks) + d["trail"])
        y.append(np.float32(lab))
        if qid is not None:
            q.append(qid)
        fs.append(feats)
    text = d["end"].join(out) + (d["end"] if d["last"] else "")
    width = max([i for f in fs for i, _ in f] + [0])
    X = np.zeros((len(fs), width), dtype=np.float32)
    for i, f in enumerate(fs):
        for j, t in f:
            X[i, j - 1] = value(t)
    return text.encode(), X, np.array(y, dtype=np.float32), np.array(q, dtype=np.int64)


def verify(res, exp, what):
    X, y, q = exp
    require(len(res) == 3, "%s: %d results", what, len(res))
    require(res[0].shape == X.shape, "%s: matrix of shape %r, expected %r", what, res[0].shape, X.shape)
    require(res[0].dtype == np.float32, "%s: matrix of %s, which models do not score", what, res[0].dtype)
    bad = np.argwhere(~((res[0] == X) | ((X != X) & (res[0] != res[0]))))
    require(not len(bad), "%s: cell %r is %r, expected %r", what, bad[:1].tolist(),
            res[0][tuple(bad[0])] if len(bad) else 0, X[tuple(bad[0])] if len(bad) else 0)
    require(same(res[1], y), "%s: labels %r, expected %r", what, res[1][:10], y[:10])
    require(same(res[2], q), "%s: query ids %r, expected %r", what, res[2][:10], q[:10])


WAYS = ["bytesio", "path", "gz", "bz2", "file", "raw", "fd", "gzfile", "offset", "noqid", "dataset"]


def load(data, way, exp, what):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    from rankeval.dataset import Dataset
    ext = {"gz": ".gz", "bz2": ".bz2", "gzfile": ".gz"}.get(way, ".txt")
    if way == "bytesio":
        f = io.BytesIO(data)
        verify(load_svmlight_file(f, query_id=True), exp, what)
        require(not f.closed, "the caller's file was closed")
        return
    path = scratch(ext)
    try:
        with (gzip.open if ext == ".gz" else bz2.open if ext == ".bz2" else open)(path, "wb") as f:
            f.write((b"1 qid:77 1:77\n" if way == "offset" else b"") + data)
        if way in ("path", "gz", "bz2"):
            verify(load_svmlight_file(path, query_id=True), exp, what)
        elif way in ("file", "raw", "gzfile", "offset"):
            with (gzip.open(path) if way == "gzfile" else open(path, "rb", **({"buffering": 0} if way == "raw" else {}))) as f:
                if way == "offset":
                    f.readline()
                verify(load_svmlight_file(f, query_id=True), exp, what)
                require(not f.closed, "the caller's file was closed")
                f.tell()
        elif way == "fd":
            fd = os.open(path, os.O_RDONLY)
            try:
                verify(load_svmlight_file(fd, query_id=True), exp, what)
                os.fstat(fd)
            finally:
                os.close(fd)
        elif way == "noqid":
            r = load_svmlight_file(path)
            require(len(r) == 2, "query ids returned although not requested")
            verify(list(r) + [exp[2]], exp, what)
        elif way == "dataset":
            q = [int(x) for x in exp[2]]
            runs = [k for k, _ in itertools.groupby(q)]
            if len(set(runs)) == len(runs) and len(q) == len(exp[1]):
                ds = Dataset.load(path, name="foo")
                verify((ds.X, ds.y, ds.get_qids_dataset()), exp, what)
                require(ds.name == "foo" and [int(x) for x in ds.query_ids] == runs, "dataset queries %r", ds.query_ids)
                require(Dataset.load(open(path, "rb")) == ds, "Dataset.load of a file object differs")
    finally:
        os.unlink(path)


def check_rows(case, ctx):
    rows, deco, ways = case
    data, X, y, q = render(rows, deco)
    for w in ways:
        load(data, w, (X, y, q), "%s, %r" % (w, data[:200]))
        ctx.evaluated()
    if len(y) > 1:
        ctx.nontrivial(case)


LABELS = ["1", "0", "2.5", "-1"]
QIDS = [3, 3, 1, 12]


def sequences(nmax):
    kinds = list(range(len(FEATS))) + ["#"]
    for qid in (True, False):
        ks = kinds if qid else kinds[1:]
        for n in range(1, nmax + 1):
            for seq in itertools.product(ks, repeat=n):
                if all(s == "#" for s in seq):
                    continue
                rows = []
                for i, s in enumerate(seq):
                    if s == "#":
                        rows.append(("#", " 9 qid:9 9:9" if i % 2 else ""))
                    else:
                        rows.append((LABELS[i % 4], QIDS[i % 4] if qid else None, FEATS[s]))
                yield tuple(rows), None, ("bytesio",)


def decorated():
    seps = [" ", "\t", "  ", " \t ", "\x0b", "\x0c"]
    ends = ["\n", "\r\n"]
    trails = ["", " ", "\t ", " # note", "#x", " # docid = 7 qid:5 2:9", " #", " # a # b", " # \xe9\x00z"[:4]]
    bodies = [(("1", 4, FEATS[3]), ("0", 4, FEATS[6]), ("2", 2, FEATS[1])),
              (("#", "first"), ("1", 4, FEATS[0]), ("#", " mid"), ("0", 2, FEATS[6])),
              (("1", 4, FEATS[6]), ("0", 2, FEATS[0]))]
    for b in bodies:
        for s in seps:
            for e in ends:
                for t in trails:
                    for last in (True, False):
                        yield b, dict(sep=s, end=e, trail=t, last=last), ("bytesio", "path")
    for b in bodies + [(("1", None, FEATS[3]), ("0", None, FEATS[2]))]:
        for last in (True, False):
            yield b, dict(last=last), tuple(WAYS)


def numbers():
    for t in NUMS:
        for lay in range(3):
            f = [((1, t),), ((1, "1"), (3, t), (4, "2")), ((2, t), (3, "1"))][lay]
            yield (("1", 1, f), ("0", 1, ((1, "5"), (4, "6")))), None, ("bytesio", "path")
        if "inf" not in t and t not in ("1e39", "1e-50"):
            yield ((t, 1, ((1, "1"),)), ("1", 2, ((1, "2"),))), None, ("bytesio",)
            yield ((t, None, ((1, "1"),)), ("1", None, ((1, "2"),))), None, ("bytesio",)
    for a in NUMS:
        for b in NUMS:
            yield (("1", 5, ((1, a), (2, b))), ("2", 5, ((2, a), (3, b)))), None, ("bytesio",)
    for q in (0, 1, 2 ** 31 - 1, 10, 999999, 100000000, 42):
        for q2 in (0, 1, 2 ** 31 - 1, 7):
            yield (("1", q, ((1, "1"),)), ("1", q2, ((1, "1"),))), None, ("bytesio", "dataset")


def ladder_case(case, ctx):
    kind, n = case
    v = lambda i, j: "%g" % (((i * 31 + j * 7) % 4001) * 0.25 + 0.25)
    rows = []
    if kind == "rows":
        rows = [("%d" % (i % 5), 1 + i // 3, ((1, v(i, 1)), (3, v(i, 3)))) for i in range(n)]
    elif kind == "grow":
        rows = [("%d" % (i % 5), 1 + i // 2, ((1, v(i, 1)), (i + 1, v(i, 2)))[(i == 0):]) for i in range(min(n, 600))]
    elif kind == "shrink":
        m = min(n, 600)
        rows = [("%d" % (i % 5), 7, ((m - i, v(i, 2)),)) for i in range(m)]
    elif kind == "late":
        rows = [("1", 5, ()) for i in range(n)] + [("2", 5, ((2, "1.5"), (3, "9")))] + [("3", 6, ((1, "4"),)), ("1", 6, ((5, "1"),))]
    elif kind == "wide":
        rows = [("1", 2, tuple((j, v(i, j)) for j in range(1, n + 1, 1 + i))) for i in range(3)] + [("0", 9, ((n + 2, "1"),))]
    elif kind == "comment":
        rows = [("1", 2, ((1, "1"), (2, "2"))), ("#", "x" * n), ("2", 2, ((2, "3"),))]
    elif kind == "queries":
        rows = [("%d" % (i % 3), (i * 7919 + 13) % 1000003, ((1, v(i, 1)),)) for i in range(n)]
    elif kind == "onequery":
        rows = [("%d" % (i % 3), 5, ((1 + i % 4, v(i, 1)),)) for i in range(n)]
    deco = dict(trail=" #" + "c" * n) if kind == "comment" else None
    data, X, y, q = render(rows, deco)
    for w in ("bytesio", "path", "gz", "dataset"):
        load(data, w, (X, y, q), "%s ladder %d, %s" % (kind, n, w))
        ctx.evaluated()
    if n > 1:
        ctx.nontrivial(case)


def check_multi(case, ctx):
    from rankeval.dataset.svmlight_format import load_svmlight_files
    files, qid, gen = case
    data = [render(r) for r in files]
    width = max(d[1].shape[1] for d in data)
    src = [io.BytesIO(d[0]) for d in data]
    res = load_svmlight_files(iter(src) if gen else src, query_id=qid)
    k = 3 if qid else 2
    require(len(res) == k * len(files), "%d results for %d files", len(res), len(files))
    for i, (_, X, y, q) in enumerate(data):
        W = np.zeros((X.shape[0], width), np.float32)
        W[:, :X.shape[1]] = X
        r = res[i * k:(i + 1) * k]
        verify(list(r) + ([] if qid else [q]), (W, y, q), "file %d of %d" % (i, len(files)))
    ctx.evaluated()
    ctx.nontrivial(case)


def multi():
    files = [(("1", 1, FEATS[1]), ("0", 1, FEATS[2])), (("2", 4, FEATS[3]),), (("#", "c"), ("0", 2, FEATS[6]), ("1", 3, FEATS[0])),
             (("1", 9, FEATS[0]),)]
    for n in (1, 2, 3):
        for c in itertools.product(files, repeat=n):
            for qid in (True, False):
                for gen in (False, True):
                    yield c, qid, gen


def check_bits(case, ctx):
    e, t = case
    v = floats([e], mantissas(t)).ravel()
    v = np.where(np.arange(len(v)) % 2, v, -v).astype(np.float32)[:len(v) // 6 * 6].reshape(-1, 6)
    y = v[:, 2].copy()
    for fmt in ("%.9g", "%.17g", "%.12e"):
        data = "\n".join((fmt + " qid:%d " % (1 + i // 7) + " ".join("%d:" % (j + 1) + fmt for j in range(6))) % ((y[i],) + tuple(v[i]))
                         for i in range(len(v))).encode() + b"\n"
        load(data, "bytesio", (v, y, np.arange(len(v)) // 7 + 1), "values with exponent %d as %s" % (e, fmt))
        ctx.evaluated(v.size)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    ns = [n for n in LADDER] if t else [n for n in LADDER if n <= 40 or n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4097)]
    extra = [8191, 8192, 8193, 65535, 65536, 65537]
    return [Unit("line-sequences", lambda: sequences(5 if t else 4), check_rows),
            Unit("decorations", decorated, check_rows),
            Unit("numbers", numbers, check_rows),
            Unit("exponents", [(e, t) for e in range(255)], check_bits),
            Unit("several-files", multi, check_multi),
            Unit("ladder", lambda: [(k, n) for k in ("rows", "grow", "shrink", "late", "wide", "comment", "queries", "onequery") for n in ns]
                 + [("comment", n) for n in extra] + [("rows", n) for n in (extra if t else extra[:3])], ladder_case)]
