"""C03: dump then load."""
import bz2, gzip, io, itertools, os
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C03", "exploration"
RULE = ("every matrix up to 3x3 over the value alphabet (rows <= 2 exhaustively), every layout, dtype and sink, every label of "
        "the alphabet, query-id patterns, ladders over rows/columns, a lattice of mantissas for every exponent of single precision, and every write call of a dump failing; non-trivial: "
        "at least two cells")
ASSUMPTIONS = ["values are finite or -inf (the loader maps +inf to the largest finite value by design)"]

F32 = np.float32
VALS = [0.0, 1.0, -1.0, 0.5, 0.1, 1.0 / 3, 123456.789, 16777217.0, -2.5e-7, 3.0e38, 1e-38, 1.4e-45, 9.999999e9, 1e-5, 1e6, 0.30000001192]
SINKS = ["path", "gz", "bz2", "file", "fd", "stringio", "gzfile"]


def dump_load(X, y, q, sink, **kw):
    from rankeval.dataset.svmlight_format import dump_svmlight_file, load_svmlight_file
    if sink == "stringio":
        f = io.StringIO()
        dump_svmlight_file(X, y, f, query_id=q, **kw)
        require(not f.closed, "the caller's file was closed")
        return load_svmlight_file(io.BytesIO(f.getvalue().encode()), query_id=True)
    p = scratch({"gz": ".gz", "bz2": ".bz2", "gzfile": ".gz"}.get(sink, ".txt"))
    try:
        if sink in ("path", "gz", "bz2"):
            dump_svmlight_file(X, y, p, query_id=q, **kw)
        elif sink == "fd":
            fd = os.open(p, os.O_WRONLY | os.O_TRUNC)
            dump_svmlight_file(X, y, fd, query_id=q, **kw)
            os.close(fd)
        else:
            with (gzip.open(p, "wt") if sink == "gzfile" else open(p, "w")) as f:
                dump_svmlight_file(X, y, f, query_id=q, **kw)
                require(not f.closed, "the caller's file was closed")
        return load_svmlight_file(p, query_id=True)
    finally:
        os.unlink(p)


def verify(r, X, y, q, what):
    X, y = np.asarray(X).astype(F32), np.asarray(y).astype(F32)
    require(r[0].shape == X.shape, "%s: loaded shape %r, dumped %r", what, r[0].shape, X.shape)
    bad = np.argwhere(r[0] != X)
    require(not len(bad), "%s: cell %r loaded as %r, dumped %r", what, bad[:1].tolist(), r[0][tuple(bad[0])] if len(bad) else 0,
            X[tuple(bad[0])] if len(bad) else 0)
    require(same(r[1], y), "%s: labels %r, dumped %r", what, r[1][:8], y[:8])
    require(same(r[2], np.zeros(0) if q is None else q), "%s: query ids %r, dumped %r", what, r[2][:8], q)


def check_values(case, ctx):
    vals, shape, labels, qid = case
    X = np.array(vals, dtype=F32).reshape(shape)
    y = np.array(labels, dtype=F32)
    q = None if qid is None else np.array(qid, dtype=np.int32)
    verify(dump_load(X, y, q, "stringio"), X, y, q, "values %r" % (vals,))
    ctx.evaluated()
    if len(vals) > 1:
        ctx.nontrivial(case)


def values(t):
    for a in VALS:
        for b in VALS:
            for shape in ((1, 2), (2, 1)):
                yield (a, b), shape, (a, b)[:shape[0]], (3, 3)[:shape[0]]
                yield (-a, b), shape, (-b, 2)[:shape[0]], None
    alpha = [0.0, 1.0, -0.5, 0.1]
    for shape in ((1, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2), (4, 1)) + (((1, 4), (5, 1), (1, 5)) if t else ()):
        for v in itertools.product(alpha, repeat=shape[0] * shape[1]):
            yield v, shape, tuple(range(shape[0])), tuple(5 - i // 2 for i in range(shape[0]))
    for n in range(1, 5):
        for qs in itertools.product((0, 1, 12, 2147483647, -4), repeat=n):
            yield tuple(range(1, n + 1)), (n, 1), tuple([1] * n), qs


def check_bits(case, ctx):
    e, mants = case
    X = floats([e], mants).reshape(-1, 8)
    X = np.vstack([X, -X])
    y = X[:, 3].copy()
    verify(dump_load(X, y, None, "stringio"), X, y, None, "exponent %d" % e)
    ctx.evaluated(X.size)
    ctx.nontrivial((e, len(mants)))


def check_layout(case, ctx):
    n, f, sink = case
    base = make_X(n, f)
    ints = np.arange(n * f).reshape(n, f)
    y = (np.arange(n) % 5 * 0.5).astype(F32)
    q = np.array([3 + i // 2 for i in range(n)], dtype=np.int32)
    for src in (base, base.astype(np.float64), ints, ints.astype(np.int32), (ints % 2).astype(bool), base.astype(np.float16)):
        for name, X in layouts(src):
            for yname, yy in (("plain", y), ("strided", np.repeat(y, 2)[::2]), ("reversed", y[::-1].copy()[::-1]), ("float64", y.astype(float)),
                              ("list", y.tolist())):
                for qq in (q, np.repeat(q, 3)[::3], q.astype(np.int64), q.tolist(), None):
                    if not (name == "C" or yname == "plain"):
                        continue
                    c = (X.copy(), np.array(yy), None if qq is None else np.array(qq))
                    verify(dump_load(X, yy, qq, sink), c[0], c[1], c[2], "%s %s %s" % (name, src.dtype, yname))
                    require(same(X, c[0]) and same(yy, c[1]) and (qq is None or same(qq, c[2])), "dump modified its arguments")
                    ctx.evaluated()
                    ctx.nontrivial((case, name, str(src.dtype), yname, qq is None))
    Xl = base.tolist()
    verify(dump_load(Xl, y.tolist(), q.tolist(), sink), base, y, q, "lists")
    r = dump_load(base, y, q, sink, zero_based=True)
    verify(r, base, y, q, "zero-based")


def check_dataset(case, ctx):
    from rankeval.dataset import Dataset
    sizes, ids, lay, sink = case
    n = sum(sizes)
    ds = Dataset(dict(layouts(make_X(n, 3)))[lay], (np.arange(n) % 4).astype(F32), np.array(expand(ids, sizes), dtype=np.int32))
    snap = Snapshot(ds)
    p = scratch({"gz": ".gz", "bz2": ".bz2"}.get(sink, ".txt"))
    try:
        if sink == "file":
            with open(p, "w") as f:
                ds.dump(f)
        else:
            ds.dump(p)
        back = Dataset.load(p)
        snap.check("dump")
        require([(int(a), int(b), int(c)) for a, b, c in back.query_iterator()] ==
                [(int(a), int(b), int(c)) for a, b, c in ds.query_iterator()], "query structure changed")
        require(same(back.X, ds.X) and same(back.y, ds.y) and back == ds, "dataset changed by dump and load")
        back.dump(p)
        require(Dataset.load(p) == ds, "second round trip")
        sub = ds.subset_features([2, 0])
        sub.dump(p)
        require(same(Dataset.load(p).X, ds.X[:, [2, 0]]), "dump of a feature subset")
    finally:
        os.unlink(p)
    ctx.evaluated(3)
    ctx.nontrivial(case)


def datasets(nmax):
    for n in range(1, nmax + 1):
        for sizes in compositions(n):
            m = len(sizes)
            for ids in (tuple(range(1, m + 1)), tuple(range(m, 0, -1)), tuple((7 * i + 3) % 11 for i in range(m))):
                for lay in ("C", "F", "strided"):
                    yield sizes, ids, lay, ("path", "gz", "bz2", "file")[(n + m) % 4]
    for m in SHORT_LADDER:
        yield tuple(1 + i % 3 for i in range(m)), tuple((i * 7919 + 13) % 1000003 for i in range(m)), ("C", "F")[m % 2], "path"


def check_ladder(case, ctx):
    n, f, q = case
    X = make_X(n, f)
    y = (np.arange(n) % 7).astype(F32)
    qq = np.array([5 + i // 3 for i in range(n)], dtype=np.int32) if q else None
    verify(dump_load(X, y, qq, "path"), X, y, qq, "%d x %d" % (n, f))
    verify(dump_load(np.asfortranarray(X), y, qq, "stringio"), X, y, qq, "%d x %d" % (n, f))
    ctx.evaluated(2)
    ctx.nontrivial(case)


def check_wide(case, ctx):
    """Ids that do not fit the 32 bits of the format are refused, never written as those of another query."""
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    ids, how = case
    n = len(ids)
    X, y = make_X(n, 2), np.ones(n, F32)
    f = io.StringIO()
    try:
        if how == "dataset":
            Dataset(X, y, idarr(ids, [1] * n)).dump(f)
        else:
            dump_svmlight_file(X, y, f, query_id=idarr(ids, [1] * n) if how == "array" else list(ids))
    except Exception:
        require(not f.getvalue(), "rows of a refused dump written")
        fits = all(-2 ** 31 <= q < 2 ** 31 for q in ids)
        require(not fits, "ids %r refused", ids)
    else:
        back = [l.split()[1] for l in f.getvalue().splitlines()]
        require(back == ["qid:%d" % q for q in ids], "ids %r written as %r", ids, back)
    ctx.evaluated()
    ctx.nontrivial(case)


def wide(n):
    vals = (0, 1, 5, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33 + 5, -2 ** 31 - 1, -2 ** 32 + 1, 2 ** 62 + 5)
    for k in range(1, n + 1):
        for ids in itertools.permutations(vals, k):
            for how in ("dataset", "array", "list"):
                yield ids, how


def check_reject(case, ctx):
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    n, ny, nq = case
    f = io.StringIO()
    try:
        dump_svmlight_file(make_X(n, 2), np.ones(ny, F32), f, query_id=None if nq is None else np.ones(nq, np.int32))
    except Exception:
        pass
    else:
        raise Violation("%d rows with %d labels and %r query ids dumped" % case)
    ctx.evaluated()
    ctx.nontrivial(case)


class FailingSink(io.StringIO):
    def __init__(self, k):
        io.StringIO.__init__(self)
        self.k, self.n = k, 0

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise OSError(28, "No space left on device")
        return io.StringIO.write(self, s)


def check_fault(case, ctx):
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    n, k = case
    f = FailingSink(k)
    try:
        dump_svmlight_file(make_X(n, 2), np.ones(n, F32), f, query_id=np.ones(n, np.int32))
        ok = True
    except Exception:
        ok = False
    require(not (ok and f.n >= k), "failed write %d of %d rows was not reported", k, n)
    ctx.evaluated()
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("values", lambda: values(t), check_values),
            Unit("exponents", [(e, tuple(mantissas(t))) for e in range(255)], check_bits),
            Unit("layouts", [(n, f, s) for n in range(1, 5) for f in range(1, 4) for s in SINKS], check_layout),
            Unit("datasets", lambda: datasets(8 if t else 6), check_dataset),
            Unit("ladder", [(n, f, q) for n in (LADDER if t else SHORT_LADDER) for f in (1, 3) for q in (0, 1)] +
                 [(2, f, 1) for f in LADDER] + [(n, 1, 1) for n in GIANT] + [(2, f, 0) for f in GIANT], check_ladder),
            Unit("rejected", [(n, a, b) for n in (1, 2, 3) for a in range(5) for b in (None, 0, 1, 2, 3, 4)
                              if a != n or b not in (None, n)], check_reject),
            Unit("wide-ids", lambda: wide(3 if t else 2), check_wide),
            Unit("write-faults", [(n, k) for n in range(1, 12) for k in range(1, n + 1)], check_fault)]
