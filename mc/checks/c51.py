"""C51: what an operation opens or allocates is given back, and what it is given stays usable."""
import ctypes, errno, gc, io, itertools, os, sys, warnings, weakref
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *
from . import c37, c50

PROPERTY, LEVEL = "C51", "fault_enumeration"
RULE = ("every operation, every rejected call, every malformed input and every point at which reading or writing a file object can fail; before and "
        "after each call the open descriptors and the references to every argument are compared, given files must stay open and usable, repeated calls "
        "must not keep allocating (exact counts of live blocks of the interpreter and of bytes of the native heap), loaded arrays must stay intact "
        "while others come and go; datasets must be released with the results unless the scores were to be cached; non-trivial: every call")
ASSUMPTIONS = ["an operation that never reaches a batch of calls without growth in 14 batches leaks", "figures are closed by the caller"]


class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = MI


def native():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def fds():
    """Open descriptors and what they refer to."""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if not t.endswith("/fd"):
            out.append((int(n), t))
    return sorted(out)


def attempt(f):
    try:
        return f()
    except Exception as e:
        e.__traceback__ = None
        return None


def leaks(f, batch=24, batches=14):
    """What every batch of calls leaves behind, or None."""
    for _ in range(12):
        f()
    gc.collect()
    why = None
    for _ in range(batches):
        gc.collect()
        a, b = sys.getallocatedblocks(), native()
        for _ in range(batch):
            f()
        gc.collect()
        d = sys.getallocatedblocks() - a, native() - b
        if d[0] < batch and d[1] < 16 * batch:
            return None
        why = d
    return "%d blocks of the interpreter and %d native bytes in %d calls" % (why + (batch,))


# ---------------------------------------------------------------- operations
_w = {}


def op_world():
    if "w" not in _w:
        c50.ops()
        _w["w"] = c50.World()
    return _w["w"]


def check_op(case, ctx):
    name, = case
    w, f = op_world(), c50.ops()[case[0]]
    from matplotlib import pyplot as plt

    def call():
        np.random.seed(5)
        r = f(w)
        if hasattr(r, "savefig"):
            plt.close("all")
        del r
    np.random.seed(5)
    call()
    gc.collect()
    before = fds()
    call()
    gc.collect()
    require(fds() == before, "%s leaves descriptors open: %r", name, sorted(set(fds()) - set(before)))
    args = [w.ds, w.ds2, w.ds.X, w.ds.y, w.ds.query_ids, w.ds2.X, w.ds2.y, w.m, w.m2, w.m.trees_nodes_value, w.m.trees_weight, w.y, w.leaves, w.names]
    for _ in range(3):                      # caches settle
        call()
    gc.collect()
    r0 = [sys.getrefcount(a) for a in args]
    for _ in range(5):
        call()
    gc.collect()
    r1 = [sys.getrefcount(a) for a in args]
    require(all(b - a < 5 for a, b in zip(r0, r1)), "%s keeps (or drops) references to its arguments: %r -> %r", name, r0, r1)
    require(all(b - a > -5 for a, b in zip(r0, r1)), "%s drops references to its arguments: %r -> %r", name, r0, r1)
    if not name.startswith("plot"):
        why = leaks(call, batch=24)
        require(why is None, "%s does not give back what it allocates: %s", name, why)
    w.m.clear_cache()
    w.m2.clear_cache()
    ctx.evaluated()
    ctx.nontrivial(name)
    ctx.count("operations")


def check_bad(case, ctx):
    names = case
    B = c37.names("bad")
    w = c37.World()
    try:
        for name in names:
            call = lambda: attempt(lambda: B[name](w))
            call()
            gc.collect()
            before = fds()
            call()
            gc.collect()
            require(fds() == before, "the rejected %r leaves descriptors open: %r", name, sorted(set(fds()) - set(before)))
            why = leaks(call, batch=16)
            require(why is None, "the rejected %r does not give back what it allocates: %s", name, why)
            ctx.faults += 1
            ctx.evaluated()
            ctx.nontrivial(name)
    finally:
        w.close()


# ---------------------------------------------------------------- file objects that fail
TEXT = b"1 qid:1 1:0.5 2:2\n0 qid:1 1:-1\n# comment\n2 qid:3 2:4 3:1\n3 qid:3 1:1\n"
LINES = [b"1 qid:1 1:0.5 2:2\n", b"x\n", b"1\n", b"1 qid:1 2:1 1:1\n", b"1 qid:1 1:x\n", b"# only\n", b"\n", b"1 qid:1 1:1 # c\n", b"0 qid:2 5:1\n", b"\xff\xfe\n", b"1 1:1\n"]


class Source(io.BytesIO):
    """A binary file whose k-th line cannot be read, or is not bytes."""
    def __init__(self, data, k, what):
        io.BytesIO.__init__(self, data)
        self.k, self.what, self.n = k, what, 0

    def readline(self, *a):
        self.n += 1
        if self.n == self.k:
            if isinstance(self.what, BaseException):
                raise type(self.what)(*self.what.args)
            return self.what
        return io.BytesIO.readline(self, *a)


class Sink(io.StringIO):
    def __init__(self, k, exc):
        io.StringIO.__init__(self)
        self.k, self.exc, self.n = k, exc, 0

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise type(self.exc)(*self.exc.args)
        return io.StringIO.write(self, s)


def check_source(case, ctx):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    data, k, what = case
    if isinstance(data, tuple):
        data = b"".join(LINES[i] for i in data)

    def call():
        f = Source(data, k, what)
        r = attempt(lambda: load_svmlight_file(f, query_id=True))
        require(not f.closed, "loading closes the file object it was given")
        require(sys.getrefcount(f) <= 3, "loading keeps %d references to the file object it was given", sys.getrefcount(f) - 2)
        return r is not None
    call()
    why = leaks(call, batch=16)
    require(why is None, "loading %r, line %d being %r, does not give back what it allocates: %s", data, k, what, why)
    ctx.faults += 1
    ctx.evaluated()
    ctx.nontrivial((data, k, repr(what)))
    ctx.count("loads_that_succeed" if call() else "loads_that_fail")


def check_sink(case, ctx):
    n, k, exc = case
    ds = mkds(make_X(n, 3), np.arange(n) % 3, [n])

    def call():
        f = Sink(k, exc)
        attempt(lambda: ds.dump(f))
        require(not f.closed, "dumping closes the file object it was given")
        require(sys.getrefcount(f) <= 3, "dumping keeps %d references to the file object it was given", sys.getrefcount(f) - 2)
    call()
    why = leaks(call, batch=16)
    require(why is None, "dumping %d documents, write %d failing, does not give back what it allocates: %s", n, k, why)
    ctx.faults += 1
    ctx.evaluated()
    ctx.nontrivial((n, k, repr(exc)))


# ---------------------------------------------------------------- data that nobody asked to keep
def keepers():
    """Operations on (dataset, model, metric, keywords); the first ones may keep their scores if asked to."""
    from rankeval.analysis import effectiveness as E, feature as Fe, statistical as S
    cached = {
        "score": lambda d, m, x, **k: m.score(d, **k), "detailed score": lambda d, m, x, **k: m.score(d, True, **k),
        "model_performance": lambda d, m, x, **k: E.model_performance([d], [m], [x], **k),
        "tree_wise_performance": lambda d, m, x, **k: E.tree_wise_performance([d], [m], [x], 1, **k),
        "tree_wise_average_contribution": lambda d, m, x, **k: E.tree_wise_average_contribution([d], [m], **k),
        "query_wise_performance": lambda d, m, x, **k: E.query_wise_performance([d], [m], [x], **k),
        "query_class_performance": lambda d, m, x, **k: E.query_class_performance([d], [m], [x], [["a", "b", "a"]], **k),
        "document_graded_relevance": lambda d, m, x, **k: E.document_graded_relevance([d], [m], **k),
        "rank_confusion_matrix": lambda d, m, x, **k: E.rank_confusion_matrix([d], [m], **k),
        "statistical_significance": lambda d, m, x, **k: S.statistical_significance([d], m, m, [x], 3, **k),
        "statistical_significance of two": lambda d, m, x, **k: S.statistical_significance([d], m.copy(1), m, [x], 3, **k)}
    algo = lambda X, y, q, Z: Z[:, 0] * 2
    plain = {
        "feature_importance": lambda d, m, x: Fe.feature_importance(m, d), "feature_importance of a metric": lambda d, m, x: Fe.feature_importance(m, d, x),
        "bias_variance": lambda d, m, x: S.bias_variance([d], [algo], [x], 2, 2), "eval": lambda d, m, x: x.eval(d, d.y),
        "split": lambda d, m, x: d.split(0.4, 0.3, 1), "kfold": lambda d, m, x: list(d.kfold(3)), "subset": lambda d, m, x: d.subset([1, 9]),
        "equality": lambda d, m, x: (d == d.subset([1, 9]), hash(d), str(d))}
    return cached, plain


def check_kept(case, ctx):
    """Whatever an operation looked at is released with its result, unless it was asked to cache the scores: then with the cache."""
    from rankeval import metrics as M
    name, how, metric = case
    cached, plain = keepers()
    f = cached.get(name) or plain[name]
    kw = {"False": {"cache": False}, "True": {"cache": True}}.get(how, {})
    m = ensemble([(0, 2.5, ("L", 1.0), ("L", 2.0)), (1, 0.5, ("L", 0.5), ("L", 0.25))])
    x = {"DCG": M.DCG, "MRR": M.MRR, "MSE": M.MSE, "ERR": M.ERR}[metric]()
    from rankeval.dataset import Dataset
    d = Dataset(make_X(6, 3), np.arange(6, dtype=F32) % 3, np.array([1, 1, 9, 9, 4, 4]))
    np.random.seed(1)
    refs = [weakref.ref(d.X), weakref.ref(d.y)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = f(d, m, x, **kw)
    del r, d
    if how == "True":
        m.clear_cache()
    gc.collect()
    require(all(ref() is None for ref in refs), "%s (%s) keeps the dataset it was given%s", name, "cache left out" if how == "default" else "cache=%s" % how if kw else "no cache",
            " even after clear_cache" if how == "True" else "")
    require(m.n_trees == 2 and x is not None, "the ensemble changed")
    ctx.evaluated()
    ctx.nontrivial(case)


def kept_cases():
    cached, plain = keepers()
    for metric in ("DCG", "MRR", "MSE", "ERR"):
        for name in cached:
            for how in ("default", "False", "True"):
                yield name, how, metric
        for name in plain:
            yield name, "none", metric


# ---------------------------------------------------------------- given files and descriptors
def check_given(case, ctx):
    """Files and descriptors that are given stay open, whatever happens; those opened by path are closed."""
    from rankeval.dataset import Dataset
    how, what, data = case
    p = scratch({"gz": ".gz", "bz2": ".bz2"}.get(how, ""))
    ds = mkds(make_X(4, 3), np.arange(4) % 3, [1, 3])
    try:
        if what == "load":
            import gzip, bz2
            with open(p, "wb") as f:
                f.write(gzip.compress(data) if how == "gz" else bz2.compress(data) if how == "bz2" else data)
        gc.collect()
        before = fds()
        warnings.simplefilter("error", ResourceWarning)
        seen = []
        old, sys.unraisablehook = sys.unraisablehook, lambda u: seen.append(repr(u.exc_value))
        try:
            if how in ("path", "gz", "bz2"):
                attempt(lambda: Dataset.load(p) if what == "load" else ds.dump(p))
            elif how == "descriptor":
                fd = os.open(p, os.O_RDWR)
                attempt(lambda: Dataset.load(fd) if what == "load" else ds.dump(fd))
                try:
                    os.fstat(fd)
                except OSError:
                    raise Violation("%s closes the descriptor it was given" % what)
                os.close(fd)
            else:
                f = open(p, "rb" if what == "load" else "w")
                attempt(lambda: Dataset.load(f) if what == "load" else ds.dump(f))
                require(not f.closed, "%s closes the file it was given", what)
                f.close()
            gc.collect()
        finally:
            sys.unraisablehook = old
            warnings.simplefilter("ignore")
        require(not seen, "%s from a %s leaves its file to the garbage collector: %r", what, how, seen)
        require(fds() == before, "%s (%s) leaves descriptors open: %r", what, how, sorted(set(fds()) - set(before)))
    finally:
        os.unlink(p)
    ctx.evaluated()
    ctx.nontrivial(case)


# ---------------------------------------------------------------- ownership of the loaded arrays
def check_own(case, ctx):
    """Arrays of several loads live and die in every order; those alive stay intact and can be written."""
    from rankeval.dataset import Dataset
    sizes, order = case
    texts, sets, want = [], [], []
    for j, n in enumerate(sizes):
        text = b"".join(b"%d qid:%d 1:%d 2:%d\n" % (i % 3, i // 2 + 1, i + 1000 * j, 7 * i + j) for i in range(n))
        d = Dataset.load(io.BytesIO(text))
        sets.append(d)
        X = np.array([[i + 1000 * j, 7 * i + j] for i in range(n)], dtype=F32)
        want.append((X, np.array([i % 3 for i in range(n)], dtype=F32)))
    def intact(when):
        for d, (X, y) in zip(sets, want):
            if d is not None:
                require(same(d.X, X) and same(d.y, y), "an array loaded from a file changed when %s", when)
    intact("others were loaded")
    junk = []
    for j in order:
        if j % 2:                           # only a part of the dataset survives
            part = sets[j].X[1:], sets[j].y[:1]
            copies = part[0].copy(), part[1].copy()
            sets[j] = None
            junk.append((part, copies))
        sets[j] = None
        gc.collect()
        junk.append((None, np.full(2 * sizes[j], 9, dtype=F32)))
        intact("another one was released")
        for part, copies in junk:
            if part is not None:
                require(same(part[0], copies[0]) and same(part[1], copies[1]), "a part of a loaded array changed when the dataset was released")
    d = Dataset.load(io.BytesIO(b"1 qid:1 1:1 2:2\n"))
    require(d.X.flags.writeable and d.y.flags.writeable and not np.shares_memory(d.X, d.y), "loaded arrays share memory or cannot be written")
    ctx.evaluated()
    ctx.nontrivial(case)


def given_cases():
    datas = [TEXT, b"", b"x", b"1 qid:1 2:1 1:1\n", TEXT * 3 + b"1 qid:1 a:1\n", b"#\n"]
    for how in ("path", "gz", "bz2", "descriptor", "object"):
        for d in datas:
            yield how, "load", d
        yield how, "dump", b""


def own_cases(t):
    for sizes in itertools.product((1, 3, 40), repeat=3):
        for order in itertools.permutations(range(3)):
            yield sizes, order
    for sizes in ((5000, 1, 5000, 2), (20000, 20000, 1, 3)):
        for order in itertools.permutations(range(4)):
            yield sizes, order


def source_cases(t):
    whats = [OSError(errno.EIO, "read error"), ValueError("closed"), "text instead of bytes", None, 7, MemoryError(), EOFError()]
    for k in range(1, 8):
        for what in whats:
            yield TEXT, k, what
    for n in (1, 2, 3) if t else (1, 2):
        for c in itertools.product(range(len(LINES)), repeat=n):
            yield c, 0, None
    for n in (50, 300):
        for last in range(len(LINES)):
            yield tuple([0] * n + [last]), 0, None


def sink_cases():
    for n in (1, 2, 5):
        for k in range(0, n + 2):
            for exc in (OSError(errno.ENOSPC, "full"), ValueError("closed"), MemoryError()):
                yield n, k, exc


def units(tier):
    t = tier == "thorough"
    bad = list(c37.names("bad"))
    return [Unit("operations", lambda: [(n,) for n in c50.ops()], check_op, stall=300),
            Unit("rejected", lambda: [tuple(bad[i:i + 4]) for i in range(0, len(bad), 4)], check_bad, stall=300),
            Unit("sources", lambda: source_cases(t), check_source), Unit("sinks", sink_cases, check_sink),
            Unit("kept", kept_cases, check_kept), Unit("given", given_cases, check_given), Unit("ownership", lambda: own_cases(t), check_own)]
