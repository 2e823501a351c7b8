"""C38: a write that fails is reported, and what it leaves behind is not taken for a complete file."""
import bz2, errno, gzip, io, itertools, os, resource
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from ..trees import *

PROPERTY, LEVEL = "C38", "fault_enumeration"
RULE = ("every writer (models, datasets to plain, .gz and .bz2 paths, descriptors and file objects, scikit-learn and graph exports) over the "
        "universe of objects, made to fail after every possible number of bytes (a real file size limit) and at every single operation on the file "
        "object; the failure must be raised, the object stays intact and can be written again in full; a model file or a compressed "
        "dataset cut at any byte is rejected when loaded; non-trivial: every byte limit at which something had been written")
ASSUMPTIONS = ["the file system reports a full disk on write or close, as it does a file size limit"]


class Limit:
    """No file can grow beyond n bytes."""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def universe(kind, i):
    if kind == "model":
        shp = [(None,), ((None, None),), (((None, None), None), None), ((None, None), (None, (None, None)), ((None, None), (None, None)))]
        if i < len(shp):
            T = [auto(s, j) for j, s in enumerate(shp[i])]
        else:
            T = [auto(all_shapes(4)[j % 9], j, scale=0.125) for j in range((20, 60, 150)[i - len(shp)])]
        return ensemble(T, [1.0 + 0.5 * (j % 3) for j in range(len(T))], name="w")
    n, f = ((1, 1), (3, 2), (6, 3), (4, 40), (200, 12), (900, 16))[i]
    X = ((np.arange(n * f).reshape(n, f) * 37) % 101 * 0.125 - 3).astype(F32)
    return mkds(X, np.arange(n) % 4, [1] * n if n < 3 else [n - 2, 2])


def intact(kind, obj):
    if kind == "model":
        return tuple(a.tobytes() for a in (obj.trees_root, obj.trees_weight, obj.trees_nodes_feature, obj.trees_nodes_value,
                                           obj.trees_left_child, obj.trees_right_child)) + (obj.n_trees, obj.n_nodes)
    return (obj.X.tobytes(), obj.y.tobytes(), obj.query_ids.tobytes(), obj.query_offsets.tobytes(), obj.name)


def write(what, obj, p):
    """One write of obj to the path p, by the API meant by what."""
    if what == "save":
        return obj.save(p)
    if what in ("dump", "gz", "bz2"):
        return obj.dump(p)
    if what == "descriptor":
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        try:
            return obj.dump(fd)
        finally:
            os.close(fd)
    if what == "object":
        with open(p, "w") as f:
            return obj.dump(f)
    if what == "unbuffered":
        with open(p, "w", buffering=1) as f:
            return obj.dump(f)
    if what == "graph":
        from rankeval.visualization.topological import export_graphviz
        return export_graphviz(obj, out_file=p)
    if what == "scikit":
        from . import c12
        from rankeval.model import ProxyScikitLearn
        return ProxyScikitLearn.export_scikit_model(obj, p)


SUFFIX = {"gz": ".gz", "bz2": ".bz2", "save": ".xml", "scikit": ".sk", "graph": ".dot"}
KIND = {"save": "model", "graph": "model", "scikit": "scikit"}


def thing(what, i):
    if what == "scikit":
        from .c12 import fake_model
        T = [auto(s, j) for j, s in enumerate([((None, None), None), None, (None, (None, None))][:i + 1])]
        return fake_model(T, 0.25, 0.1, "mean")
    return universe(KIND.get(what, "dataset"), i)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def content(what, data):
    """What the file holds (compressed files carry a time)."""
    return gzip.decompress(data) if what == "gz" else bz2.decompress(data) if what == "bz2" else data


def rejected(what, p, full, obj):
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    try:
        r = RTEnsemble(p) if what == "save" else Dataset.load(p)
    except Exception:
        return True
    if what == "save":
        return intact("model", r) == full_model(obj)
    return same(r.X, obj.X) and same(r.y, obj.y)


def full_model(obj):
    return intact("model", obj)


_full = {}


def complete(what, i, obj):
    if (what, i) not in _full:
        p = scratch(SUFFIX.get(what, ""))
        try:
            r = write(what, obj, p)
            require(what != "save" or r is True, "saving gives %r", r)
            _full[what, i] = read(p)
        finally:
            os.unlink(p)
    return _full[what, i]


def check_limit(case, ctx):
    what, i, lo, hi = case
    obj = thing(what, i)
    full = complete(what, i, obj)
    before = intact(KIND.get(what, "dataset"), obj) if what != "scikit" else None
    if hi is None:                                   # large objects: around every block of the buffers
        ks = sorted({k for b in range(0, len(full) + 1, 4096) for k in (b - 1, b, b + 1) if 0 <= k < len(full)} | {len(full) - 1, len(full) - 2})
    else:
        ks = range(lo, min(hi, len(full)))
    for k in ks:
        p = scratch(SUFFIX.get(what, ""))
        try:
            for existing in ((b"", b"x" * (len(full) + 5)) if k % 16 == 0 else (b"",)):
                with open(p, "wb") as f:
                    f.write(existing)
                try:
                    with Limit(k):
                        r = write(what, obj, p)
                except (OSError, RuntimeError):
                    pass
                else:
                    if what == "gz" and content(what, read(p)) == content(what, full):
                        continue                     # shorter: no name or time in the header
                    raise Violation("%s of %d bytes cannot write more than %d, yet it reports %r" % (what, len(full), k, r), key=what)
                left = read(p)
                ctx.faults += 1
                require(len(left) <= k or left == existing, "limit of %d bytes not enforced: %d", k, len(left))
                if what in ("save", "gz", "bz2") and left:
                    require(rejected(what, p, full, obj), "what is left of %s after a failure at byte %d is taken for a complete file", what, k, key=what)
                ctx.evaluated()
                if left:
                    ctx.nontrivial((what, i, k))
                if k % 16 == 0 or len(full) - k < 40:
                    r = write(what, obj, p)
                    require(what != "save" or r is True, "writing again after a failure gives %r", r)
                    require(content(what, read(p)) == content(what, full), "%s after a failure at byte %d does not write the same file", what, k)
            if before is not None:
                require(intact(KIND.get(what, "dataset"), obj) == before, "a failing %s changed its object", what)
        finally:
            os.unlink(p)


class Flaky(io.StringIO):
    """A text file whose k-th operation fails."""
    def __init__(self, k, exc):
        io.StringIO.__init__(self)
        self.k, self.exc, self.n = k, exc, 0

    def write(self, s):
        self.n += 1
        if self.n == self.k:
            raise self.exc
        return io.StringIO.write(self, s)


def check_flaky(case, ctx):
    i, exc = case
    obj = universe("dataset", i)
    before = intact("dataset", obj)
    probe = Flaky(-1, None)
    obj.dump(probe)
    for k in range(1, probe.n + 1):
        f = Flaky(k, exc)
        try:
            obj.dump(f)
        except BaseException:
            pass
        else:
            raise Violation("write %d of %d to a file object fails and dump does not tell" % (k, probe.n), key="flaky")
        require(f.n == k, "dump goes on writing after write %d failed", k)
        require(probe.getvalue().startswith(f.getvalue()), "before the failure, dump wrote something else")
        require(intact("dataset", obj) == before, "a failing dump changed its dataset")
        ctx.faults += 1
        ctx.evaluated()
        ctx.nontrivial((i, repr(exc), k))
    g = io.StringIO()
    obj.dump(g)
    require(g.getvalue() == probe.getvalue(), "after the failures dump writes something else")


def check_cut(case, ctx):
    """A model or a compressed dataset cut at any byte (the writer was killed)."""
    what, i, lo, hi = case
    obj = thing(what, i)
    full = complete(what, i, obj)
    p = scratch(SUFFIX.get(what, ""))
    try:
        for k in range(lo, min(hi, len(full))):
            with open(p, "wb") as f:
                f.write(full[:k])
            if what != "save" and k == 0:
                continue
            require(rejected(what, p, full, obj), "the first %d of %d bytes of a %s file are taken for a complete file", k, len(full), what, key=what)
            ctx.faults += 1
            ctx.evaluated()
            ctx.nontrivial((what, i, k))
        with open(p, "wb") as f:
            f.write(full)
        require(rejected(what, p, full, obj), "the complete file is not read back")
    finally:
        os.unlink(p)


def ranges(what, i, step=200):
    n = len(complete(what, i, thing(what, i)))
    for lo in range(0, n, step):
        yield what, i, lo, lo + step


def prepare():
    from . import c12
    getattr(c12, "prepare", lambda: None)()


def limit_cases(t):
    for what, small, large in (("save", range(5 if t else 4), range(4, 7)), ("dump", range(5 if t else 4), (4, 5)), ("gz", range(5 if t else 4), (4, 5)),
                               ("bz2", range(5 if t else 4), (4, 5)), ("descriptor", range(4), (4, 5)), ("object", range(4), (4,)), ("unbuffered", range(3), ()),
                               ("graph", range(4), (4,)), ("scikit", range(3), ())):
        for i in small:
            for c in ranges(what, i):
                yield c
        for i in large:
            yield what, i, 0, None


def cut_cases(t):
    for what, n in (("save", 6 if t else 5), ("gz", 6 if t else 5), ("bz2", 6 if t else 5)):
        for i in range(n):
            for c in ranges(what, i):
                yield c


def units(tier):
    t = tier == "thorough"
    excs = [OSError(errno.ENOSPC, "full"), IOError(errno.EIO, "I/O"), ValueError("closed"), KeyboardInterrupt(), MemoryError()]
    return [Unit("limits", lambda: limit_cases(t), check_limit), Unit("objects", lambda: itertools.product(range(5), excs), check_flaky),
            Unit("cuts", lambda: cut_cases(t), check_cut)]
