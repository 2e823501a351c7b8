"""Enumerators and builders shared by the checks."""
import itertools, os, tempfile
import numpy as np
from .core import require, Violation

LADDER = list(range(1, 71)) + [100, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]
SHORT_LADDER = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025]
MILLIONS = [1 << 20, (1 << 22) + 1]      # where sums of single-precision numbers lose their digits
GIANT = [32767, 32769, 65535, 65536, 70001]      # around the limits of 16-bit numbers


def scratch(suffix=""):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=os.environ["MC_SCRATCH"])
    os.close(fd)
    return p


def compositions(n, maxpart=None):
    """All ordered sequences of positive parts summing to n."""
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, maxpart or n) + 1):
        for r in compositions(n - k, maxpart):
            yield (k,) + r


def weak_orders(n):
    """All score patterns of n items up to order isomorphism (ties included), as rank tuples."""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        d = sorted(set(t))
        if d == list(range(len(d))):
            yield t


def make_X(n, f, base=0, dtype=np.float32):
    """A matrix whose every cell is distinct (up to 2**24 cells) and never 0."""
    return (np.arange(n * f, dtype=np.int64).reshape(n, f) * 0.25 + 0.25 + base).astype(dtype)


def floats(exps, mants):
    """Single-precision values with these biased exponents and mantissas."""
    b = (np.asarray(exps, dtype=np.uint32)[:, None] << 23) | np.asarray(mants, dtype=np.uint32)[None, :]
    return b.astype(np.uint32).view(np.float32)


def mantissas(t):
    """A lattice of mantissas: both ends, and two incommensurable strides."""
    n = 1 << 23
    m = list(range(64)) + list(range(n - 64, n)) + [k * (n // 2048) + 1 for k in range(2048)] + [k * (n // 1999) for k in range(1999)]
    if t:
        m += [(k * 2654435761) % n for k in range(40000)]
    m += [m[-1]] * (-len(m) % 8)
    return m


def expand(ids, sizes):
    return [q for q, s in zip(ids, sizes) for _ in range(s)]


WIDE_IDS = [(1, 2 ** 32 + 1, 2, 2 ** 32 + 2, 3 * 2 ** 32 + 1, 2 ** 31 + 1), (2 ** 31, 5, 2 ** 32 - 1, 4, 2 ** 32, 3),
            (2 ** 62, 7, -2 ** 40, -1, 2 ** 32 - 1, 2 ** 33 + 7)]


def idarr(ids, sizes):
    """The query id of each row, in 32 bits when they fit."""
    r = np.array(expand(ids, sizes), dtype=np.int64)
    return r.astype(np.int32) if all(-2 ** 31 <= q < 2 ** 31 for q in ids) else r


def layouts(X):
    """The same matrix in different memory layouts."""
    X = np.asarray(X)
    n, f = X.shape
    yield "C", np.ascontiguousarray(X)
    yield "F", np.asfortranarray(X)
    big = np.full((n * 2 + 1, f * 2 + 1), -77, dtype=X.dtype)
    big[1::2, 1::2] = X
    yield "strided", big[1::2, 1::2]
    yield "reversed", np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]


HUGE = [(2100, 2 ** 20), (4200, 2 ** 20), (70000, 40000), (120000, 40000)]      # around 2^31 and 2^32 cells


def with_huge(ctx, rows, cols, fn):
    """fn(X) on a matrix of zeros with more cells than 32 bits count: only the pages written or read take memory.
    Code that copies the matrix runs into the limit set on the address space: no verdict, the case does not count."""
    import resource
    old = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    X = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (now + 4 * rows * cols + (3 << 30), old[1]))
        X = np.zeros((rows, cols), dtype=np.float32)
        fn(X)
    except MemoryError:
        ctx.extra["out_of_memory"] = ctx.extra.get("out_of_memory", 0) + 1
    finally:
        del X
        resource.setrlimit(resource.RLIMIT_AS, old)


def same(a, b):
    """Exact equality of shape and values (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def rows_by_query(ds):
    """[(qid, X rows, y rows)] through the public iterator."""
    return [(int(q), np.array(ds.X[s:e]), np.array(ds.y[s:e])) for q, s, e in ds.query_iterator()]


class Snapshot:
    """Records a dataset's arrays; changed() tells what differs later."""
    def __init__(self, ds):
        self.ds = ds
        self.v = [np.array(a) for a in (ds.X, ds.y, ds.query_ids, ds.query_offsets)]
        self.m = (ds.name, ds.n_instances, ds.n_features, ds.n_queries)

    def check(self, what):
        ds = self.ds
        for n, a, b in zip(("X", "y", "query_ids", "query_offsets"), self.v,
                           (ds.X, ds.y, ds.query_ids, ds.query_offsets)):
            require(same(a, b), "%s modified the %s of its input dataset", what, n)
        require(self.m == (ds.name, ds.n_instances, ds.n_features, ds.n_queries), "%s modified its input dataset", what)


class ChosenRandom(np.random.RandomState):
    """A RandomState whose shuffles and permutations return the outcome chosen by the explorer."""
    def __new__(cls, perm):
        return np.random.RandomState.__new__(cls, 0)

    def __init__(self, perm):
        np.random.RandomState.__init__(self, 0)
        self.perm, self.used = list(perm), 0

    def _order(self, n):
        self.used += 1
        p = [i for i in self.perm if i < n]
        return np.array(p + [i for i in range(n) if i not in p], dtype=np.int64)

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return x[self._order(len(x))]

    def shuffle(self, x):
        x[:] = np.array(x)[self._order(len(x))]


class patched:
    """with patched((module, name, value), ...): temporary attribute replacement."""
    def __init__(self, *subs):
        self.subs = subs

    def __enter__(self):
        self.old = [(o, n, getattr(o, n)) for o, n, _ in self.subs]
        for o, n, v in self.subs:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)


def scribble(a):
    """Writes over an array (True) unless it cannot be written."""
    if not isinstance(a, np.ndarray) or not a.flags.writeable or not a.size:
        return False
    a[...] = 77
    return True


def independent(source, parts, what, labels=True, reverse=False):
    """The parts of a dataset have rows and ids of their own: writing into one changes neither the dataset nor another part, nor
    does writing into the dataset change the parts."""
    fields = ("X", "y", "query_ids", "query_offsets") if labels else ("X", "query_ids", "query_offsets")
    every = [("the dataset", source)] + [("part %d" % i, p) for i, p in enumerate(parts)]
    for wn, w in every[::-1] if reverse else every:
        others = [(n, f, getattr(o, f)) for n, o in every if o is not w for f in fields]
        before = [a.copy() for _, _, a in others]
        saved = [np.array(getattr(w, f)) for f in fields]
        for f in fields:
            scribble(getattr(w, f))
            for (n, g, a), b in zip(others, before):
                if not same(a, b):
                    raise Violation("%s: writing into %s of %s changes %s of %s" % (what, f, wn, g, n))
        for f, v in zip(fields, saved):
            getattr(w, f)[...] = v
