"""A stand-in for numpy's random functions whose outcomes are chosen by the explorer."""
import itertools
import numpy as np

_LEGACY, _GENERATOR = np.random.RandomState(1), np.random.default_rng(1)


class Rest:
    """What a stand-in does not enumerate is drawn for real."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_GENERATOR if hasattr(_GENERATOR, name) else _LEGACY, name)


class Bits:
    """Every draw of a fair coin takes the next bit of the stream; falls back to its start when exhausted."""
    def __init__(self, bits):
        self.bits, self.i = list(bits), 0

    def take(self, size, width):
        if size is None:
            b = self.bits[self.i % len(self.bits)]
            self.i += 1
            return b
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        n = int(np.prod(shape))
        v = np.array([self.bits[(self.i + k) % len(self.bits)] for k in range(n)], dtype=np.int64)
        self.i += n
        if len(shape) == 2 and shape[0] == width and shape[1] != width:      # drawn transposed
            return v.reshape(shape[::-1]).T
        return v.reshape(shape)


class Coin(Rest):
    """The coin-like functions of numpy.random (module, RandomState or Generator) over a Bits stream."""
    def __init__(self, bits, width):
        self.b, self.width = bits, width

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[self.b.take(size, self.width)]

    def randint(self, low, high=None, size=None, dtype=int, **k):
        lo, hi = (0, low) if high is None else (low, high)
        v = np.where(np.asarray(self.b.take(size, self.width)) > 0, hi - 1, lo).astype(dtype)
        return v if np.ndim(v) else v[()]

    integers = random_integers = randint

    def random(self, size=None, *a, **k):
        v = np.asarray(self.b.take(size, self.width)) * 0.5 + 0.25
        return v if np.ndim(v) else float(v)

    random_sample = sample = ranf = random

    def rand(self, *d):
        return self.random(d if d else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def binomial(self, n, p, size=None):
        return np.asarray(self.b.take(size, self.width)) * n

    def seed(self, *a, **k):
        pass


def coin_patches(coin):
    names = ("choice", "randint", "random", "random_sample", "sample", "ranf", "rand", "uniform", "binomial", "seed")
    subs = [(np.random, n, getattr(coin, n)) for n in names if hasattr(np.random, n)]
    return subs + [(np.random, "default_rng", lambda *a, **k: coin), (np.random, "RandomState", lambda *a, **k: coin)]


class Shuffles(Rest):
    """Permutations drawn one after the other from the given list (then the identity)."""
    def __init__(self, perms):
        self.perms, self.i = list(perms), 0

    def _next(self, n):
        p = self.perms[self.i] if self.i < len(self.perms) else range(n)
        self.i += 1
        p = [i for i in p if i < n]
        return np.array(p + [i for i in range(n) if i not in p], dtype=np.int64)

    def permutation(self, x, **k):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x[self._next(len(x))]

    def shuffle(self, x, **k):
        x[:] = np.array(x)[self._next(len(x))]

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[self._next(len(a))][:size]

    def seed(self, *a, **k):
        pass


def shuffle_patches(s):
    return [(np.random, n, getattr(s, n)) for n in ("permutation", "shuffle", "choice", "seed")] + \
           [(np.random, "default_rng", lambda *a, **k: s), (np.random, "RandomState", lambda *a, **k: s)]


class Chance(Rest):
    """Every random primitive of numpy.random, each call decided by elementary weighted choices that explore() enumerates depth first."""
    def __init__(self, cells=4):
        self.cells, self.trail, self.i, self.weight = cells, [], 0, 1.0

    def pick(self, weights):
        """Index of the outcome chosen at this choice point."""
        live = [j for j, w in enumerate(weights) if w > 0]
        if self.i == len(self.trail):
            self.trail.append([0, len(live)])
        j = live[self.trail[self.i][0]]
        self.i += 1
        self.weight *= float(weights[j]) / float(sum(weights))
        return j

    def explore(self, run, limit=5000):
        """[(probability, result of run())] over all outcomes; None when there are too many."""
        self.trail, out = [], []
        while len(out) < limit:
            self.i, self.weight = 0, 1.0
            r = run()
            del self.trail[self.i:]
            out.append((self.weight, r))
            while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                return out
            self.trail[-1][0] += 1
        return None

    @staticmethod
    def _shape(size):
        return () if size is None else (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)

    def _draw(self, weights, size):
        shape = self._shape(size)
        v = np.array([self.pick(weights) for _ in range(int(np.prod(shape)))], dtype=np.int64).reshape(shape)
        return v

    def _order(self, n, m):
        left = list(range(n))
        return np.array([left.pop(self.pick([1.0] * len(left))) for _ in range(m)], dtype=np.int64)

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if replace or size is None:
            return a[self._draw([1.0] * len(a) if p is None else list(p), size)]
        shape = self._shape(size)
        return a[self._order(len(a), int(np.prod(shape)))].reshape(shape)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False, **k):
        lo, hi = (0, low) if high is None else (low, high)
        v = (lo + self._draw([1.0] * (int(hi) + bool(endpoint) - int(lo)), size)).astype(dtype)
        return v if np.ndim(v) else v[()]

    integers = randint

    def random(self, size=None, *a, **k):
        v = (self._draw([1.0] * self.cells, size) + 0.5) / self.cells
        return v if np.ndim(v) else float(v)

    random_sample = sample = ranf = random

    def rand(self, *d):
        return self.random(d if d else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def binomial(self, n, p, size=None):
        from math import comb
        return self._draw([comb(n, i) * p ** i * (1 - p) ** (n - i) for i in range(n + 1)], size)[()]

    def permutation(self, x, **k):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x[self._order(len(x), len(x))]

    permuted = permutation

    def shuffle(self, x, **k):
        x[:] = np.array(x)[self._order(len(x), len(x))]

    def seed(self, *a, **k):
        pass


def chance_patches(c):
    names = ("choice", "randint", "random", "random_sample", "sample", "ranf", "rand", "uniform", "binomial", "permutation", "shuffle", "seed")
    subs = [(np.random, n, getattr(c, n)) for n in names if hasattr(np.random, n)]
    return subs + [(np.random, "default_rng", lambda *a, **k: c), (np.random, "RandomState", lambda *a, **k: c)]
