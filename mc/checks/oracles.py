"""Textbook definitions of the metrics, on the label sequence of a ranking (position 0 = top)."""
import itertools, math
import numpy as np


def rankings(labels, ranks):
    """Every label sequence of a ranking by descending score (ties broken in every way)."""
    groups = []
    for r in sorted(set(ranks), reverse=True):
        groups.append(sorted(set(itertools.permutations([l for l, x in zip(labels, ranks) if x == r]))))
    return [sum(c, ()) for c in itertools.product(*groups)]


def dcg(seq, k, impl):
    g = (lambda l: l) if impl == "flat" else (lambda l: 2.0 ** l - 1)
    return sum(g(l) / math.log(i + 2, 2) for i, l in enumerate(seq[:k]))


def ndcg(seq, k, impl, nrr):
    best = dcg(sorted(seq, reverse=True), k, impl)
    return dcg(seq, k, impl) / best if best else nrr


def precision(seq, k, thr):
    top = seq[:k]
    return sum(l >= thr for l in top) / float(len(top))


def recall(seq, k, thr, nrr):
    n = sum(l >= thr for l in seq)
    return sum(l >= thr for l in seq[:k]) / float(n) if n else nrr


def ap(seq, k, nrr):
    n = sum(l > 0 for l in seq)
    if not n:
        return nrr
    top = seq[:k]
    upto = list(itertools.accumulate(int(x > 0) for x in top))
    return sum(upto[i] / float(i + 1) for i, l in enumerate(top) if l > 0) / min(len(top), n)


def rr(seq, k, thr):
    return next((1.0 / (i + 1) for i, l in enumerate(seq[:k]) if l >= thr), 0.0)


def rbp(seq, k, thr, p):
    return (1 - p) * sum(p ** i for i, l in enumerate(seq[:k]) if l >= thr)


def pmax(seq, k):
    m = max(seq)
    return sum(l == m for l in seq[:k]) / float(len(seq[:k]))


def err(seq, k):
    m, p, out = 2.0 ** max(seq), 1.0, 0.0
    for i, l in enumerate(seq[:k]):
        r = (2.0 ** l - 1) / m
        out += p * r / (i + 1)
        p *= 1 - r
    return out


def pfound(seq, k, brk):
    m, p, out = 2.0 ** max(seq), 1.0, 0.0
    for l in seq[:k]:
        r = (2.0 ** l - 1) / m
        out += p * r
        p *= (1 - r) * (1 - brk)
    return out


def sse(y, s, top):
    return sum((float(y[i]) - float(s[i])) ** 2 for i in top)


def tops(ranks, k):
    """Every possible set (as sorted tuples) of the k top-ranked positions."""
    n = len(ranks)
    if k is None or k >= n:
        return [tuple(range(n))]
    out = set()
    order = sorted(set(ranks), reverse=True)
    base = []
    for r in order:
        g = [i for i in range(n) if ranks[i] == r]
        if len(base) + len(g) <= k:
            base += g
            continue
        return [tuple(sorted(base + list(c))) for c in itertools.combinations(g, k - len(base))]
    return [tuple(sorted(base))]


def tau_b(x, y):
    c = d = tx = ty = 0
    for i, j in itertools.combinations(range(len(x)), 2):
        a, b = np.sign(x[i] - x[j]), np.sign(y[i] - y[j])
        if a * b > 0:
            c += 1
        elif a * b < 0:
            d += 1
        elif a == 0 and b != 0:
            tx += 1
        elif b == 0 and a != 0:
            ty += 1
    den = math.sqrt((c + d + tx) * (c + d + ty))
    return (c - d) / den if den else float("nan")


def tau_few(x, y):
    """tau-b of labels x that take few values and any number of scores y, by classes of equal labels."""
    x, y = np.asarray(x), np.asarray(y)
    pairs = lambda v: sum(int(c) * (int(c) - 1) // 2 for c in np.unique(v, return_counts=True)[1])
    cls = [np.sort(y[x == v]) for v in np.unique(x)]
    c = d = 0
    for a, b in itertools.combinations(cls, 2):
        c += int(np.searchsorted(a, b, "left").sum())
        d += int((len(a) - np.searchsorted(a, b, "right")).sum())
    n0 = len(x) * (len(x) - 1) // 2
    den = math.sqrt((n0 - pairs(x)) * (n0 - pairs(y)))
    return (c - d) / den if den else float("nan")


def avg_ranks(x):
    if len(x) > 600:
        v, inv, cnt = np.unique(np.asarray(x), return_inverse=True, return_counts=True)
        return list((np.cumsum(cnt) - cnt + (cnt + 1) / 2.0)[inv])
    return [sum(1 for b in x if b < a) + (sum(1 for b in x if b == a) + 1) / 2.0 for a in x]


def rho(x, y):
    a, b = np.array(avg_ranks(x)), np.array(avg_ranks(y))
    a, b = a - a.mean(), b - b.mean()
    den = math.sqrt(float((a * a).sum() * (b * b).sum()))
    return float((a * b).sum()) / den if den else float("nan")


def close(a, b, tol=2e-6):
    a, b = float(a), float(b)
    return (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(b))
