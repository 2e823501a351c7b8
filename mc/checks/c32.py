"""C32: ERR and Pfound."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .oracles import *
from .c30 import arr, run, label_cases, big, seq_of, cutoffs

PROPERTY, LEVEL = "C32", "exploration"
RULE = ("every label vector over the alphabets x every weak order of the documents (ties included) x every cutoff up to n+1 and none x "
        "every abandonment probability of the alphabet, against the cascade definitions on the rankings compatible with the scores; "
        "ladder over query sizes; non-trivial: labels differ")
ASSUMPTIONS = ["labels are >= 0, scores are numbers", "cutoff >= 1", "documents with equal scores may be ranked in any order among themselves",
               "the maximum grade is the highest label of the query, as the repository's tests require"]


def configs(ks):
    from rankeval.metrics import ERR, Pfound
    out = [("ERR", ERR(), "default", lambda q: err(q, None)), ("Pfound", Pfound(), "default", lambda q: pfound(q, None, 0.15))]
    for k in ks:
        out.append(("ERR", ERR(cutoff=k), (k,), lambda q, k=k: err(q, k)))
        for b in (0.15, 0.5, 0.0, 1.0, 0.9):
            out.append(("Pfound", Pfound(cutoff=k, p_abandonment=b), (k, b), lambda q, k=k, b=b: pfound(q, k, b)))
    return out


def check(case, ctx):
    labels, full = case
    n = len(labels)
    C = configs([None] + list(range(1, n + 2)))
    for j, ranks in enumerate(weak_orders(n)):
        y, s = arr(labels, ranks, j + n)
        seqs = rankings(labels, ranks)
        for name, m, c, f in C:
            run(name, m, c, y, s, [f(q) for q in seqs], ctx, None)
        if len(set(labels)) > 1:
            ctx.nontrivial((labels, ranks))


def check_ladder(case, ctx):
    n, kind = case
    labels, ranks = big(n, kind)
    y, s = arr(labels, ranks, n)
    q = seq_of(labels, ranks)
    for name, m, c, f in configs(cutoffs(n) if n < 5000 else [None, 10, n - 1]):
        run(name, m, c, y, s, [f(q)], ctx, None)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("rankings", lambda: label_cases(t), check),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) for k in ("mixed", "tied", "zeros", "last") if n <= (1100 if t else 300)]
                 + [(n, k) for n in (GIANT if t else GIANT[-1:]) for k in ("mixed", "tied", "last")], check_ladder)]
