"""C31: binary-relevance metrics."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .oracles import *
from .c30 import arr, run, label_cases, big, seq_of, cutoffs

PROPERTY, LEVEL = "C31", "exploration"
RULE = ("every label vector over the alphabets x every weak order of the documents (ties included) x every cutoff up to n+1 and none x "
        "every threshold, no-relevant value and persistence of the alphabets, for Precision, Recall, MAP, MRR, RBP and PrecisionMax, "
        "against the definitions on the rankings compatible with the scores; ladder over query sizes; non-trivial: labels differ")
ASSUMPTIONS = ["labels are >= 0, scores are numbers", "cutoff >= 1", "documents with equal scores may be ranked in any order among themselves",
               "MAP counts every label above 0 as relevant (it has no threshold)"]


def configs(ks, lean):
    from rankeval.metrics import Precision, Recall, MAP, MRR, RBP
    from rankeval.metrics.precision_max import PrecisionMax
    out = []
    for k in ks:
        for t in (1, 2) if lean else (1, 2, 0.5, 3):
            out.append(("Precision", Precision(cutoff=k, threshold=t), (k, t), lambda q, k=k, t=t: precision(q, k, t)))
            for v in (0.25,) if lean else (0.0, 1.0):
                out.append(("Recall", Recall(cutoff=k, threshold=t, no_relevant_results=v), (k, t, v), lambda q, k=k, t=t, v=v: recall(q, k, t, v)))
            out.append(("MRR", MRR(cutoff=k, threshold=t), (k, t), lambda q, k=k, t=t: rr(q, k, t)))
            for p in (0.5,) if lean else (0.8, 0.0):
                out.append(("RBP", RBP(cutoff=k, threshold=t, p=p), (k, t, p), lambda q, k=k, t=t, p=p: rbp(q, k, t, p)))
        for v in (0.25,) if lean else (0.0, 1.0):
            out.append(("MAP", MAP(cutoff=k, no_relevant_results=v), (k, v), lambda q, k=k, v=v: ap(q, k, v)))
        out.append(("PrecisionMax", PrecisionMax(cutoff=k), (k,), lambda q, k=k: pmax(q, k)))
    out += [("Precision", Precision(), "default", lambda q: precision(q, None, 1)), ("Recall", Recall(), "default", lambda q: recall(q, None, 1, 0.0)),
            ("MAP", MAP(), "default", lambda q: ap(q, None, 1.0)), ("MRR", MRR(), "default", lambda q: rr(q, None, 1)),
            ("RBP", RBP(), "default", lambda q: rbp(q, None, 1, 0.5))]
    return out


def check(case, ctx):
    labels, full = case
    n = len(labels)
    C = configs([None] + list(range(1, n + 2)), n >= 4)
    for j, ranks in enumerate(weak_orders(n)):
        y, s = arr(labels, ranks, j + n)
        seqs = rankings(labels, ranks)
        for name, m, c, f in C:
            run(name, m, c, y, s, [f(q) for q in seqs], ctx, None)
        if len(set(labels)) > 1:
            ctx.nontrivial((labels, ranks))


def check_ladder(case, ctx):
    n, kind = case
    labels, ranks = big(n, kind)
    y, s = arr(labels, ranks, n)
    q = seq_of(labels, ranks)
    for name, m, c, f in configs(cutoffs(n) if n < 5000 else [None, 10, n - 1], True):
        run(name, m, c, y, s, [f(q)], ctx, None)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("rankings", lambda: label_cases(t), check),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) for k in ("mixed", "tied", "zeros", "last") if n <= (1100 if t else 300)]
                 + [(n, k) for n in (GIANT if t else GIANT[-1:]) for k in ("mixed", "tied", "last")], check_ladder)]
