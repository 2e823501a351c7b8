"""C34: rank correlations."""
import itertools
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *
from .oracles import *
from .c30 import arr, run, label_cases, big

PROPERTY, LEVEL = "C34", "exploration"
RULE = ("every label vector over the alphabets x every weak order of the scores (ties included) up to the bound, against the pairwise "
        "definition of tau-b and the correlation of average ranks; ladder over query sizes; non-trivial: labels and scores both differ")
ASSUMPTIONS = ["where the coefficient is undefined (all labels or all scores equal, or a single document) the value is not-a-number"]


def check(case, ctx):
    import warnings
    from rankeval.metrics import Kendalltau, SpearmanRho
    warnings.simplefilter("ignore")
    labels, _ = case
    n = len(labels)
    K, S = Kendalltau(), SpearmanRho()
    for j, ranks in enumerate(weak_orders(n)):
        y, s = arr(labels, ranks, j + n)
        run("Kendalltau", K, None, y, s, [tau_b(labels, ranks)], ctx, None)
        run("SpearmanRho", S, None, y, s, [rho(labels, ranks)], ctx, None)
        if len(set(labels)) > 1 and len(set(ranks)) > 1:
            ctx.nontrivial((labels, ranks))


def check_ladder(case, ctx):
    import warnings
    from rankeval.metrics import Kendalltau, SpearmanRho
    warnings.simplefilter("ignore")
    n, kind = case
    labels, ranks = big(n, kind)
    y, s = arr(labels, ranks, n)
    run("Kendalltau", Kendalltau(), None, y, s, [tau_b(labels, ranks) if n < 600 else tau_few(labels, ranks)], ctx, None)
    run("SpearmanRho", SpearmanRho(), None, y, s, [rho(labels, ranks)], ctx, None)
    run("Kendalltau", Kendalltau(), None, y, y, [1.0 if len(set(labels)) > 1 else float("nan")], ctx, None)
    run("SpearmanRho", SpearmanRho(), None, y, -y, [-1.0 if len(set(labels)) > 1 else float("nan")], ctx, None)
    ctx.nontrivial(case)


def units(tier):
    t = tier == "thorough"
    return [Unit("rankings", lambda: label_cases(t), check),
            Unit("ladder", [(n, k) for n in (LADDER if t else SHORT_LADDER) for k in ("mixed", "tied", "zeros", "last") if n <= (520 if t else 260)]
                 + [(n, k) for n in [1000, 1025, 4097] + GIANT for k in ("mixed", "tied", "zeros", "last")], check_ladder)]
