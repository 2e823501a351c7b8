"""C49: running in a notebook changes nothing but a progress bar."""
import itertools, os, pickle, struct, sys, types
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C49", "exploration"
RULE = ("every analysis of the universe (arguments x lists of datasets, models, metrics, steps, permutations, folds and rounds) run in "
        "every environment - plain interpreter, IPython terminal, another shell, notebook with progress bars, notebook without the widgets, "
        "notebook without IPython.display - each environment a process of its own that imports the package from scratch; tables (values, labels, errors) "
        "and the state of the random generator compared with the plain interpreter, the life of every progress bar monitored; "
        "non-trivial: the analysis shows a progress bar in the notebook")
ASSUMPTIONS = ["IPython and ipywidgets are replaced by recording stand-ins with their documented interface (they are not installed here)"]

MODES = ["plain", "terminal", "other", "notebook", "no widgets", "no display"]
BARS = []


class Bar(object):
    def __init__(self, value=None, min=0, max=100, **kw):
        d = self.__dict__
        d["min"], d["max"], d["log"], d["open"], d["shown"] = int(min), int(max), [], True, 0
        d["over"] = False
        d["bar_style"] = kw.get("bar_style", "")
        self.value = min if value is None else value
        BARS.append(self)

    def __setattr__(self, k, v):
        if k == "value":
            v = int(v)
            if not self.open:
                self.log.append("moved after it was closed")
            if not self.min <= v <= self.max:
                self.__dict__["over"] = True
                v = self.max if v > self.max else self.min
        if k == "bar_style" and v not in ("success", "info", "warning", "danger", ""):
            raise ValueError(v)
        self.__dict__[k] = v

    def close(self):
        self.__dict__["open"] = False


def environment(mode):
    """Installs the stand-ins (in a process that has not imported the package)."""
    shell = {"plain": None, "terminal": "TerminalInteractiveShell", "other": "SpyderShell"}.get(mode, "ZMQInteractiveShell")
    if shell is None:
        sys.modules["IPython"] = None
        return
    ip = types.ModuleType("IPython")
    inst = type(shell, (), {})()
    ip.get_ipython = lambda: inst
    ip.__path__ = []
    sys.modules["IPython"] = ip
    if mode != "no display":
        disp = types.ModuleType("IPython.display")

        def display(*a, **k):
            for b in a:
                b.__dict__["shown"] += 1
        disp.display = ip.display = display
        sys.modules["IPython.display"] = disp
    else:
        sys.modules["IPython.display"] = None
    if mode != "no widgets":
        w = types.ModuleType("ipywidgets")
        w.IntProgress = Bar
        sys.modules["ipywidgets"] = w
    else:
        sys.modules["ipywidgets"] = None


def things(nd, nm):
    from ..trees import auto, ensemble, mkds
    shp = [((None, None), None), (None, None), None, (None, (None, None)), (None, None)]
    models = [ensemble([auto(s, i + m) for i, s in enumerate(shp[:5 - 2 * m])], name="m%d" % m) for m in range(nm)]
    out = []
    for d in range(nd):
        n = 9 + d
        X = ((np.arange(n * 3) * (7 + d)) % 11 - 5).reshape(n, 3).astype(np.float32) * 0.5
        out.append(mkds(X, (np.arange(n) * (3 + d)) % 4, (3, 1, n - 6, 2)))
        out[-1].name = "d%d" % d
    return out, models


def metrics(k):
    from rankeval import metrics as m
    return [m.NDCG(cutoff=3), m.MSE(), m.Precision(cutoff=2), m.RMSE()][:k]


def algos(k):
    def mean(X, y, q, T):
        return np.full(len(T), y.mean(), dtype=np.float32)

    def near(X, y, q, T):
        return (T[:, 0] * y[:1].sum() + X[:, 1].sum()).astype(np.float32)
    return [mean, near][:k]


def evaluate(case):
    """What a user sees: the table, or the error."""
    import rankeval
    from rankeval.analysis import effectiveness as E, statistical as S
    kind, args = case
    del BARS[:]
    np.random.seed(12345)
    try:
        if kind == "is_notebook":
            return ("value", rankeval.is_notebook()), [], 0
        if kind == "tree":
            D, M = things(args[0], args[1])
            r = E.tree_wise_performance(D, M, metrics(args[2]), step=args[3])
        elif kind == "model":
            D, M = things(args[0], args[1])
            r = E.model_performance(D, M, metrics(args[2]))
        elif kind == "contribution":
            D, M = things(args[0], args[1])
            r = E.tree_wise_average_contribution(D, M)
        elif kind == "significance":
            D, M = things(args[0], 2)
            r = S.statistical_significance(D, M[0], M[1], metrics(args[1]), n_perm=args[2])
        else:
            D, M = things(args[0], 1)
            r = S.bias_variance(D, algos(args[1]), metrics(args[2]), L=args[3], k=args[4])
        out = ("table", r.name, r.dims, [[str(x) for x in r.coords[d].values] for d in r.dims], r.values.dtype.str, r.shape, r.values.tobytes())
    except Exception as e:
        out = ("error", type(e).__name__, str(e))
    bars = [(b.min, b.max, b.value, b.open, b.shown, b.over, b.bar_style, b.log) for b in BARS]
    return out, bars, float(np.random.random_sample())


SERVERS = {}


def server(mode):
    if (os.getpid(), mode) in SERVERS:
        return SERVERS[os.getpid(), mode]
    assert not any(k.split(".")[0] == "rankeval" for k in sys.modules), "the package is already imported"
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            environment(mode)
            fi, fo = os.fdopen(r1, "rb"), os.fdopen(w2, "wb")
            while True:
                h = fi.read(4)
                if len(h) < 4:
                    break
                case = pickle.loads(fi.read(struct.unpack("I", h)[0]))
                try:
                    data = pickle.dumps(evaluate(case))
                except Exception as e:
                    data = pickle.dumps((("import error", repr(e)), [], 0))
                fo.write(struct.pack("I", len(data)) + data)
                fo.flush()
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    SERVERS[os.getpid(), mode] = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")
    return SERVERS[os.getpid(), mode]


def ask(mode, case):
    fo, fi = server(mode)
    data = pickle.dumps(case)
    fo.write(struct.pack("I", len(data)) + data)
    fo.flush()
    h = fi.read(4)
    require(len(h) == 4, "%r in environment %r: the process died", case, mode)
    return pickle.loads(fi.read(struct.unpack("I", h)[0]))


def check(case, ctx):
    ref, bars, state = ask("plain", case)
    require(ref[0] != "import error", "the package does not import in a plain interpreter: %r", ref)
    require(not bars, "%r: progress bars in a plain interpreter", case)
    for mode in MODES[1:]:
        got, bars, st = ask(mode, case)
        note = mode in ("notebook", "no widgets", "no display")
        ctx.evaluated()
        ctx.trace()
        if case[0] == "is_notebook":
            require(got == ("value", note), "is_notebook() in environment %r is %r", mode, got)
            require(ref == ("value", False), "is_notebook() in a plain interpreter is %r", ref)
            continue
        require(got == ref, "%r in environment %r gives %r, in a plain interpreter %r", case, mode, got, ref)
        require(st == state, "%r in environment %r leaves the random generator in another state", case, mode)
        require(mode == "notebook" or not bars, "%r in environment %r shows progress bars", case, mode)
        for mn, mx, v, opened, shown, over, style, log in bars:
            require(shown == 1, "%r: a progress bar displayed %d times", case, shown)
            require(not over and not log, "%r: a progress bar moved out of its range %d..%d %s", case, mn, mx, log)
            require(got[0] == "error" or not opened, "%r: a progress bar is left open at %d of %d", case, v, mx)
            require(v > mn or mx == mn or got[0] == "error", "%r: a progress bar never moved", case)
        if bars:
            ctx.nontrivial(case)
        ctx.count("progress bars", len(bars))


def cases(t):
    yield "is_notebook", ()
    n = 3 if t else 2
    for nd, nm, k in itertools.product(range(1, n + 1), range(1, 3), range(1, 5 if t else 4)):
        yield "model", (nd, nm, k)
        yield "contribution", (nd, nm)
        for step in (1, 2, 3, 4, 5, 7, 100):
            yield "tree", (nd, nm, k, step)
    for nd, k in itertools.product(range(1, n + 1), range(1, 4)):
        for p in (1, 2, 3, 5, 7, 9, 10, 11, 15, 20, 25, 30, 99, 100, 101, 250) + (tuple(range(12, 99)) if t else ()):
            yield "significance", (nd, k, p)
    for nd, a, m in itertools.product(range(1, n), range(1, 3), range(1, 3)):
        for L in range(2, 6 if t else 4):
            for k in range(2, 7 if t else 6):
                yield "bias", (nd, a, m, L, k)


def units(tier):
    return [Unit("environments", lambda: cases(tier == "thorough"), check)]
