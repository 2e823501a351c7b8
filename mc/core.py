"""The exploration engine: units enumerate cases exhaustively, workers run them, a supervisor watches the workers.

A check module (mc/checks/<id>.py) defines
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    units(tier) -> list of Unit
A Unit enumerates its cases (picklable, deterministic order) and checks one case at a time against an oracle.
Case i of a unit is run by worker i % N.  A case that raises, returns a wrong result, kills the process or never ends is a
violation; its case is written to a replay file.
"""
import base64, hashlib, importlib, itertools, json, mmap, os, pickle, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  key names the specific failing input / call site / history (for known findings)."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg, self.key = msg, key


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key)


class Unit:
    """name, cases() -> iterable, check(case, ctx).  stall: seconds without progress that count as non-termination."""
    def __init__(self, name, cases, check, stall=90, stride=1, prepare=None):
        self.name, self._cases, self._check, self.stall, self.stride = name, cases, check, stall, stride
        self.prepare = prepare

    def cases(self):
        return self._cases() if callable(self._cases) else self._cases

    def check(self, case, ctx):
        return self._check(case, ctx)


def h8(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Ctx:
    """Per-worker accounting; counts are what really ran."""
    def __init__(self, unit=None):
        self.evaluations = 0
        self.distinct = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.faults = 0
        self.extra = {}
        self.unit = unit
        self.beat = lambda: None

    def evaluated(self, n=1):
        self.evaluations += n
        self.beat()

    def nontrivial(self, key):
        self.distinct.add(h8((self.unit, key)))

    def state(self, key):
        """True when the abstract state was not seen before (by this worker)."""
        k = h8((self.unit, key))
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def transition(self, n=1):
        self.transitions += n
        self.beat()

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for f in reversed(tb):
        if "/rankeval/" in f.filename and "/mc/" not in f.filename:
            where = " at %s:%s" % (f.filename.split("/rankeval/", 1)[1], f.name)
            break
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:300], where)


def explore_choices(run, max_runs=None):
    """Stateless DFS over choice points: run(choose) is executed once per leaf of the choice tree.

    choose(n) returns every value 0..n-1 over the successive executions.  Returns the number of executions.
    """
    prefix, runs = [], 0
    while True:
        path = []

        def choose(n):
            i = len(path)
            v = prefix[i][0] if i < len(prefix) else 0
            if i < len(prefix) and prefix[i][1] != n:
                raise RuntimeError("non-deterministic choice tree")
            path.append((v, n))
            return v

        run(choose)
        runs += 1
        while path and path[-1][0] + 1 >= path[-1][1]:
            path.pop()
        if not path or (max_runs and runs >= max_runs):
            return runs
        v, n = path.pop()
        prefix = path + [(v + 1, n)]


# ---------------------------------------------------------------- workers
SLOT = 1 << 16


class Shared:
    """One slot per worker: progress counter, unit index, case index (so a dead or stuck worker's case is known)."""
    def __init__(self, n):
        self.m = mmap.mmap(-1, SLOT * n)

    def put(self, w, beat, unit, case):
        struct.pack_into("qqq", self.m, w * SLOT, beat, unit, case)

    def get(self, w):
        return struct.unpack_from("qqq", self.m, w * SLOT)


def worker(w, n, units, outdir, shared, deadline, maxviol, skip, known):
    out = {"violations": [], "known": {}, "units": {}, "done": [], "truncated": []}
    ctx = Ctx()
    beat = [0]
    cur = [0, 0]

    def tick():
        beat[0] += 1
        shared.put(w, beat[0], cur[0], cur[1])

    ctx.beat = tick
    for ui, u in enumerate(units):
        ctx.unit = u.name
        before, t0 = ctx.evaluations, time.time()
        truncated = False
        for ci, case in enumerate(u.cases()):
            if (ci // u.stride) % n != w:
                continue
            if (ui, ci) in skip:
                continue
            cur[0], cur[1] = ui, ci
            tick()
            if time.time() > deadline:
                truncated = True
                break
            try:
                u.check(case, ctx)
            except Violation as v:
                if v.key in known:
                    out["known"][v.key] = out["known"].get(v.key, 0) + 1
                else:
                    out["violations"].append((ui, ci, v.msg, v.key))
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # noqa
                out["violations"].append((ui, ci, "unexpected " + describe(e),
                                          "exc:" + type(e).__name__))
            if len(out["violations"]) >= maxviol:
                truncated = True
                break
        out["units"][u.name] = (ctx.evaluations - before, time.time() - t0)
        if truncated:
            out["truncated"].append(u.name)
            if len(out["violations"]) >= maxviol:
                break
    out.update(evaluations=ctx.evaluations, distinct=ctx.distinct, states=ctx.states, transitions=ctx.transitions,
               traces=ctx.traces, extra=ctx.extra)
    tmp = os.path.join(outdir, "w%d.tmp" % w)
    with open(tmp, "wb") as f:
        pickle.dump(out, f)
    os.rename(tmp, os.path.join(outdir, "w%d" % w))


def run_units(units, outdir, nworkers, budget, maxviol=40, known=()):
    """Runs all the units on forked workers; returns the merged result."""
    deadline = time.time() + budget
    failfast = "MC_MAXVIOL" in os.environ
    maxviol = int(os.environ.get("MC_MAXVIOL", maxviol))
    shared = Shared(nworkers)
    skip = set()
    result = {"violations": [], "known": {}, "units": {}, "truncated": set(), "evaluations": 0, "distinct": set(), "states": set(),
              "transitions": 0, "traces": 0, "extra": {}}
    sys.stdout.flush(); sys.stderr.flush()
    procs = {}

    def start(w):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                log = os.open(os.path.join(outdir, "log%d" % w), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1); os.dup2(log, 2)
                worker(w, nworkers, units, outdir, shared, deadline, maxviol, skip, known)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        procs[w] = [pid, shared.get(w)[0], time.time(), 0]

    restarts = {w: 0 for w in range(nworkers)}
    for w in range(nworkers):
        start(w)

    def case_lost(w, why):
        _, ui, ci = shared.get(w)
        result["violations"].append((ui, ci, why, why.split(" after")[0]))
        skip.add((ui, ci))
        restarts[w] += 1
        if restarts[w] <= 4:
            start(w)
        else:
            result["truncated"].add("worker %d given up" % w)

    def bad(w):
        p = os.path.join(outdir, "w%d" % w)
        return os.path.exists(p) and bool(pickle.load(open(p, "rb"))["violations"])

    failed = False
    while procs:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            now = time.time()
            for w, p in list(procs.items()):
                b, ui, ci = shared.get(w)
                if b != p[1]:
                    p[1], p[2] = b, now
                elif now - p[2] > units[ui].stall:
                    try:
                        os.killpg(p[0], signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(p[0], signal.SIGKILL)
                    os.waitpid(p[0], 0)
                    del procs[w]
                    case_lost(w, "does not terminate")
            time.sleep(0.02)
            continue
        w = next((k for k, p in procs.items() if p[0] == pid), None)
        if w is None:
            continue
        del procs[w]
        if failfast and (os.WIFSIGNALED(status) or len(result["violations"]) or bad(w)):
            for p in procs.values():
                os.killpg(p[0], signal.SIGKILL)
                os.waitpid(p[0], 0)
            procs.clear()
            restarts = {x: 9 for x in restarts}
        if os.WIFSIGNALED(status):
            case_lost(w, "process killed by signal %d" % os.WTERMSIG(status))
        elif os.WEXITSTATUS(status) == 3:
            failed = True
        elif os.WEXITSTATUS(status) != 0:
            case_lost(w, "process exited with status %d" % os.WEXITSTATUS(status))
    for w in range(nworkers):
        p = os.path.join(outdir, "w%d" % w)
        if not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            o = pickle.load(f)
        result["violations"] += o["violations"]
        result["truncated"] |= set(o["truncated"])
        for k in ("evaluations", "transitions", "traces"):
            result[k] += o[k]
        result["distinct"] |= o["distinct"]
        result["states"] |= o["states"]
        for k, v in o["known"].items():
            result["known"][k] = result["known"].get(k, 0) + v
        for k, v in o["extra"].items():
            result["extra"][k] = result["extra"].get(k, 0) + v
        for k, (a, b) in o["units"].items():
            x = result["units"].get(k, (0, 0.0))
            result["units"][k] = (x[0] + a, max(x[1], b))
    result["failed"] = failed
    return result


def nth_case(unit, ci):
    return next(itertools.islice(unit.cases(), ci, None))
