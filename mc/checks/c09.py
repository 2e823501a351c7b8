"""C09: the dataset fetcher's local store under crashes, faults and histories.

Every fetch runs in a forked child that owns nothing but a scratch folder (unprivileged user), with urlopen replaced by an
in-memory server built from the real catalogue.  A profile hook numbers the operations of the fetch that touch files or
the network; the explorer kills the child, or raises, before each of them in turn, and then checks every recovery fetch.
"""
import collections, errno, fnmatch, gzip, io, itertools, json, os, pickle, shutil, sys, tarfile, tempfile, traceback
import bz2, lzma, zlib, stat, pwd, grp, fcntl, zipfile, hashlib, threading, http.client, urllib.error, urllib.request, socket  # noqa (preloaded for the children)
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C09", "fault_enumeration"
RULE = ("every file/network operation of a fetch x {kill, OSError, KeyboardInterrupt} and every truncation class of each "
        "download, from every starting state (empty, complete, complete and republished) of every catalogue entry, each "
        "followed by the recovery fetches (once per distinct content of the store); every fetch history up to the depth bound; two fetches of the same dataset at the "
        "same time under a controlled scheduler: every schedule of their operations on file names up to the preemption bound; non-trivial: the store was touched "
        "before the fault")
ASSUMPTIONS = ["renaming a folder is atomic and completed operations survive a process crash (no power loss)",
               "the server's archives are intact or truncated; HTTP errors raise", "listing an existing folder does not fail",
               "no forced download while another process fetches the same dataset"]
OPS = {"write", "close", "open", "mkdir", "rename", "replace", "remove", "unlink", "rmdir", "symlink", "link", "chmod", "utime",
       "chown", "lchown", "truncate", "flush", "sendfile", "copy_file_range", "read", "listdir", "scandir", "fsync", "mkfifo", "urlopen", "stub"}
NOBODY = 65534


class Killed(BaseException):
    pass


# ---------------------------------------------------------------- published content
def catalogue():
    from rankeval.dataset import write_json_dataset_catalogue as w
    d = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    old = os.getcwd()
    os.chdir(d)
    try:
        w.main()
        with open(os.path.join(d, w.output_file)) as f:
            return json.load(f)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def rows(tag, big=False):
    """Contents derived from the tag: unmistakable."""
    h = sum(ord(c) * (i + 3) for i, c in enumerate(tag)) % 997
    n = 1500 if big else 3
    return "".join("%d qid:%d 1:%d 2:%g\n" % (i % 3, 1 + i // 2, h, i * 0.25) for i in range(n))


def published(entry, version):
    """{relative name: content} of the dataset and of the models of a catalogue entry."""
    ds, ms = collections.OrderedDict(), collections.OrderedDict()
    folds = [None] if entry.get("COMMON_SUBFOLDER_NAME") is None else [1, 2, 10]
    for f in folds:
        pre = "" if f is None else "%s%d/" % (entry["COMMON_SUBFOLDER_NAME"], f)
        for k in ("TRAIN_FILE", "VALIDATION_FILE", "TEST_FILE"):
            if entry.get(k) is not None:
                ds[pre + entry[k]] = rows("%s%s%s%d" % (pre, k, entry["DATASET_NAME"], version), k == "VALIDATION_FILE")
        for m in ("a.model", "sub/b.model"):
            ms[pre + m] = "model %s%s %s v%d\n" % (pre, m, entry["DATASET_NAME"], version)
    if entry.get("LICENSE_FILE") is not None:
        ds[entry["LICENSE_FILE"]] = "license %s v%d\nline 2\n" % (entry["DATASET_NAME"], version)
    return ds, ms


def tarball(files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        dirs = set()
        for n, c in files.items():
            d = os.path.dirname(n)
            if d and d not in dirs:
                dirs.add(d)
                i = tarfile.TarInfo(d)
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
            i = tarfile.TarInfo(n)
            i.size, i.mode = len(c), 0o644
            t.addfile(i, io.BytesIO(c.encode()))
    return b.getvalue()


CAT, SRV = None, {}


def prepare():
    global CAT
    if CAT is not None:
        return
    os.chmod(os.environ["MC_SCRATCH"], 0o711)
    urllib.request.urlopen = server            # before the module under test imports it
    import rankeval.dataset.datasets_fetcher as m
    if getattr(m, "urlopen", None) is not None:
        m.urlopen = server
    m.print = lambda *a, **k: None
    CAT = catalogue()
    for name, e in CAT.items():
        for v in (1, 2):
            d, ms = published(e, v)
            SRV[e["DATASET_URL"], v] = tarball(d)
            SRV[e["MODELS_URL"], v] = tarball(ms)


STATE = {"version": 1, "downloads": [], "cut": None}


class Response(io.BytesIO):
    status = code = 200
    headers = {}

    def getcode(self):
        return 200

    def info(self):
        return self.headers

    def geturl(self):
        return ""


def server(url, *a, **k):
    url = getattr(url, "full_url", url)
    if url.endswith("dataset_dictionary.json"):
        return Response(json.dumps(CAT).encode())
    STATE["downloads"].append(url)
    data = SRV.get((url, STATE["version"]))
    if data is None:
        raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
    if STATE["cut"] is not None and len(STATE["downloads"]) == STATE["cut"][0]:
        how = STATE["cut"][1]
        if how == "refused":
            raise urllib.error.URLError("refused")
        if how == "incomplete":
            class R(Response):
                def read(self, n=-1):
                    raise http.client.IncompleteRead(b"x" * 10, 100)
            return R(data)
        data = data[:int(len(data) * how)]
    return Response(data)


# ---------------------------------------------------------------- one fetch in a child
def in_child(home, fn):
    """Runs fn() in a forked, unprivileged child; returns ('killed',) or what fn returned (pickled)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            os.chdir(home)
            os.environ["HOME"] = home
            os.environ["RANKEVAL_DATA"] = os.path.join(home, "data")
            try:
                out = fn()
            except Killed:
                os._exit(9)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        except BaseException:
            traceback.print_exc()
            os._exit(8)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return pickle.loads(data)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
        return ("killed",)
    raise Violation("the fetch ended with wait status %d" % st)


def digest(c):
    """What the caller gets, in comparable form."""
    if c is None:
        return None
    f = lambda d: None if d is None else (d.X.tolist(), d.y.tolist(), [int(q) for q in d.get_qids_dataset()])
    models = None
    if c.model_filenames is not None:
        models = sorted((os.path.basename(p), open(p).read()) for p in c.model_filenames)
    return f(c.train_dataset), f(c.validation_dataset), f(c.test_dataset), c.license_agreement, models


def fetch(op, k=None, fault=None, version=1, cut=None):
    """A closure performing the fetch, with the k-th operation failing."""
    name, fold, models, mode = op

    def go():
        from rankeval.dataset.datasets_fetcher import load_dataset
        STATE.update(version=version, downloads=[], cut=cut)
        n = [0]

        def hook(frame, event, arg):
            if event != "c_call":
                return
            if getattr(arg, "__name__", "") in OPS:
                n[0] += 1
                if n[0] == k and not (fault == "oserror" and arg.__name__ in ("scandir", "listdir")):
                    if fault == "kill":
                        os._exit(9)
                    sys.setprofile(None)
                    raise {"oserror": OSError(errno.ENOSPC, "No space left on device"), "ctrl-c": KeyboardInterrupt()}[fault]
        kw = {"default": {}, "force": {"force_download": True}, "local": {"download_if_missing": False}}[mode]
        sys.setprofile(hook)
        try:
            c = load_dataset(name, fold=fold, with_models=models, **kw)
            sys.setprofile(None)
            res = ("ok", digest(c))
        except (Exception, KeyboardInterrupt) as e:
            sys.setprofile(None)
            res = ("error", isinstance(e, (IOError, OSError)), type(e).__name__ + ": " + str(e)[:200])
        finally:
            sys.setprofile(None)
        return res + (n[0], list(STATE["downloads"]))
    return go


EXPECT = {}


def expected(op, version, mversion=None):
    """The digest of a correct result with dataset of one version and models of another (cached)."""
    from rankeval.dataset.svmlight_format import load_svmlight_file
    key = (op[:3], version, mversion)
    if key in EXPECT:
        return EXPECT[key]
    name, fold, models, _ = op
    e = CAT[name]
    ds, _ = published(e, version)
    _, ms = published(e, mversion or version)
    pre = "" if fold is None else "%s%d/" % (e["COMMON_SUBFOLDER_NAME"], fold)

    def part(k):
        if e.get(k) is None:
            return None
        X, y, q = load_svmlight_file(io.BytesIO(ds[pre + e[k]].encode()), query_id=True)
        return X.tolist(), y.tolist(), q.tolist()
    lic = ds[e["LICENSE_FILE"]] if e.get("LICENSE_FILE") else \
        "Please, check the terms of use before using the dataset. Here the link: %s" % e["BLOG_POST_URL"]
    r = (part("TRAIN_FILE"), part("VALIDATION_FILE"), part("TEST_FILE"), lic,
         sorted((os.path.basename(n), c) for n, c in ms.items() if n.startswith(pre)) if models else None)
    EXPECT[key] = r
    return r


def correct(op, got, versions):
    return any(got == expected(op, v, mv) for v in versions for mv in versions)


class Home:
    """A scratch home with sentinels that no fetch may touch."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
        for p in ("keep.txt", "other/keep.txt", "data/otherset/dataset/train.txt"):
            os.makedirs(os.path.dirname(os.path.join(self.path, p)), exist_ok=True)
            with open(os.path.join(self.path, p), "w") as f:
                f.write("sentinel " + p)
        for root, dirs, files in os.walk(self.path):
            for n in dirs + files:
                os.chown(os.path.join(root, n), NOBODY, NOBODY)
        os.chown(self.path, NOBODY, NOBODY)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def intact(self):
        for p in ("keep.txt", "other/keep.txt", "data/otherset/dataset/train.txt"):
            try:
                with open(os.path.join(self.path, p)) as f:
                    ok = f.read() == "sentinel " + p
            except OSError:
                ok = False
            require(ok, "a fetch damaged a file it does not own: %s", p)

    def restore(self, image):
        d = os.path.join(self.path, "data")
        shutil.rmtree(d)
        copytree(image, d)

    def run(self, *a, **k):
        return in_child(self.path, fetch(*a, **k))


def copytree(a, b):
    shutil.copytree(a, b)
    for root, dirs, files in os.walk(b):
        for n in dirs + files:
            os.chown(os.path.join(root, n), NOBODY, NOBODY)
    os.chown(b, NOBODY, NOBODY)


def others(op):
    """Recovery fetches tried after the fault."""
    name, fold, models, mode = op
    yield (name, fold, models, "local")
    yield (name, fold, models, "default")
    yield (name, fold, not models, "default")
    if fold is not None:
        yield (name, 3 - fold, True, "default")
    yield (name, fold, True, "force")


def recover(h, op, versions, version, what, ctx):
    """From the store as the fault left it, every recovery fetch gives published content."""
    image = os.path.join(h.path, "image")
    copytree(os.path.join(h.path, "data"), image)
    first = True
    for rop in others(op):
        if not first:
            h.restore(image)
        first = False
        r = h.run(rop, version=version)
        ctx.evaluated()
        if rop[3] == "local":
            require(not r[-1], "%s: then download_if_missing=False downloaded %r", what, r[-1])
            if r[0] == "ok":
                require(correct(rop, r[1], versions), "%s: then a local fetch returned incomplete or mixed data", what)
            else:
                require(r[1], "%s: then a local fetch failed with %s instead of IOError", what, r[2])
        else:
            require(r[0] == "ok", "%s: then %r failed: %s", what, rop, r[2] if len(r) > 2 else r)
            require(correct(rop, r[1], [version] if rop[3] == "force" else versions), "%s: then %r returned incomplete or mixed data", what, rop)
        h.intact()
    shutil.rmtree(image)


def tree(root):
    """The content of the store: what the recovery can depend on."""
    out = []
    for r, dirs, files in os.walk(root):
        out += [(os.path.relpath(os.path.join(r, d), root), None) for d in dirs]
        for n in files:
            with open(os.path.join(r, n), "rb") as f:
                out.append((os.path.relpath(os.path.join(r, n), root), hashlib.md5(f.read()).hexdigest()))
    return sorted(out, key=str)


def start(h, state, op):
    if state not in ("empty", "none"):
        name, fold, models, mode = op
        r = h.run((name, fold, state == "complete", "default"), version=1)
        require(r[0] == "ok" and correct((name, fold, state == "complete", ""), r[1], [1]), "first fetch of %r gave %r", op, r[:3] if r[0] != "ok" else "wrong data")


def check_fault(case, ctx):
    op, state, fault, part, parts = case
    version = 1 if state == "empty" else 2
    versions = [1] if state == "empty" else [1, 2]
    with Home() as h:
        start(h, state, op)
        image = os.path.join(h.path, "start")
        copytree(os.path.join(h.path, "data"), image)
        r = h.run(op, version=version)
        require(r[0] == "ok" and correct(op, r[1], versions), "fault-free %r from %s: %r", op, state, r[0])
        total = r[2]
        seen = set()
        for k in range(1, total + 1):
            if k % parts != part:
                continue
            h.restore(image)
            r = h.run(op, k=k, fault=fault, version=version)
            what = "%s before operation %d of %d of %r (store: %s)" % (fault, k, total, op, state)
            if r[0] == "ok":
                require(correct(op, r[1], versions), "%s: it still returned, with wrong data", what)
            h.intact()
            ctx.count("fault_points")
            ctx.evaluated()
            image_state = repr(tree(os.path.join(h.path, "data")))
            if image_state not in seen:
                seen.add(image_state)
                ctx.count("distinct_stores_recovered")
                recover(h, op, versions, version, what, ctx)
            if k > 3:
                ctx.nontrivial((case[:3], k))


def check_cut(case, ctx):
    op, state, which, how = case
    version = 1 if state == "empty" else 2
    versions = [1] if state == "empty" else [1, 2]
    with Home() as h:
        start(h, state, op)
        r = h.run(op, version=version, cut=(which, how))
        what = "download %d %s of %r (store: %s)" % (which, how, op, state)
        if r[0] == "ok":
            require(correct(op, r[1], versions), "%s: returned incomplete data", what)
        h.intact()
        recover(h, op, versions, version, what, ctx)
        ctx.evaluated()
        ctx.count("download_faults")
        ctx.nontrivial(case)


def check_history(case, ctx):
    """Fault-free histories against the model (dataset present, models present)."""
    with Home() as h:
        present = {}
        for i, (op, version) in enumerate(case):
            name, fold, models, mode = op
            r = h.run(op, version=version)
            what = "history %r, step %d" % (case, i)
            ds, ms = present.get(name, (None, None))
            ctx.evaluated()
            if mode == "local" and (ds is None or (models and ms is None)):
                require(r[0] == "error" and r[1], "%s: data not there, but %r", what, r[0])
                require(not r[-1], "%s: downloaded", what)
                continue
            require(r[0] == "ok", "%s: %s", what, r[2])
            n = 0
            if mode == "force":
                ds = ms = None
            if ds is None:
                ds, n = version, n + 1
            if models and ms is None:
                ms, n = version, n + 1
            present[name] = ds, ms
            require(r[1] == expected(op, ds, ms), "%s: wrong data (differs in part %r)", what,
                    [i for i, (a, b) in enumerate(zip(r[1], expected(op, ds, ms))) if a != b])
            require(len(r[-1]) == n, "%s: %d downloads instead of %d", what, len(r[-1]), n)
            h.intact()
        ctx.nontrivial(case)


# ---------------------------------------------------------------- two fetches at the same time
SHARED = {"stat", "lstat", "mkdir", "rename", "replace", "rmdir", "unlink", "remove", "link", "symlink", "open", "scandir", "listdir", "urlopen"}


class Stepped:
    """A fetch in a child that stops before every operation on names of the file system, until it is told to go on."""
    def __init__(self, home, op, version, started, data="data", coarse=False):
        name, fold, models, mode = op
        self.go_r, self.go_w = os.pipe()
        self.out_r, self.out_w = os.pipe()
        self.res, self.at = None, 0
        inherited = [fd for c in started for fd in (c.go_w, c.out_r)]
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.go_w)
                os.close(self.out_r)
                for fd in inherited:
                    os.close(fd)
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
                os.chdir(home)
                os.environ["HOME"] = home
                os.environ["RANKEVAL_DATA"] = os.path.join(home, data)
                from rankeval.dataset.datasets_fetcher import load_dataset
                STATE.update(version=version, downloads=[], cut=None)
                go_r, out_w, left, write, read = self.go_r, self.out_w, [0], os.write, os.read

                def outer(frame):
                    """An operation of the package, not of a library at work for it."""
                    for _ in range(3):
                        if os.sep + "rankeval" + os.sep in frame.f_code.co_filename:
                            return True
                        frame = frame.f_back
                        if frame is None:
                            return False
                    return False

                def hook(frame, event, arg):
                    if event == "c_call" and getattr(arg, "__name__", "") in SHARED and (not coarse or outer(frame)):
                        if left[0] == 0:
                            write(out_w, b"s")
                            cmd = read(go_r, 8)
                            if not cmd:
                                os._exit(7)
                            left[0] = int(cmd)
                        left[0] -= 1
                kw = {"default": {}, "local": {"download_if_missing": False}}[mode]
                try:
                    sys.setprofile(hook)
                    c = load_dataset(name, fold=fold, with_models=models, **kw)
                    sys.setprofile(None)
                    out = ("ok", digest(c))
                except Exception as e:
                    sys.setprofile(None)
                    out = ("error", isinstance(e, (IOError, OSError)), type(e).__name__ + ": " + str(e)[:200])
                data = b"r" + pickle.dumps(out + (list(STATE["downloads"]),))
                while data:
                    data = data[write(out_w, data):]
            except BaseException:
                traceback.print_exc()
                os._exit(8)
            os._exit(0)
        os.close(self.go_r)
        os.close(self.out_w)
        self._wait()

    def _wait(self):
        c = os.read(self.out_r, 1)
        if c == b"r":
            with os.fdopen(os.dup(self.out_r), "rb") as f:
                self.res = pickle.loads(f.read())
        elif c != b"s":
            raise Violation("a fetch running together with another died")

    def run(self, n=99999999):
        """Lets the child perform n operations; false when it ended before."""
        if self.res is None and n:
            os.write(self.go_w, b"%08d" % n)
            self._wait()
            self.at += n
        return self.res is None

    def end(self):
        os.close(self.go_w)
        os.close(self.out_r)
        os.waitpid(self.pid, 0)


def check_together(case, ctx):
    """Two fetches of the same dataset: every schedule up to the preemption bound (1 or 2 anywhere, or 2 or 3 between the operations
    of the package itself)."""
    ops, state, first, (bound, coarse), part, parts = case
    ops = ops[::-1] if first else ops
    with Home() as h:
        start(h, state, ops[0])
        image = os.path.join(h.path, "start")
        copytree(os.path.join(h.path, "data"), image)
        rec = {}

        def schedule(plan):
            """plan: operations of each turn (turns alternate), then everyone runs to the end; false if a turn was too long."""
            h.restore(image)
            cs = []
            try:
                for op in ops:
                    # "none": not even the folder of the datasets is there
                    cs.append(Stepped(h.path, op, 1, cs, "data/new/data" if state == "none" else "data", coarse))
                for i, n in enumerate(plan):
                    if not cs[i % 2].run(n):
                        return False
                for i in range(len(plan), len(plan) + 2):
                    cs[i % 2].run()
                what = "two fetches %r (store: %s), turns of %r operations" % (ops, state, plan)
                for c, op in zip(cs, ops):
                    r = c.res
                    ctx.evaluated()
                    if op[3] == "local":
                        require(not r[-1], "%s: the local one downloaded", what)
                        require(r[0] == "ok" or r[1], "%s: the local one failed with %s", what, r[2] if len(r) > 2 else "")
                    else:
                        require(r[0] == "ok", "%s: %r failed: %s", what, op, r[2] if len(r) > 2 else "")
                    require(r[0] != "ok" or correct(op, r[1], [1]), "%s: %r returned incomplete or wrong data", what, op)
            finally:
                for c in cs:
                    c.end()
            h.intact()
            ctx.count("schedules")
            ctx.transition(len(plan) + 2)
            t = repr([x for x in tree(os.path.join(h.path, "data"))])
            if t not in rec and state != "none":
                rec[t] = 1
                ctx.state((ops, state, t))
                recover(h, ops[0], [1], 1, what, ctx)
            return True

        def explore(plan, left):
            """Every continuation of a plan by the given number of turns; false if there is none."""
            n = 0
            while True:
                n += 1
                if n > 5000:
                    raise Violation("more than 5000 operations")
                if not plan and n % parts != part:
                    continue
                if not (explore(plan + [n], left - 1) if left > 1 else schedule(plan + [n])):
                    return n > 1 or not plan
                ctx.nontrivial((case[:4], plan, n))

        explore([], bound)


def together_cases(t):
    for name, f1, f2 in (("istella-full", None, None), ("msn10k", 1, 2)) if not t else \
            (("istella-full", None, None), ("msn10k", 1, 2), ("msn30k", 1, 1), ("istella-sample", None, None)):
        for state in ("none", "empty", "data-only"):
            for ma, mb, mode in ((True, True, "default"), (True, False, "default"), (True, True, "local")):
                if state == "data-only" and not (ma and mb):
                    continue
                for first in (0, 1):
                    for part in range(2):
                        yield ((name, f1, ma, "default"), (name, f2, mb, mode)), state, first, (1, False), part, 2
    for name, f1, f2 in (("istella-full", None, None), ("msn10k", 1, 2)):
        for state, mode in (("empty", "default"), ("none", "default"), ("data-only", "default"), ("empty", "local")):
            for first in (0, 1) if t or mode == "local" else (0,):
                for part in range(4):
                    yield ((name, f1, True, "default"), (name, f2, True, mode)), state, first, (2, True), part, 4
    for name, f1, f2, mode in (("istella-full", None, None, "default"),) if not t else \
            (("istella-full", None, None, "default"), ("msn10k", 1, 2, "default"), ("istella-full", None, None, "local")):
        for first in (0, 1) if t else (0,):
            for part in range(8):
                yield ((name, f1, t, "default"), (name, f2, t, mode)), "empty", first, (3, True), part, 8
    if t:
        for name, f1, f2 in (("istella-full", None, None), ("msn10k", 1, 2)):
            for mode in ("default", "local"):
                for first in (0, 1):
                    for part in range(24):
                        yield ((name, f1, True, "default"), (name, f2, True, mode)), "empty", first, (2, False), part, 24


def check_unknown(case, ctx):
    with Home() as h:
        r = h.run((case[0], case[1], True, "default"))
        if case[0] not in CAT:
            require(r[0] == "ok" and r[1] is None, "unknown dataset: %r", r)
        else:
            require(r[0] == "error", "%r: fetched", case)
        require(not r[-1], "downloaded")
        h.intact()
        ctx.evaluated()


NAMES = ["istella-full", "istella-sample", "msn10k", "msn30k"]


def fault_cases(t):
    for name in (NAMES if t else ["istella-full", "msn10k"]):
        for fold in ([None] if name.startswith("ist") else [1] + ([2] if t else [])):
            for state, models, mode in (("empty", True, "default"), ("complete", True, "force"), ("data-only", True, "default"),
                                        ("empty", False, "force"), ("data-only", True, "force"), ("complete", True, "default")):
                if not t and name != "msn10k" and state != "empty":
                    continue
                for fault in ("kill", "oserror", "ctrl-c"):
                    if not t and fault == "ctrl-c" and state != "empty":
                        continue
                    parts = 4 if t else 1
                    for part in range(parts):
                        yield (name, fold, models, mode), state, fault, part, parts


def history_cases(t):
    for name in NAMES if t else ["istella-full", "msn10k"]:
        folds = [None] if name.startswith("ist") else [1, 10] if name == "msn10k" else [1, 2]
        ops = [(name, f, m, mode) for f in folds for m in (True, False) for mode in ("default", "force", "local")]
        for n in (1, 2, 3):
            for c in itertools.product(ops, repeat=n):
                if n == 3 and not (t or (c[0][1:] in ((folds[0], False, "default"), (folds[0], True, "default")) and c[2][2])):
                    continue
                yield tuple((o, 1 if i == 0 else 2) for i, o in enumerate(c))
    for a, b in itertools.permutations(NAMES, 2):
        fa, fb = (None if x.startswith("ist") else 1 for x in (a, b))
        yield (((a, fa, True, "default"), 1), ((b, fb, True, "default"), 2), ((a, fa, True, "local"), 2), ((b, fb, True, "force"), 2),
               ((a, fa, True, "default"), 2))


def units(tier):
    t = tier == "thorough"
    return [Unit("faults", lambda: fault_cases(t), check_fault, prepare=prepare),
            Unit("downloads", [((n, f, m, mode), s, w, how) for n, f in (("istella-sample", None), ("msn30k", 2)) for s in ("empty", "complete", "data-only")
                               for m in (True, False) for mode in ("default", "force") for w in (1, 2)
                               for how in ("refused", "incomplete", 0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97)], check_cut, prepare=prepare),
            Unit("histories", lambda: history_cases(t), check_history, prepare=prepare),
            Unit("together", lambda: together_cases(t), check_together, prepare=prepare),
            Unit("unknown", [("nosuch", None), ("istella-sample", 1)], check_unknown, prepare=prepare)]
