"""Makes the native extensions of /repo's *current* working tree importable.

/opt/vp/build.sh leaves, per source directory, a stamp with the hash of the native sources its in-place .so files were
built from.  Where the stamp equals the hash of the sources as they are now, those .so files are used; otherwise the
sources are copied to a scratch folder, built there (never in /repo), and a meta-path finder maps the extension names to
the fresh files.
"""
import fcntl, hashlib, importlib.machinery, importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
EXTS = {
    "rankeval.dataset._svmlight_format": "dataset",
    "rankeval.scoring._efficient_scoring": "scoring",
    "rankeval.analysis._efficient_topological": "analysis",
    "rankeval.analysis._efficient_feature": "analysis",
}
SRC_EXT = (".pyx", ".pxd", ".pxi", ".c", ".cpp", ".h", ".hpp")


def sources(d):
    """The native sources of rankeval/<d> (generated C of a .pyx excluded), as build.sh orders them."""
    base = os.path.join(REPO, "rankeval", d)
    names = sorted(("rankeval/%s/%s" % (d, n)) for n in os.listdir(base)
                   if n.endswith(SRC_EXT) and os.path.isfile(os.path.join(base, n)))
    out = ["setup.py"]
    for f in names:
        stem, ext = os.path.splitext(f)
        if ext in (".c", ".cpp") and os.path.exists(os.path.join(REPO, stem + ".pyx")):
            continue
        out.append(f)
    return out


def digest(d):
    h = hashlib.sha256()
    for f in sources(d):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(("%s  %s\n" % (hashlib.sha256(fh.read()).hexdigest(), f)).encode())
    return h.hexdigest()


def stamp(d):
    try:
        with open(os.path.join(REPO, "build", "stamps", d)) as f:
            return f.read().split()[0]
    except (OSError, IndexError):
        return None


def inplace(name):
    return os.path.join(REPO, *name.split(".")) + SUFFIX


class BuildError(Exception):
    pass


def locate():
    """{extension name: path of an .so built from the current sources}; builds what is missing."""
    dig = {d: digest(d) for d in set(EXTS.values())}
    res, missing = {}, []
    for name, d in EXTS.items():
        if stamp(d) == dig[d] and os.path.exists(inplace(name)):
            res[name] = inplace(name)
        else:
            missing.append(name)
    if not missing:
        return res
    key = hashlib.sha256("".join(dig[d] for d in sorted(dig)).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, "native-" + key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(out):
            build(out, missing)
    for name in missing:
        p = os.path.join(out, *name.split(".")) + SUFFIX
        if not os.path.exists(p):
            raise BuildError("no %s after the build" % p)
        res[name] = p
    return res


KERNELS = [n for n in EXTS if n != "rankeval.dataset._svmlight_format"]
RUNTIME = os.path.join(VERIF, "mc", "omp", "mcomp.cpp")
WRAPPED = ["malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"]
CC = """#!/bin/sh
case " $* " in
*" -c "*) exec %(cc)s "$@" -O1 -g0 -w -fsanitize=thread -fno-inline-atomics -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove ;;
*) exec %(cc)s "$@" -L%(lib)s -Wl,-rpath,%(out)s -Wl,--no-as-needed -lmcomp -Wl,--as-needed %(wrap)s ;;
esac
"""


def locate_controlled():
    """(path of the runtime, {extension: path}, [operations of OpenMP the runtime lacks]) of the kernels built for exploration."""
    with open(RUNTIME, "rb") as f:
        h = hashlib.sha256(f.read() + CC.encode())
    for d in sorted(set(EXTS.values())):
        h.update(digest(d).encode())
    out = os.path.join(CACHE, "omp-" + h.hexdigest()[:20])
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(out):
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            subprocess.run(["g++", "-O2", "-std=c++17", "-fPIC", "-shared", "-w", "-Wl,-soname,libmcomp.so", "-o", os.path.join(tmp, "libmcomp.so"), RUNTIME], check=True)
            tools = os.path.join(tmp, "tools")
            os.makedirs(tools)
            for cc in ("gcc", "g++"):
                with open(os.path.join(tools, cc), "w") as f:
                    f.write(CC % {"cc": shutil.which(cc), "lib": tmp, "out": out, "wrap": " ".join("-Wl,--wrap=" + w for w in WRAPPED)})
                os.chmod(os.path.join(tools, cc), 0o755)
            build(None, KERNELS, tmp, {"CC": os.path.join(tools, "gcc"), "CXX": os.path.join(tools, "g++"),
                                       "LDSHARED": os.path.join(tools, "gcc") + " -shared", "LDCXXSHARED": os.path.join(tools, "g++") + " -shared"})
            os.rename(tmp, out)
    lib = os.path.join(out, "libmcomp.so")
    where = {n: os.path.join(out, *n.split(".")) + SUFFIX for n in KERNELS}
    have = {l.split()[-1].split("@")[0] for l in subprocess.check_output(["nm", "-D", "--defined-only", lib], text=True).splitlines()}
    lack = set()
    for p in where.values():
        for l in subprocess.check_output(["nm", "-D", "--undefined-only", p], text=True).splitlines():
            s = l.split()[-1].split("@")[0]
            if s.startswith(("GOMP_", "omp_", "__tsan", "GOACC", "__wrap_", "__atomic_", "__sync_")) and s not in have:
                lack.add(s)
    return lib, where, sorted(lack)


def build(out, missing, dest=None, extra=None):
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="nb-", dir=CACHE)
    try:
        for f in ("README.md", "MANIFEST.in", "LICENSE"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), work)
        if os.path.isdir(os.path.join(REPO, "build_tools")):
            shutil.copytree(os.path.join(REPO, "build_tools"), os.path.join(work, "build_tools"))
        shutil.copytree(os.path.join(REPO, "rankeval"), os.path.join(work, "rankeval"),
                        ignore=lambda p, ns: [n for n in ns if n in ("data", "__pycache__") or n.endswith((".so", ".c"))
                                              or (n.endswith(".cpp") and n[:-4] + ".pyx" in ns)])
        shutil.copy(os.path.join(REPO, "setup.py"), work)
        env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", **(extra or {}))
        r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"], cwd=work, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise BuildError("native build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        tmp = dest or out + ".tmp"
        if not dest:
            shutil.rmtree(tmp, ignore_errors=True)
        for name in missing:
            rel = os.path.join(*name.split(".")) + SUFFIX
            os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
            shutil.copy(os.path.join(work, rel), os.path.join(tmp, rel))
        if not dest:
            os.rename(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


CONTROL, LACKING = None, []      # the controlled OpenMP runtime, or why it cannot be used


class Finder:
    def __init__(self, where):
        self.where = where

    def find_spec(self, name, path=None, target=None):
        p = self.where.get(name)
        if p is None:
            return None
        return importlib.util.spec_from_file_location(
            name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))


def install(controlled=False):
    where = locate()
    if controlled:
        global CONTROL, LACKING
        try:
            lib, special, LACKING = locate_controlled()
            if not LACKING:
                import ctypes
                CONTROL = ctypes.CDLL(lib, mode=ctypes.RTLD_GLOBAL)
                where.update(special)
        except (BuildError, subprocess.CalledProcessError, OSError) as e:
            LACKING = [str(e)[-500:]]
        if LACKING:
            print("not controllable, threads run under the operating system's scheduler: %s" % LACKING)
    sys.meta_path.insert(0, Finder(where))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return where
