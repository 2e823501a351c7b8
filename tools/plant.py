"""Plants bugs and verifies them (not used by any check).

  plant.py SPEC.py          SPEC defines BUGS: list of dicts id, property, edits [(file, old, new)], needs, breaks, demo
  plant.py --verify [ID..]  re-verifies the planted bugs of /verif/seeded (or those given)
  --no-check                does not run the check
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# Run with cwd = the repository: exit 0 when the property holds for this input.
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work" RANKEVAL_DATA="$work/data" WORK="$work" PYTHONWARNINGS=ignore
%(env)stimeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return r.returncode, r.stdout.decode(errors="replace")


def base_lines_only(diff, copy):
    """Every line a patch removes must belong to the original repository."""
    bad = []
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = sh(["git", "blame", "-s", f], cwd="/repo")[1].splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if not blame[n - 1].startswith("^"):
                bad.append((f, n, l))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def verify(bid, check=True):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    copy = tempfile.mkdtemp(prefix="plant-", dir="/tmp") + "/repo"
    out = {"id": bid, "property": meta["property"]}
    try:
        sh(["cp", "-a", "/repo", copy])
        rc, o = sh(["git", "apply", "--whitespace=nowarn", os.path.join(d, "patch.diff")], cwd=copy)
        if rc:
            return dict(out, error="does not apply: " + o)
        diff = sh(["git", "diff"], cwd=copy)[1]
        bad = base_lines_only(diff, copy)
        if bad and not [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]:
            bad = []
        if bad:
            out["note"] = "touches lines of fixes: %s" % bad
        w = sh(["git", "diff", "-w"], cwd=copy)[1].splitlines()
        com, real = "#", False
        for l in w:
            if l.startswith("--- "):
                com = "#" if l.endswith((".py", ".pyx")) else "/"
            elif l.startswith("-") and l[1:].strip() and l[1:].strip()[0] != com:
                real = True
        if not real:
            return dict(out, error="changes no original line")
        files = re.findall(r"^\+\+\+ b/(.*)$", diff, re.M)
        if any("/test/" in f or f == "setup.py" for f in files):
            return dict(out, error="touches tests or build files")
        if any(f.endswith((".pyx", ".cpp", ".h", ".c")) for f in files):
            rc, o = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=copy, env=dict(os.environ, PYTHONPATH=copy))
            if rc:
                return dict(out, error="does not build: " + o[-2000:])
        env = dict(os.environ, PYTHONPATH=copy + ":/opt/vp/compat", PYTHONDONTWRITEBYTECODE="1")
        rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "nose_compat", "--timeout=300", "--tb=no",
                    "--continue-on-collection-errors", "-rA", "rankeval"], cwd=copy, env=env)
        passed = len(re.findall(r"^PASSED ", o, re.M))
        if passed != 23:
            return dict(out, error="tests: %d passed" % passed, log=o[-3000:])
        denv = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        c0, o0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=denv)
        c1, o1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=denv)
        out["demo"] = (c0, c1)
        if c0 != 0 or c1 == 0:
            return dict(out, error="demo: clean %d, planted %d" % (c0, c1), log=o0[-1500:] + "-----\n" + o1[-1500:])
        out["demo_says"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        if check:
            rc, o = sh([os.path.join(V, "check"), meta["property"]], cwd=V, env=dict(os.environ, MC_REPO=copy))
            out["caught"] = rc == 1 and "VIOLATION property=" + meta["property"] in o
            out["check"] = [l for l in o.splitlines() if l.startswith(meta["property"] + " [")][:1] or o.splitlines()[-3:]
        return out
    finally:
        shutil.rmtree(os.path.dirname(copy), ignore_errors=True)


def create(b):
    d = os.path.join(SEEDED, b["id"])
    copy = tempfile.mkdtemp(prefix="plant-", dir="/tmp") + "/repo"
    try:
        sh(["git", "clone", "-q", "/repo", copy])
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r in %s" % (b["id"], s.count(old), old[:80], f)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=copy)[1]
    finally:
        shutil.rmtree(os.path.dirname(copy), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"env": b.get("env", "")})
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--no-check"]
    chk = "--no-check" not in sys.argv
    if args and args[0] == "--verify":
        ids = args[1:] or sorted(os.listdir(SEEDED))
    else:
        g = {}
        exec(open(args[0]).read(), g)
        ids = []
        for b in g["BUGS"]:
            if args[1:] and b["id"] not in args[1:]:
                continue
            e = create(b)
            if e:
                print("SPEC ERROR", e)
            else:
                ids.append(b["id"])
    res = []
    for i in ids:
        r = verify(i, chk)
        res.append(r)
        print(json.dumps(r)[:900], flush=True)
    print("%d ok, %d caught, errors: %s, missed: %s" % (sum("error" not in r for r in res), sum(bool(r.get("caught")) for r in res),
          [r["id"] for r in res if "error" in r], [r["id"] for r in res if "error" not in r and chk and not r.get("caught")]))
