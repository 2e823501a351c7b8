"""python -m mc.run <ID> [--replay FILE]: runs one check, writes its evidence, reports.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check could not run.
"""
import importlib, json, os, pickle, base64, shutil, sys, tempfile, time, traceback, warnings
from . import core, native

VERIF = core.VERIF
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def main():
    warnings.simplefilter("ignore")
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.environ["MC_SCRATCH"] = scratch
    os.environ["RANKEVAL_DATA"] = os.path.join(scratch, "rankeval_data")
    code = 2
    try:
        try:
            native.install(controlled=pid == "C22")
        except native.BuildError as e:
            print("the native extensions do not build: %s" % e)
            return 2
        mod = importlib.import_module("mc.checks." + pid.lower())
        units = mod.units(tier)
        only = os.environ.get("MC_UNIT")
        if only:
            units = [u for u in units if u.name in only.split(",")]
        for u in units:
            if u.prepare:
                u.prepare()
        if "--replay" in args:
            with open(args[args.index("--replay") + 1]) as f:
                rep = json.load(f)
            u = next(u for u in units if u.name == rep["unit"])
            case = pickle.loads(base64.b64decode(rep["case_pickle"]))
            print("unit %s case %s" % (u.name, short(case, 2000)))
            try:
                u.check(case, core.Ctx(u.name))
            except core.Violation as v:
                print("reproduced: %s (key %s)" % (v.msg, v.key))
                return 1
            except Exception:
                traceback.print_exc()
                return 1
            print("not reproduced")
            return 0
        nworkers = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))
        nworkers = min(nworkers, getattr(mod, "MAX_WORKERS", 8))
        budget = float(os.environ.get("MC_BUDGET", "420" if tier == "quick" else "5400"))
        outdir = os.path.join(scratch, "out")
        os.makedirs(outdir)
        known = [k["key"] for k in load_known(pid) if k["status"] == "open"]
        res = core.run_units(units, outdir, nworkers, budget, known=known)
        code = report(pid, mod, tier, seed, units, res, t0)
        if res["failed"]:
            print("the check itself failed:")
            for n in sorted(os.listdir(outdir)):
                if n.startswith("log"):
                    sys.stdout.write(open(os.path.join(outdir, n), errors="replace").read()[-3000:])
            if code == 0:
                code = 2
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, mod, tier, seed, units, res, t0):
    hits = res["known"]
    fresh = res["violations"]
    for k in load_known(pid):
        if k["status"] == "open" and k["key"] in hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(EVIDENCE, "replay")
    shown = {}
    for ui, ci, msg, key in fresh:
        u = units[ui]
        tag = (u.name, key)
        shown[tag] = shown.get(tag, 0) + 1
        if shown[tag] > 1 or len(shown) > 12:
            continue
        os.makedirs(rdir, exist_ok=True)
        case = core.nth_case(u, ci)
        path = os.path.join(rdir, "%s-%d.json" % (pid, len(shown)))
        with open(path, "w") as f:
            json.dump({"property": pid, "unit": u.name, "index": ci, "message": msg, "key": key, "case": short(case, 4000),
                       "case_pickle": base64.b64encode(pickle.dumps(case)).decode(),
                       "rerun": "./check %s --replay %s" % (pid, path)}, f, indent=1)
        print("%s [%s #%d]: %s" % (pid, u.name, ci, msg[:600]))
        print("  case: %s" % short(case, 600))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    samples = []
    for u in units:
        try:
            n, last = 0, None
            for i, c in enumerate(u.cases()):
                if i in (0, 7, 101):
                    samples.append({"unit": u.name, "case": short(c, 300)})
                if i > 101:
                    break
        except Exception:
            pass
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": len(res["distinct"]),
           "rule": mod.RULE, "samples": samples[:24], "exhaustive": not res["truncated"],
           "units": {k: {"evaluations": a, "wall_s": round(b, 2)} for k, (a, b) in res["units"].items()}}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(res["states"]), transitions=res["transitions"],
                   traces_validated_against_impl=res["traces"])
    cov.update(res["extra"])
    if res["truncated"]:
        cov["truncated_units"] = sorted(res["truncated"])
    if hits:
        cov["known_finding_hits"] = hits
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    print("%s %s: %d evaluations, %d distinct non-trivial, %d states, %d transitions, %d violations, %.1f s%s" % (
        pid, tier, res["evaluations"], len(res["distinct"]), len(res["states"]), res["transitions"], len(fresh),
        time.time() - t0, " (truncated: %s)" % sorted(res["truncated"]) if res["truncated"] else ""))
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
