"""Lines of /repo/rankeval executed by the checks (not used by any check).   cover.py OUTDIR ID..   then   cover.py --report OUTDIR"""
import os, pickle, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
if sys.argv[1] == "--report":
    hit, code = set(), set()
    for f in os.listdir(sys.argv[2]):
        h, c = pickle.load(open(os.path.join(sys.argv[2], f), "rb"))
        hit |= h
    import glob
    for f in sorted(glob.glob("/repo/rankeval/**/*.py", recursive=True)):
        if "/test/" in f:
            continue
        lines = set()

        def walk(co):
            for c in co.co_consts:
                if hasattr(c, "co_code"):
                    lines.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
                    walk(c)
        walk(compile(open(f).read(), f, "exec"))
        rel = f[len("/repo/"):]
        miss = sorted(l for l in lines if (rel, l) not in hit)
        src = open(f).read().split("\n")
        print("== %s: %d of %d not executed" % (rel, len(miss), len(lines)))
        for l in miss:
            print("   %4d %s" % (l, src[l - 1]))
    sys.exit()
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
import mc.core, mc.run
orig = mc.core.worker


def worker(w, *a):
    hit = set()
    m = sys.monitoring
    m.use_tool_id(3, "cover")

    def line(co, n):
        f = co.co_filename
        if "/rankeval/" in f and not "/mc/" in f:
            hit.add((f[f.rindex("/rankeval/") + 1:], n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    try:
        orig(w, *a)
    finally:
        pickle.dump((hit, set()), open(os.path.join(out, "%s-%d-%d" % (sys.argv[0], w, os.getpid())), "wb"))


mc.core.worker = worker
ids = sys.argv[2:]
for i in ids:
    if os.fork() == 0:
        sys.argv = [i, i]
        os._exit(mc.run.main() or 0)
    os.wait()
