"""Mutation testing of the checks (not used by any check).

  mutate.py OUT.jsonl FILE...   mutates the files (relative to /repo), runs the mapped checks on each mutant, records the results
  options: --jobs N  --workers N  --list  --lines a-b
"""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, re, shutil, subprocess, sys, tempfile, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, M, A, S, G, Z = ("rankeval/%s/" % x for x in ("dataset", "model", "analysis", "scoring", "metrics", "visualization"))
MAP = {
    D + "dataset.py": "C04 C08 C07 C03 C06 C05 C21 C35 C36", D + "svmlight_format.py": "C03 C01 C02", D + "_svmlight_format.cpp": "C03 C01 C02",
    D + "datasets_fetcher.py": "C09", D + "dataset_container.py": "C09", D + "write_json_dataset_catalogue.py": "C09",
    M + "rt_ensemble.py": "C14 C15 C10 C20 C21 C13 C11 C12 C16 C36 C40 C46 C43", M + "proxy_Jforests.py": "C11 C16", M + "proxy_QuickRank.py": "C10 C14 C16",
    M + "proxy_XGBoost.py": "C12 C16", M + "proxy_ScikitLearn.py": "C12 C16", M + "proxy_LightGBM.py": "C11 C16", M + "proxy_CatBoost.py": "C13 C16", M + "__init__.py": "C10",
    S + "scorer.py": "C20 C21", S + "_efficient_scoring.pyx": "C20 C22",
    A + "effectiveness.py": "C42 C41 C40 C49", A + "feature.py": "C43", A + "topological.py": "C46", A + "statistical.py": "C45 C44 C49",
    A + "_efficient_feature_impl.cpp": "C43 C22", A + "_efficient_feature.pyx": "C43 C22", A + "_efficient_topological.pyx": "C46 C22",
    Z + "effectiveness.py": "C48", Z + "feature.py": "C48", Z + "topological.py": "C47 C48",
    G + "metric.py": "C31 C30 C33 C35", G + "ndcg.py": "C30 C35 C36", G + "dcg.py": "C30 C35 C36", G + "err.py": "C32 C35 C36", G + "pfound.py": "C32 C35 C36",
    G + "mse.py": "C33 C35 C36", G + "rmse.py": "C33 C35 C36", G + "kendall_tau.py": "C34 C35 C36", G + "spearman_rho.py": "C34 C35 C36",
}
ALL = " C37 C39 C50 C52 C51 C53"
for m in ("precision", "recall", "map", "mrr", "rbp", "precision_max"):
    MAP[G + m + ".py"] = "C31 C35 C36"
for k in MAP:
    if k.endswith(".py") and "fetcher" not in k and "container" not in k and "catalogue" not in k:
        MAP[k] += ALL + (" C38" if k.rsplit("/")[-1] in ("proxy_QuickRank.py", "proxy_ScikitLearn.py", "svmlight_format.py", "dataset.py", "rt_ensemble.py", "topological.py") else "")
MAP[D + "_svmlight_format.cpp"] += " C38"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*", "//"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"]}
SWAP = {"min": "max", "max": "min", "ceil": "floor", "floor": "ceil", "zeros": "ones", "any": "all", "all": "any", "sum": "mean", "mean": "sum",
        "argmax": "argmin", "argmin": "argmax", "full": "full", "cumsum": "asarray", "float32": "float64", "float64": "float32", "int32": "int16",
        "searchsorted": "digitize", "logical_not": "asarray", "unique": "asarray", "round": "floor", "abs": "asarray", "sort": "asarray",
        "minimum": "maximum", "maximum": "minimum", "nanmean": "mean"}


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    beg = lambda n: pos(n.lineno, n.col_offset)
    end = lambda n: pos(n.end_lineno, n.end_col_offset)
    text = lambda n: raw[beg(n):end(n)].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            skip.update(ast.walk(n.body[0]))
        if isinstance(n, ast.If) and "ipywidgets" in (text(n.test) if hasattr(n, "test") else "") or isinstance(n, ast.If) and "is_notebook" in text(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            for c in ast.iter_child_nodes(n):
                skip.update(ast.walk(c))
        if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__"):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)

    def add(a, b, new, what):
        out.append((a, b, new, what))

    def between(l, r, new, what):
        a, b = end(l), beg(r)
        seg = raw[a:b].decode()
        m = re.search(r"(not\s+in|is\s+not|[<>=!]=|//|\*\*|[-+*/%<>&|]|\bin\b|\bis\b)", seg)
        if m:
            add(a + len(seg[:m.start()].encode()), a + len(seg[:m.end()].encode()), new, what)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                for new in CMP.get(type(op), []):
                    between(l, r, new, "cmp")
                l = r
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for new in BIN.get(type(n.op), []):
                between(n.left, n.right, new, "bin")
        elif isinstance(n, ast.AugAssign):
            a, b = end(n.target), beg(n.value)
            seg = raw[a:b].decode()
            sw = {"+=": ["-=", "="], "-=": ["+=", "="], "*=": ["/=", "="], "/=": ["*=", "="]}
            for k, vs in sw.items():
                if k in seg:
                    for v in vs:
                        add(a, b, seg.replace(k, v), "aug")
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                a, b = end(l), beg(r)
                seg = raw[a:b].decode()
                k, v = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                m = re.search(r"\b%s\b" % k, seg)
                if m:
                    add(a + m.start(), a + m.end(), v, "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(beg(n), beg(n.operand), "" if isinstance(n.op, ast.USub) else "", "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(beg(n), end(n), str(not v), "const")
            elif isinstance(v, int):
                add(beg(n), end(n), str(v + 1), "const")
                if v > 0:
                    add(beg(n), end(n), str(v - 1), "const")
            elif isinstance(v, float):
                add(beg(n), end(n), repr(v + 1), "const")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            if not isinstance(t, (ast.Compare, ast.UnaryOp)):
                add(beg(t), end(t), "not (%s)" % text(t), "negate")
            add(beg(t), end(t), "False and (%s)" % text(t), "never")
            if not isinstance(n, ast.While):
                add(beg(t), end(t), "True or (%s)" % text(t), "always")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = beg(k), end(k)
                pre = raw[:a].decode(errors="replace")
                m = re.search(r",\s*$", pre)
                if m:
                    a -= len(m.group(0).encode())
                else:
                    m = re.match(rb"\s*,\s*", raw[b:])
                    if m:
                        b += m.end()
                add(a, b, "", "kwarg")
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in ("copy", "astype", "ravel", "flatten", "squeeze") and len(n.args) <= 1:
                    add(end(f.value), end(n), "", "method")
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in SWAP and SWAP[name] != name:
                a = end(f) - len(name)
                add(a, end(f), SWAP[name], "func")
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args
                add(beg(x), end(y), text(y) + raw[end(x):beg(y)].decode() + text(x), "argswap")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    add(beg(x), end(x), "", "slice")
                    if not isinstance(x, ast.Constant):
                        add(beg(x), end(x), "(%s)+1" % text(x), "slice")
        elif isinstance(n, ast.Attribute) and n.attr in ("float32", "float64", "int32"):
            add(end(n) - len(n.attr), end(n), SWAP[n.attr], "dtype")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Raise, ast.Assert, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) or \
                isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(beg(n), end(n), "pass", "delete")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            add(beg(n), end(n), "pass", "delete")
        if isinstance(n, ast.Return) and n.value is not None:
            add(beg(n.value), end(n.value), "None", "return")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(beg(n.type), end(n.type), "ZeroDivisionError", "except")
    res, seen = [], set()
    for a, b, new, what in sorted(set(out)):
        m = raw[:a] + new.encode() + raw[b:]
        if m == raw or m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        ln = raw[:a].count(b"\n") + 1
        res.append((ln, what, m.decode()))
    return res


def c_mutants(src, pyx):
    """Text mutants, line by line."""
    res = []
    lines = src.split("\n")
    R = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!-])<(?![<=])", ["<="]), (r"(?<![->])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
         (r"\+\+", ["--"]), (r"(?<![+eE])\+(?![+=])", ["-"]), (r"(?<![-eE(,=<] )(?<![-eE(,=<])-(?![-=>])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
         (r"(?<![*/a-z])\s\*\s(?![*/])", [" / "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"!(?![=])", [""]), (r"\bnot\b", [""]),
         (r"\b\d+\b", None), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\bfloat\b", ["double"]), (r"\bdouble\b", ["float"]),
         (r"\bint32_t\b|\bINT32_t\b", ["short"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"])]
    doc = False
    for i, l in enumerate(lines):
        s = l.strip()
        if pyx and s.count('"""') == 1:
            doc = not doc
            continue
        if doc or not s or s.startswith(("#include", "//", "*", "/*", "# ", "cimport", "import", "from", "#!", "ctypedef", "typedef", "using", '"""')) or (pyx and s.startswith("#")):
            continue
        code = re.split(r"//|(?<!p)# " if pyx else r"//", l)[0]
        for pat, news in R:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                vs = news if news is not None else [str(int(m.group(0)) + 1)] + ([str(int(m.group(0)) - 1)] if int(m.group(0)) > 0 else [])
                for v in vs:
                    res.append((i + 1, "text", "\n".join(lines[:i] + [l[:m.start()] + v + l[m.end():]] + lines[i + 1:])))
        if re.match(r"^\s*[\w\[\]\.\->\*\(\)]+(\s*[-+*/]?=|\().*;\s*$", code) or (pyx and re.match(r"^\s+[\w\[\]\.,\s]+\s[-+*/]?=\s", code) and not s.startswith("cdef") and code.count("(") == code.count(")")):
            ind = re.match(r"\s*", l).group(0)
            res.append((i + 1, "delete", "\n".join(lines[:i] + [ind + ("pass" if pyx else ";")] + lines[i + 1:])))
    seen, out = set(), []
    for r in res:
        if r[2] not in seen and r[2] != src:
            seen.add(r[2])
            out.append(r)
    return out


def main():
    args = sys.argv[1:]
    opt = {"--jobs": "4", "--workers": "2", "--lines": None, "--checks": None, "--skip": "0"}
    lst = "--list" in args
    args = [a for a in args if a != "--list"]
    pos = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            pos.append(a)
    outp, files = pos[0], pos[1:]
    todo = queue.Queue()
    n = 0
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            j = json.loads(l)
            done.add((j["file"], j["line"], j["diff"]))
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        ms = py_mutants(src) if f.endswith(".py") else c_mutants(src, f.endswith(".pyx"))
        if opt["--lines"]:
            a, b = map(int, opt["--lines"].split("-"))
            ms = [m for m in ms if a <= m[0] <= b]
        for ln, what, new in ms:
            ol, nl = src.split("\n"), new.split("\n")
            i = 0
            while i < min(len(ol), len(nl)) and ol[i] == nl[i]:
                i += 1
            j = 0
            while j < min(len(ol), len(nl)) - i and ol[-1 - j] == nl[-1 - j]:
                j += 1
            diff = " ".join(x.strip() for x in ol[i:len(ol) - j]) + "  =>  " + " ".join(x.strip() for x in nl[i:len(nl) - j])
            if (f, ln, diff) in done:
                continue
            n += 1
            todo.put((f, ln, what, new, diff[:400]))
            if lst:
                print(f, ln, what, diff[:200])
    print(n, "mutants")
    if lst:
        return
    lock = threading.Lock()
    out = open(outp, "a")

    def job():
        root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        copy = root + "/repo"
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        env = dict(os.environ, MC_REPO=copy, MC_WORKERS=opt["--workers"], MC_MAXVIOL="1", MC_EVIDENCE=root + "/ev", MC_BUDGET="300")
        try:
            while True:
                try:
                    f, ln, what, new, diff = todo.get_nowait()
                except queue.Empty:
                    return
                orig = open(os.path.join("/repo", f)).read()
                open(os.path.join(copy, f), "w").write(new)
                t = time.time()
                r = {"file": f, "line": ln, "what": what, "diff": diff, "caught": None, "ran": []}
                try:
                    for c in (opt["--checks"] or MAP[f]).split():
                        p = subprocess.run([os.path.join(V, "check"), c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
                        o = p.stdout.decode(errors="replace")
                        r["ran"].append(c)
                        if p.returncode == 2 and "do not build" in o:
                            r["caught"] = "no build"
                            break
                        if p.returncode != 0:
                            r["caught"] = c if p.returncode == 1 else "%s rc %d" % (c, p.returncode)
                            r["says"] = [l for l in o.splitlines() if l.startswith(c + " [")][:1] or o[-300:]
                            break
                except subprocess.TimeoutExpired:
                    r["caught"] = "timeout"
                r["s"] = round(time.time() - t, 1)
                open(os.path.join(copy, f), "w").write(orig)
                with lock:
                    out.write(json.dumps(r) + "\n")
                    out.flush()
        finally:
            shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=job) for _ in range(int(opt["--jobs"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
