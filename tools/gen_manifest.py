"""Writes /verif/MANIFEST.json from the check modules (run by hand after adding a check)."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
TECH = {"exploration": "bounded exhaustive exploration of the real code against a reference model",
        "fault_enumeration": "exhaustive enumeration of crash and fault points on the real code",
        "model_checking": "explicit-state exploration of operation histories against a model replayed on the real code"}
for i in ids:
    p = os.path.join(V, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(p):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    c = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            try:
                if isinstance(t, ast.Tuple):
                    c.update({a.id: v for a, v in zip(t.elts, ast.literal_eval(n.value))})
                else:
                    c[t.id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    note = "Exhaustive within the bounds: " + c["RULE"] + ". Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i,
                   "technique": c.get("TECHNIQUE", TECH[c["LEVEL"]]), "level": c["LEVEL"], "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API of the current working tree; native extensions are rebuilt in /verif/.build when their sources differ from the in-place build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
