"""Writes /verif/known_findings.json: the open findings below, and one fixed entry per fix: commit of /repo."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
OPEN = [
    {"property": "C10", "key": "save drops the base score",
     "what": "RTEnsemble.save of an ensemble with a base score writes a QuickRank file without it: the reloaded model's scores "
             "are lower by the base score (the format has no place for it)"},
    {"property": "C50", "key": "cached scores written over",
     "what": "RTEnsemble.score(cache=True) hands out the cached arrays themselves: writing into the scores it returned changes what later "
             "scorings and analyses of the same dataset return (copies would double the memory the cache takes, so it is left to the maintainers)"},
]
FIXED = {  # commit subject -> property
    "split rejects": "C37", "kfold rejects": "C37", "Dataset rejects": "C37", "metrics reject": "C37", "models are not pruned": "C37",
    "get_query_offsets reports": "C04", "Dataset.split never puts": "C05", "Dataset.split keeps": "C05", "dataset equality": "C08",
    "SVMlight loader keeps rows": "C01", "SVMlight loader reports": "C02", "SVMlight loader rejects": "C02",
    "SVMlight writer keeps": "C03", "SVMlight writer handles": "C03", "SVMlight writer rejects": "C03",
    "load_svmlight_files": "C01", "an interrupted": "C09", "download_if_missing": "C09", "the catalogue": "C09",
    "Scorer.get_predicted": "C20", "a failed scoring": "C21", "QuickRank loader": "C10", "QuickRank save": "C10",
    "NDCG.eval_per_query": "C35", "MSE.eval": "C35", "RMSE is": "C33", "MAP is": "C31", "Pfound uses": "C32", "Kendalltau": "C34",
    "tree_wise_performance": "C40", "query_class_performance": "C42", "rank_confusion_matrix": "C42", "the bins of": "C41",
    "the average contribution": "C40",
    "the cumulative distributions": "C41", "document_graded": "C41", "feature importance": "C43", "RMSE feature": "C43",
    "normalization of": "C43", "generic feature": "C43", "the randomization": "C44", "bias_variance": "C45",
    "model files": "C16", "the LightGBM loader rejects": "C16", "LightGBM, Jforests and CatBoost loaders": "C16",
    "LightGBM and Jforests loaders": "C16", "fullness_per": "C46", "topological analysis": "C46", "export_graphviz": "C47", "init_plot": "C48", "plot_": "C48",
    "ids that do not fit": "C02", "the columns added to the rows": "C01", "query ids wider": "C07",
    "Dataset rejects queries whose": "C04", "hashing a dataset": "C08", "fetches of a dataset": "C09", "analyses reject": "C37",
    "export_graphviz checks": "C37", "bar plots show": "C48", "LightGBM loader averages": "C11",
    "XGBoost loader": "C12", "CatBoost loader": "C13", "scikit-learn export": "C12",
}
try:
    exec(open(os.path.join(V, "tools", "known_extra.py")).read())
except FileNotFoundError:
    pass
out = [dict(o, status="open") for o in OPEN]
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [FIXED[k] for k in sorted(FIXED, key=len, reverse=True) if s[5:].startswith(k)]
    assert m, s
    out.append({"property": m[0], "key": "fixed " + h, "status": "fixed", "what": "fixed: property=%s %s %s" % (m[0], h, s[5:])})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "findings")
