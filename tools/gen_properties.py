"""Writes /verif/properties.jsonl (run by hand whenever a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

D, M, S, A, V, T = ("rankeval/dataset/", "rankeval/model/", "rankeval/scoring/",
                    "rankeval/analysis/", "rankeval/visualization/", "rankeval/metrics/")

# ------------------------------------------------------------------ datasets
p("C01", "SVMlight loading returns exactly what the file says",
  "Loading a well-formed SVMlight/LETOR file returns one row per data line, in file order, with the written label, query id and feature values (missing features are 0, the width is the largest feature id) whatever mix of comments, spacing, line endings, query-id markers, number notations and compression the file uses. Loading several files returns each file's own rows and labels, all with the width of the widest file.",
  ["inputs"], "every well-formed file over the line/token alphabet, every file size, every way of passing the file (path, .gz, .bz2, file object, descriptor)",
  "The tests load three fixed files; the C++ tokenizer and buffer code behaves differently per token, per line position and per size, so only enumeration of line sequences and sizes can settle it.",
  [D+"_svmlight_format.cpp", D+"svmlight_format.py"],
  [("parse_line / parse_file tokenizer and DatasetBuilder", D+"_svmlight_format.cpp"), ("_gen_open/_load_svmlight_file/load_svmlight_files", D+"svmlight_format.py")],
  ["load_svmlight_file", "load_svmlight_files", "Dataset.load"])
p("C02", "Malformed or unreadable SVMlight input is rejected, never half loaded",
  "Loading a file that contains a malformed line (bad label, bad query id, bad feature pair, negative, repeated or unsorted feature index) raises an error at whatever line and position it occurs, and an I/O or decompression error in the middle of a file is raised to the caller. Neither case ever crashes the interpreter, and neither ever returns a dataset. A blank line may be skipped or rejected but never silently ends the file.",
  ["inputs", "fault_sequences"], "every placement of every kind of malformed token in every short file; every point at which a read can fail and every truncation point of a compressed file",
  "The tests feed two malformed files and no read faults; position of the error relative to the buffers, and the failing read, are universally quantified.",
  [D+"_svmlight_format.cpp", D+"svmlight_format.py"],
  [("SyntaxError exceptions translated to ValueError", D+"_svmlight_format.cpp"), ("parse_file read loop", D+"_svmlight_format.cpp")],
  ["load_svmlight_file", "Dataset.load"])
p("C03", "Dumping a dataset and loading it back is the identity",
  "Writing any feature matrix, label vector and optional query-id vector with the SVMlight writer (or a Dataset with its dump method) and loading the file back yields the same rows in the same order, the same labels and query ids, and features equal to single precision. This holds whatever the memory layout and type of the arrays and whether the target is a path (plain or compressed), an open file or a descriptor, and dumping never modifies its arguments. Labels or query ids of the wrong size are rejected, and a failed write is reported.",
  ["inputs"], "every small matrix over a value alphabet, every layout (C, Fortran, strided, sliced, float64), every size and every value magnitude of the alphabet, with and without query ids",
  "The tests dump one C-ordered matrix; layout, dtype, magnitude and size combinations are not sampled.",
  [D+"_svmlight_format.cpp", D+"svmlight_format.py", D+"dataset.py"],
  [("dump_svmlight_file", D+"_svmlight_format.cpp"), ("dump_svmlight_file wrapper", D+"svmlight_format.py"), ("Dataset.dump", D+"dataset.py")],
  ["dump_svmlight_file", "Dataset.dump", "load_svmlight_file"])
p("C04", "A dataset's query structure is exactly the grouping of its query ids",
  "A Dataset built from X, y and per-row query ids (rows of a query contiguous) has one query per run of equal ids, in order of appearance: its query ids, offsets, sizes, iterator and per-row query ids all describe exactly that grouping of the original rows. Looking up the rows of a query id returns that query's range, an unknown id is reported as a lookup failure, and a wrong number of query ids is rejected.",
  ["inputs"], "every sequence of query sizes and every assignment of (distinct, arbitrarily ordered and arbitrarily large) ids within the bounds",
  "The only stable dataset test checks an unsupported file format; grouping is never exercised with unordered, large or singleton ids.",
  [D+"dataset.py"],
  [("Dataset.__init__ computes query_ids/query_offsets", D+"dataset.py"), ("query_iterator, get_query_sizes, get_qids_dataset, get_query_offsets", D+"dataset.py")],
  ["Dataset", "Dataset.query_iterator", "Dataset.get_query_sizes", "Dataset.get_qids_dataset", "Dataset.get_query_offsets"],
  [("query_offsets", "row boundaries of the queries", "Dataset"), ("query_ids", "id of each query", "Dataset")])
p("C05", "Dataset.split partitions the queries into disjoint train, validation, test",
  "For every dataset, every admissible split sizes and every random choice, the train, validation and test datasets together contain every query of the dataset exactly once in total, with all its rows, labels, features and its id. Each part has the number of queries its requested share implies (rounded to nearest; the rest goes to the test part), a given random_state always gives the same split, and the source dataset is not modified, not even by writing into the rows of the parts, which are their own.",
  ["inputs", "schedules"], "every query-size profile, every admissible (train_size, vali_size) pair and every outcome of the random shuffle within the bounds",
  "No stable test splits a dataset; overlaps appear only for particular sizes and particular shuffles.",
  [D+"dataset.py"], [("Dataset.split", D+"dataset.py"), ("Dataset.subset", D+"dataset.py")], ["Dataset.split"])
p("C06", "k-fold cross-validation partitions the queries in every fold",
  "For every dataset, number of folds between 2 and the number of queries and shuffle outcome, each fold produced by the k-fold splitter splits the queries into disjoint train, validation and test datasets that together hold every query (rows, labels and id intact). Over all folds every query is in exactly one test set and in exactly one validation set, and none of these is empty. The parts have rows of their own: writing into them changes neither the dataset nor another part nor a later fold.",
  ["inputs", "schedules"], "every query-size profile with 3 <= folds <= queries, every fold count, every shuffle outcome within the bounds",
  "No test calls it; leakage shows only for particular remainders of queries/folds and particular folds.",
  [D+"dataset.py"], [("Dataset.kfold_split", D+"dataset.py")], ["Dataset.kfold_split"])
p("C07", "Query and feature subsets keep exactly the selected rows and columns",
  "Selecting a subset of queries returns a dataset with exactly those queries, in the order of the dataset, each with its rows, labels and id unchanged; selecting a subset of features returns the same queries, labels and ids with exactly those feature columns in the requested order. The source dataset is never modified - not even by writing into the rows of the selection, which are its own - and chains of such selections compose.",
  ["inputs", "histories"], "every selection (ordered, up to the bound) of queries/features on every small dataset and every sequence of selections up to the depth bound",
  "No test selects subsets; aliasing and ordering errors need particular selections or sequences.",
  [D+"dataset.py"], [("Dataset.subset", D+"dataset.py"), ("Dataset.subset_features", D+"dataset.py")], ["Dataset.subset", "Dataset.subset_features"])
p("C08", "Dataset equality and hashing agree with dataset content",
  "Two datasets compare equal if and only if they have the same feature matrix, labels and grouping into queries, whatever their names and array memory layout; equal datasets hash equally, and comparing a dataset with anything else is False and never an error. So a result cached for one dataset is never returned for another.",
  ["inputs", "histories"], "all pairs of datasets from the enumerated universe, in every memory layout",
  "Equality is only exercised on identical objects today; the wrong answer needs a pair that differs in one component only.",
  [D+"dataset.py"], [("Dataset.__eq__/__hash__", D+"dataset.py")], ["Dataset.__eq__", "Dataset.__hash__", "NDCG/Scorer caches keyed by dataset"])
p("C09", "The dataset fetcher's local store survives interruption and never mixes data",
  "After any sequence of fetches, crashes and I/O or network failures at any point, a fetch that succeeds returns datasets and models whose content is exactly the published content for the requested name and fold, and a partially downloaded or partially extracted state is never taken for a complete one; once failures stop, a fetch succeeds. With download_if_missing=False nothing is ever downloaded, and fetching one dataset touches nothing of another.",
  ["crash_points", "fault_sequences", "histories"], "every crash point and every single fault of a fetch, followed by every recovery fetch, over the catalogue configurations",
  "The tests cannot reach the network at all and inject neither crashes nor faults.",
  [D+"datasets_fetcher.py", D+"dataset_container.py"],
  [("load_dataset, __fetch_dataset_and_models, presence tests on folders", D+"datasets_fetcher.py")],
  ["load_dataset", "clear_data_home", "get_data_home"],
  [("data home", "folders of downloaded datasets and models", "$RANKEVAL_DATA or ~/rankeval_data")])
# ------------------------------------------------------------------ models
p("C10", "QuickRank models load faithfully and survive a save/load round trip",
  "A QuickRank XML ensemble file is loaded with exactly its trees, split features and thresholds, leaf outputs and tree weights, so every document gets the score the file defines. Saving an ensemble as QuickRank XML and loading it back gives an ensemble with the same trees that assigns every document the same score (the learning rate may be folded into the tree weights); the saved file states in its header the ensemble's number of trees, the largest number of leaves of a tree and the learning rate, and numbers its trees 1, 2, 3, ... in order.",
  ["inputs"], "every tree shape up to the bound, in ensembles of every small size, over a feature/threshold/output/weight alphabet, over documents that reach both sides and the boundary of every split",
  "One fixed ensemble of the tests pins a few attributes of two trees; shapes, order of branches and node numbering are quantified.",
  [M+"proxy_QuickRank.py", M+"rt_ensemble.py"],
  [("ProxyQuickRank.load/save", M+"proxy_QuickRank.py")], ["RTEnsemble(format='QuickRank')", "RTEnsemble.save"])
p("C11", "LightGBM and Jforests models load to the ensembles the files define",
  "Loading a LightGBM text model or a Jforests XML model produces an ensemble in which every document reaches, in every tree, the leaf the file's own semantics define (value <= threshold goes left) and gets the sum of the (weighted, for Jforests) outputs of those leaves. LightGBM splits the ensemble cannot represent (categorical, missing-value handling) are rejected with an error.",
  ["inputs"], "every tree shape up to the bound with every node numbering the formats allow, ensembles of several trees of different shapes, documents on both sides and on the boundary of every split",
  "The tests need model files of fixed ensembles and fail to run; shapes and numberings are quantified.",
  [M+"proxy_LightGBM.py", M+"proxy_Jforests.py", M+"rt_ensemble.py"],
  [("ProxyLightGBM.load", M+"proxy_LightGBM.py"), ("ProxyJforests.load", M+"proxy_Jforests.py")], ["RTEnsemble(format='LightGBM')", "RTEnsemble(format='Jforests')"])
p("C12", "XGBoost and scikit-learn models load to the ensembles they define",
  "Loading an XGBoost text dump produces an ensemble in which a document goes to a node's yes-child exactly when its feature value is strictly below the dumped threshold, and loading an exported scikit-learn tree ensemble produces one where value <= threshold goes left; every document gets the sum of the outputs of the leaves it reaches. The scikit-learn export of a fitted ensemble followed by loading reproduces that ensemble's predictions, to single precision, up to its documented learning rate and initial prediction.",
  ["inputs"], "every tree shape up to the bound, thresholds of every magnitude and sign representable in single precision, documents at, just below and just above every threshold",
  "Fixed ensembles are never scored against the source semantics; the strict comparison matters only at exact threshold values and only for some magnitudes.",
  [M+"proxy_XGBoost.py", M+"proxy_ScikitLearn.py", M+"rt_ensemble.py"],
  [("ProxyXGBoost.load", M+"proxy_XGBoost.py"), ("ProxyScikitLearn.load/export_scikit_model", M+"proxy_ScikitLearn.py")],
  ["RTEnsemble(format='XGBoost')", "RTEnsemble(format='ScikitLearn')"])
p("C13", "CatBoost models load to the oblivious trees they define",
  "Loading a CatBoost model exported to CoreML produces an ensemble in which every document reaches, in every tree, the leaf that the model's branch conditions define and gets the base prediction plus the sum of the values of those leaves, for trees of any depth - equal or different - within one ensemble. Branch conditions the ensemble cannot represent are rejected with an error.",
  ["inputs"], "every combination of tree depths up to the bound and ensembles of several trees, every document over the split alphabet",
  "The tests use one fixed ensemble of equally deep trees.",
  [M+"proxy_CatBoost.py", M+"rt_ensemble.py"], [("ProxyCatBoost.load", M+"proxy_CatBoost.py")], ["RTEnsemble(format='CatBoost')"])
p("C14", "Pruning and copying an ensemble keep exactly a prefix of its trees",
  "Copying an ensemble with n trees yields an independent ensemble holding exactly its first n trees (all, by default) with their weights, learning rate and base score, and loading a file limited to n trees keeps exactly its first n; every kept tree's structure, outputs and weight are unchanged, so scores are those of the kept trees. No sequence of copies and scorings on one ensemble, and no writing into its arrays, ever changes another.",
  ["inputs", "histories"], "every ensemble of the universe, every n, every sequence of copy/prune/score operations up to the depth bound",
  "No test prunes or copies; stale sizes or aliasing show only after particular sequences.",
  [M+"rt_ensemble.py"], [("RTEnsemble.prune/copy/initialize", M+"rt_ensemble.py")], ["RTEnsemble.prune", "RTEnsemble.copy", "RTEnsemble.score"])
p("C15", "Ensemble size statistics describe the real trees",
  "The number of trees, nodes and leaves an ensemble reports, whether a node is a leaf, and each tree's height and leaf count are exactly those of the trees in the ensemble, after loading, copying and pruning alike.",
  ["inputs", "histories"], "every tree shape up to the bound, ensembles of several shapes, after every copy/prune",
  "One fixed two-tree ensemble is checked; single-leaf trees, degenerate chains and mixtures are not.",
  [M+"rt_ensemble.py", A+"topological.py"], [("RTEnsemble.num_nodes/num_leaves/num_trees/is_leaf_node", M+"rt_ensemble.py"), ("TopologicalAnalysisResult.describe_tree", A+"topological.py")],
  ["RTEnsemble", "TopologicalAnalysisResult.describe_tree"])
p("C16", "Damaged or unsupported model files are rejected, never loaded as something else",
  "Loading a model file either yields exactly the ensemble the file describes or raises an error. A file that was cut short, that lacks, repeats or contradicts a part of a tree, whose numbers cannot be read or whose node references do not form trees, that uses something RankEval does not support (categorical or missing-value splits, named features, linear trees, several trees per iteration, other branch conditions), that is written in another format, that is empty or not a model at all, never becomes an ensemble - in any of the supported formats.",
  ["fault_sequences", "inputs"], "every cut, every deleted, repeated or altered piece of the files of every small ensemble in every format, every array of child references and every sequence of node lines up to the bound",
  "Tests load intact files of supported kinds only; a partial load gives scores that look plausible.",
  [M+"rt_ensemble.py", M+"proxy_QuickRank.py", M+"proxy_LightGBM.py", M+"proxy_XGBoost.py", M+"proxy_ScikitLearn.py", M+"proxy_Jforests.py", M+"proxy_CatBoost.py"],
  [("RTEnsemble.__init__ (completeness of the loaded trees)", M+"rt_ensemble.py"), ("ProxyLightGBM.load (decision types)", M+"proxy_LightGBM.py"), ("ProxyCatBoost.load (behaviors)", M+"proxy_CatBoost.py")],
  ["RTEnsemble(file_path, format=...)"])
# ------------------------------------------------------------------ scoring
p("C20", "An ensemble scores every document by the leaves it reaches",
  "Scoring a dataset gives every document the learning rate times the sum over trees of tree weight times the output of the leaf reached by going left when the feature value is <= the threshold, plus the base score; the detailed scores hold one column per tree whose entries are that tree's contribution (the base score in the first), and predicted leaves identify the reached leaf of every tree. A model that uses more features than the dataset has is rejected with an error, and inputs are never modified.",
  ["inputs"], "every ensemble of the universe against every document of the alphabet, every dataset size and memory layout within the bounds",
  "The stable tests never score a dataset; shapes, boundary values and document counts are quantified.",
  [S+"scorer.py", S+"_efficient_scoring.pyx", M+"rt_ensemble.py"],
  [("basic_tree_scoring / detailed_tree_scoring / leaf index kernels", S+"_efficient_scoring.pyx"), ("Scorer.score", S+"scorer.py"), ("RTEnsemble.score", M+"rt_ensemble.py")],
  ["RTEnsemble.score", "Scorer.score", "Scorer.get_predicted_scores", "Scorer.get_partial_predicted_scores", "Scorer.get_predicted_leaves"])
p("C21", "Score caching is invisible: any call history gives fresh results",
  "Whatever the history of score calls (plain or detailed, cached or not, on equal or different datasets), cache clearing, copying, pruning and failed calls on an ensemble, each call returns exactly what a freshly built ensemble would return for that dataset and those arguments, and each failing call fails again when repeated.",
  ["histories"], "every operation sequence up to the depth bound over several datasets (equal, differing in one component) and ensembles",
  "Tests never issue two different calls on one ensemble; cache bugs need specific call sequences.",
  [M+"rt_ensemble.py", S+"scorer.py", D+"dataset.py"], [("RTEnsemble._cache_scorer", M+"rt_ensemble.py"), ("Scorer partial/full score memo", S+"scorer.py")],
  ["RTEnsemble.score", "RTEnsemble.clear_cache", "Scorer"],
  [("scorer cache", "scorer per dataset, keyed by dataset equality", "RTEnsemble._cache_scorer")])
p("C22", "Parallel kernels give the same result for every schedule and thread count",
  "The native kernels that score documents, analyse tree topology and compute feature importance give the same results, up to the rounding of floating-point sums, for every number of threads and every interleaving of their threads: concurrent iterations never touch the same memory location with a write.",
  ["schedules", "inputs"], "every team size up to the bound, every assignment of loop iterations to threads and every order of conflicting accesses, on the enumerated ensembles and datasets",
  "The OS scheduler picks one interleaving per test run and the tests do not even run the kernels.",
  [S+"_efficient_scoring.pyx", A+"_efficient_topological.pyx", A+"_efficient_feature.pyx", A+"_efficient_feature_impl.cpp"],
  [("prange loops writing disjoint rows", S+"_efficient_scoring.pyx"), ("omp parallel for with atomics/critical", A+"_efficient_feature_impl.cpp")],
  ["RTEnsemble.score", "topological_analysis", "feature_importance"])
# ------------------------------------------------------------------ metrics
p("C30", "DCG and NDCG follow their definitions on every ranking",
  "For every query, cutoff and gain implementation, DCG is the sum over the top-ranked documents of gain(label)/log2(rank+1) for a ranking that sorts documents by descending score, and NDCG is that DCG divided by the best achievable DCG at the same cutoff (or the configured value when the query has no relevant document), hence within [0,1] and 1 for an ideal ranking.",
  ["inputs", "configurations"], "every label vector and every score vector (all rankings, ties included) up to the bound, every cutoff and every configuration",
  "The metric tests cannot run in this environment and sample single rankings.",
  [T+"dcg.py", T+"ndcg.py", T+"metric.py"], [("DCG.eval_per_query", T+"dcg.py"), ("NDCG.eval_per_query and ideal DCG cache", T+"ndcg.py")], ["DCG", "NDCG"])
p("C31", "Binary-relevance metrics follow their definitions on every ranking",
  "For every query, cutoff, relevance threshold and configuration, Precision, Recall, MAP, MRR, RBP and max-precision equal their textbook definitions on a ranking by descending score: a document is relevant when its label reaches the threshold (above 0 for MAP; the query's highest label for max-precision), only the first cutoff ranks count, and the configured value is returned exactly when the query has no relevant document.",
  ["inputs", "configurations"], "every label vector and every ranking (ties included) up to the bound, every cutoff, threshold and configuration",
  "Sampled rankings only, and the tests cannot run here; off-by-one errors need particular cutoffs and label positions.",
  [T+"precision.py", T+"recall.py", T+"map.py", T+"mrr.py", T+"rbp.py", T+"precision_max.py", T+"metric.py"],
  [("eval_per_query of each metric", T), ("Metric.get_eval_at / top-k selection", T+"metric.py")], ["Precision", "Recall", "MAP", "MRR", "RBP", "PrecisionMax"])
p("C32", "ERR and Pfound follow their cascade definitions on every ranking",
  "For every query, cutoff and configuration, ERR is the expected reciprocal rank at which the cascade user stops (stopping probability (2^label-1)/2^max_label, with the query's highest label) and Pfound is the probability that the user finds a satisfying document, with the same label-derived probabilities and the configured probability of abandoning after each document; only the first cutoff ranks count.",
  ["inputs", "configurations"], "every label vector and every ranking up to the bound, every cutoff and parameter of the alphabet",
  "Sampled rankings only; the tests cannot run here.",
  [T+"err.py", T+"pfound.py"], [("ERR.eval_per_query", T+"err.py"), ("Pfound.eval_per_query", T+"pfound.py")], ["ERR", "Pfound"])
p("C33", "MSE and RMSE measure squared error per query and overall",
  "For every label vector and score vector, the MSE of a query alone is the sum of its squared errors, and over a dataset each query counts its share of the mean squared error over all documents, which is the overall value; the RMSE of a query is the root of its mean squared error, and the overall value the mean over queries. Both are 0 exactly when every considered score equals its label, do not depend on how documents are ordered within queries, and with a cutoff consider only the top-ranked documents.",
  ["inputs"], "every label and score vector over dyadic alphabets up to the bound, every query partition",
  "Sampled vectors only; the tests cannot run here.",
  [T+"mse.py", T+"rmse.py"], [("MSE.eval / eval_per_query", T+"mse.py"), ("RMSE.eval / eval_per_query", T+"rmse.py")], ["MSE", "RMSE"])
p("C34", "Kendall tau and Spearman rho follow their definitions on every ranking",
  "For every query, Kendall's tau is the tie-corrected normalised difference of concordant and discordant pairs between scores and labels, and Spearman's rho is the correlation of their (tie-averaged) ranks, both within [-1,1], 1 for perfect agreement and -1 for perfect reversal, and not-a-number where undefined (all labels or all scores equal).",
  ["inputs", "configurations"], "every label and score vector up to the bound (ties included), every cutoff",
  "Sampled vectors only; the tests cannot run here.",
  [T+"kendall_tau.py", T+"spearman_rho.py"], [("Kendalltau.eval_per_query", T+"kendall_tau.py"), ("SpearmanRho.eval_per_query", T+"spearman_rho.py")], ["Kendalltau", "SpearmanRho"])
p("C35", "A metric over a dataset is the per-query results, whatever was computed before",
  "For every metric, evaluating a dataset returns one value per query, in query order, each equal to evaluating that query alone, and their mean over the queries where it is defined as the overall value (mean squared error over documents for MSE); the result depends only on the dataset, the scores and the metric's configuration, never on what the same metric object evaluated before. Evaluation never modifies labels or scores.",
  ["inputs", "histories"], "every query partition of small datasets, every sequence of evaluations up to the depth bound over several datasets and score vectors on one metric object",
  "Tests evaluate each metric object once on one dataset; state carried between evaluations needs a history.",
  [T+"metric.py", T+"ndcg.py", T+"mse.py", T+"rmse.py"], [("Metric.eval, query_iterator", T+"metric.py"), ("NDCG._cache_idcg/_current_rel_qid", T+"ndcg.py")], ["every metric's eval and eval_per_query"],
  [("ideal DCG cache", "per dataset and cutoff", "NDCG")])
p("C36", "Metrics, datasets and models keep labels that tell them apart",
  "The label of a metric states its name, its cutoff and its relevance threshold when that is not the default, so that two configurations of a metric that differ in one of them never share a label; the label and the configuration are the same before and after any evaluation. A dataset or a model is labelled by the name it was given; feature subsets, copies and pruned models keep the name of their source, the parts of a split carry the name of the dataset and which part they are, a subset carries the name given to it, and no operation renames an existing object.",
  ["configurations", "histories"], "every metric, name, cutoff and threshold of the universe; every history of derived datasets and models up to the depth bound",
  "Tables and plots identify rows only by these labels; a label that drops the cutoff in one class, or a derived dataset that takes another name, mixes up results silently.",
  [T+"ndcg.py", T+"mrr.py", T+"recall.py", T+"precision.py", T+"rbp.py", D+"dataset.py", M+"rt_ensemble.py"], [("Metric.__str__", T+"metric.py"), ("Dataset.__str__, split, subset", D+"dataset.py"), ("RTEnsemble.__str__, copy", M+"rt_ensemble.py")],
  ["str(metric)", "str(dataset)", "str(model)"])
p("C37", "What cannot be done is rejected and leaves no trace",
  "A call that cannot be honoured - an unsupported file or model format, a missing or unusable file, labels, query ids or predictions that do not match the documents, shares or numbers of folds out of range, features, queries or trees that do not exist, a dataset without the features of the model in any position of an analysis - raises an exception instead of returning a result. It leaves every file and every object as it was, and every later call answers exactly as if the rejected call had never been made.",
  ["histories", "inputs"], "every rejected call of the universe after every history of good calls up to the depth bound, and every pair of rejected calls, followed by every good call",
  "Tests exercise calls that succeed; an argument check that lets one case through returns a silently wrong result, and state left by a failed call shows only in the calls that follow.",
  [D+"dataset.py", D+"svmlight_format.py", M+"rt_ensemble.py", T+"metric.py", T+"ndcg.py", A+"effectiveness.py"], [("Dataset.__init__, load, dump, split, kfold, get_query_offsets", D+"dataset.py"), ("RTEnsemble.__init__, save, score, copy", M+"rt_ensemble.py"), ("Metric.query_iterator", T+"metric.py"), ("NDCG.eval", T+"ndcg.py")],
  ["Dataset", "RTEnsemble", "every metric", "every analysis"])
p("C38", "A write that fails is reported and leaves no file that passes for complete",
  "When a model or a dataset cannot be written in full - the disk or the file size limit is hit after any number of bytes, or an operation of the given file object fails - the call raises; it never reports success. The object written is intact and writing it again gives the complete file. A saved model or a compressed dataset cut at any byte is rejected when it is loaded, or (when only closing characters are missing) equals the complete one.",
  ["fault_sequences", "crash_points"], "every byte at which writing can fail or the file can end, every operation of the file object, for every writer and object of the universe",
  "Tests only write to a disk with room; a success that is reported before the last buffer is flushed is visible only when that flush fails.",
  [M+"proxy_QuickRank.py", M+"proxy_ScikitLearn.py", D+"svmlight_format.py", D+"_svmlight_format.cpp", V+"topological.py"], [("ProxyQuickRank.save", M+"proxy_QuickRank.py"), ("dump_svmlight_file", D+"svmlight_format.py"), ("dump_svmlight_file (native)", D+"_svmlight_format.cpp"), ("export_scikit_model", M+"proxy_ScikitLearn.py")],
  ["RTEnsemble.save", "Dataset.dump", "export_scikit_model", "export_graphviz"])
p("C39", "Defaults, keywords and positions of arguments mean what the signatures document",
  "For every public operation, leaving out an optional argument gives the same answer as passing its documented default, and passing arguments by position gives the same answer as passing them by keyword in the documented order, in every combination.",
  ["programs", "configurations"], "every operation x every choice of values within the deviation bound x every way of passing them",
  "Tests call each operation in one way; code written against the documented signatures relies on all of them.",
  [T+"ndcg.py", T+"rbp.py", D+"dataset.py", M+"rt_ensemble.py", A+"effectiveness.py", A+"statistical.py", V+"topological.py"], [("constructors of the metrics", "rankeval/metrics"), ("Dataset.split, kfold, load, dump", D+"dataset.py"), ("analyses", A), ("export_graphviz", V+"topological.py")],
  ["every public operation with optional arguments"])
# ------------------------------------------------------------------ analyses
p("C40", "Effectiveness tables hold the metric of exactly the named model and dataset",
  "Every cell of the model-performance table is the metric's value for that dataset and that model's scores; every cell of the tree-wise table for k trees is the metric's value for the ensemble truncated to its first k trees, with k covering the documented steps up to the full ensemble; every entry of the average-contribution table is the mean over documents of the absolute contribution of that tree (the base score counts with the first). Inputs are left unchanged.",
  ["inputs"], "every list of models, datasets and metrics up to the bound, every step and every ensemble size (equal or different)",
  "No stable test runs an analysis.",
  [A+"effectiveness.py"], [("model_performance, tree_wise_performance, tree_wise_average_contribution", A+"effectiveness.py")], ["model_performance", "tree_wise_performance", "tree_wise_average_contribution"])
p("C41", "Query-wise and relevance-wise distributions are the true cumulative curves",
  "The query-wise performance curve gives, at each bin boundary, the fraction of queries whose metric value is at most (up to values equal to it) that boundary, and the document-graded-relevance curve gives, for each label, the fraction of documents with that label whose predicted score is at most the boundary; values below the start of the range count. Curves are non-decreasing and belong to the dataset, model and metric (or label) they are labelled with; labels a dataset does not have are undefined for it.",
  ["inputs"], "every small dataset/score assignment, every bin count and range, lists of models, datasets and metrics",
  "No stable test runs an analysis.",
  [A+"effectiveness.py"], [("query_wise_performance, document_graded_relevance", A+"effectiveness.py")], ["query_wise_performance", "document_graded_relevance"])
p("C42", "Query-class averages and rank-confusion counts are exact",
  "Query-class performance reports, for every class, the mean metric value of exactly the queries of that class, and is undefined for a class without queries in the dataset. The rank confusion matrix counts, in the cell (i, j), exactly the same-query document pairs where a document of label i has a strictly lower predicted score than one of label j (pairs of the same label only if requested). Labels need not be contiguous, and datasets need not have equal sizes or label sets.",
  ["inputs"], "every class assignment, every small labelled and scored dataset, every label set up to the bound",
  "No stable test runs an analysis.",
  [A+"effectiveness.py"], [("query_class_performance, rank_confusion_matrix", A+"effectiveness.py")], ["query_class_performance", "rank_confusion_matrix"])
p("C43", "Feature importance is the error reduction of the splits on that feature",
  "Feature importance attributes to each feature exactly the reduction of the mean squared error (its root for RMSE, the drop of the metric for others) that its splits produce when trees are fitted in order to the residuals of the documents of the dataset, and the feature count is the number of split nodes using the feature; features never used get 0. Normalised importances are relative to the largest. Single-leaf trees and any memory layout or dtype of the dataset are handled, and a model using features the dataset lacks is rejected with an error.",
  ["inputs"], "every ensemble of the universe against every small labelled dataset, every layout",
  "The feature tests cannot run here and check one fixed model.",
  [A+"feature.py", A+"_efficient_feature.pyx", A+"_efficient_feature_impl.cpp"], [("feature_importance", A+"feature.py"), ("eff_feature_importance / impl", A+"_efficient_feature_impl.cpp")], ["feature_importance"])
p("C44", "The randomisation test is an exact count over the permutations drawn",
  "For every outcome of the random permutations, each of which swaps the two systems' per-query results independently, the two-sided p-value reported by the statistical-significance test is the fraction of permutations whose absolute mean difference is at least the observed one, and the one-sided value counts only differences in favour of the better system. Both are in [0,1], 1 when the systems are identical; the test is symmetric in the two systems, and each value belongs to the metric and dataset it is labelled with.",
  ["inputs", "schedules"], "every pair of per-query value vectors over the alphabet and every outcome of the random swaps within the bounds",
  "A random test run samples a few permutations; the counting rule at ties and at the observed arrangement is universally quantified.",
  [A+"statistical.py"], [("statistical_significance, _randomization", A+"statistical.py")], ["statistical_significance"])
p("C45", "Bias/variance decomposition and k-fold scoring use only held-out predictions",
  "In k-fold scoring, whatever the random fold assignment, every query is scored in every round exactly once, by a model that was trained on the other folds only and never saw any of its documents. The reported error, bias and variance are those of the predictions so obtained (error of each prediction, error of the mean prediction, spread around it) and satisfy error = bias + variance for squared error.",
  ["inputs", "schedules"], "every fold count, round count, query-size profile and shuffle outcome within the bounds, with training algorithms that record what they saw",
  "The test needs scikit-learn training on fixed data and cannot show absence of leakage for every shuffle.",
  [A+"statistical.py"], [("bias_variance, _kfold_scoring", A+"statistical.py")], ["bias_variance"])
p("C46", "Topological analysis reports the true shape of the ensemble",
  "For every ensemble, the number of trees having a node at each position (level and place in the level), the average tree shape, the fullness of each level and the height of every tree reported by the topological analysis - with or without leaves - equal those of the trees themselves; trees too high to be represented are rejected with an error.",
  ["inputs"], "every tree shape up to the bound and every small ensemble of shapes",
  "No stable test runs it.",
  [A+"topological.py", A+"_efficient_topological.pyx"], [("topological_analysis", A+"topological.py"), ("eff_topological_analysis", A+"_efficient_topological.pyx")], ["topological_analysis", "TopologicalAnalysisResult"])
p("C47", "Graphviz export draws exactly the tree it is given",
  "The DOT text exported for a tree is well formed and describes exactly that tree: one graph node per tree node (down to the requested depth), the true parent-child edges with the left branch meaning the condition holds, the true split feature (or its given name) and threshold for split nodes and the true output for leaves, at the requested precision; document counts and percentages, when asked for, are the true ones. Too few feature names, tree ids out of range and invalid options are rejected.",
  ["inputs", "configurations"], "every tree shape up to the bound, every tree of an ensemble, every depth limit and combination of display options",
  "Never tested.",
  [V+"topological.py"], [("export_graphviz", V+"topological.py")], ["export_graphviz"])
p("C48", "Plots draw exactly the analysis values they are given",
  "Every plotting function accepts every result its matching analysis produces, undefined values included, and draws exactly those values: each curve, bar or cell carries the value of the table entry it is labelled with, one figure per documented grouping, the most important features first, and the input is left unchanged.",
  ["inputs", "configurations"], "every analysis result shape (numbers of models, datasets, metrics, cutoffs) up to the bound and every plotting option",
  "Never tested.",
  [V+"effectiveness.py", V+"feature.py", V+"topological.py"], [("plot_* functions", V)], ["rankeval.visualization"])
p("C49", "Running in a notebook changes nothing but a progress bar",
  "Every analysis gives the same table (values, labels, errors) and consumes the random generator in the same way in a plain interpreter, in an IPython terminal and in a notebook, with or without the notebook widgets being available. Only in a notebook with widgets it displays progress bars, each of which is displayed once, moves within its range and is closed when the analysis ends.",
  ["configurations", "inputs"], "every environment (interpreter, terminal, other shells, notebook with and without widgets or display) x every argument combination of the analyses with progress bars within the bounds",
  "The tests run in a plain interpreter, where every progress-bar statement is dead code.",
  [A+"statistical.py", A+"effectiveness.py", "rankeval/__init__.py"], [("is_notebook", "rankeval/__init__.py"), ("progress bars", A+"statistical.py"), ("tree_wise_performance", A+"effectiveness.py")],
  ["tree_wise_performance", "statistical_significance", "bias_variance", "is_notebook"])
p("C50", "Calls are independent of each other",
  "What an operation returns depends on its arguments only: any sequence of loads, selections, splits, scorings, metric evaluations, analyses, exports and plots on shared datasets, models and metric objects gives, for each call, bitwise the answer that call gives when it is the only one made (with the same random seed). An answer belongs to who asked: writing over it changes neither the objects nor later answers. Answers returned earlier, the arguments and process-wide settings (warnings, numpy error handling, random generator of operations that do not draw, locale, working directory, environment) are not changed by later calls. Datasets or models of the same name, and equal or nearly equal ones, are never mistaken for each other.",
  ["histories"], "every sequence of operations of the alphabet up to the depth bound on shared objects",
  "Tests make a fresh fixture and one call; caches, shared buffers and altered settings only show in later calls.",
  [D+"dataset.py", M+"rt_ensemble.py", S+"scorer.py", A+"effectiveness.py", A+"statistical.py", T+"metric.py", T+"dcg.py", T+"rmse.py"], [("score caching", M+"rt_ensemble.py"), ("metric objects and their caches", "rankeval/metrics"), ("analyses", A)],
  ["sequences of public operations"])
p("C51", "Operations give back what they open and allocate, and keep what they were given",
  "Every operation - successful, rejected, on malformed input, or cut short by a failing file - closes the files it opened, holds no references to its arguments beyond those the result needs, and, repeated, does not keep allocating memory (Python or native). File objects given by the caller stay open and usable. Arrays loaded by the native reader own their memory: they stay intact while other datasets are loaded, changed and released, and outlive the loader.",
  ["histories", "fault_sequences"], "every operation, rejected call and malformed input of the alphabet, and every operation index at which a given file object can fail",
  "A leak or a dangling buffer changes no result a unit test looks at.",
  [D+"_svmlight_format.cpp", D+"svmlight_format.py", D+"dataset.py", M+"rt_ensemble.py", M+"proxy_QuickRank.py", A+"_efficient_feature_impl.cpp"], [("to_csr, to_dense, buffer ownership", D+"_svmlight_format.cpp"), ("load_svmlight_file, dump_svmlight_file", D+"svmlight_format.py"), ("proxies open model files", M)],
  ["load_svmlight_file", "dump_svmlight_file", "Dataset.load", "RTEnsemble", "save"])
p("C52", "Results do not depend on order, numbering or grouping of the data",
  "A metric's value for a query does not depend on the other queries, their order, the numbers that identify queries, the order of documents whose scores differ, or (for ranking metrics) on an order-preserving change or another number type of the scores. Scores, tree contributions, feature importances and the tables of the analyses correspond when queries, documents, features or trees are put in another order or renumbered, and a table over several datasets, models and metrics holds, for each entry, what the table over that entry alone holds, empty where that entry has nothing.",
  ["inputs"], "every small dataset, model list and metric of the universe with every permutation, renumbering, order-preserving change and sublist within the bounds",
  "Tests use files in which query ids, labels and documents come in one convenient order.",
  [T+"metric.py", T+"ndcg.py", T+"dcg.py", T+"mse.py", D+"dataset.py", M+"rt_ensemble.py", A+"effectiveness.py", A+"feature.py"], [("Metric.query_iterator, eval", T+"metric.py"), ("analyses", A), ("detailed scoring", "rankeval/scoring")],
  ["metrics eval", "analyses", "RTEnsemble.score"])
p("C53", "The same data and the same trees give the same results wherever they come from",
  "An ensemble means the same in every step of an evaluation - scores, tree contributions, metrics, tables, significance, feature importance, topology, drawings, pruning, saving - whichever supported format, variant of it or node numbering it was loaded from, or whether it was saved and reloaded, cut or copied. A dataset means the same whether it was built from arrays of any layout, loaded from a plain or compressed SVMlight file, dumped and reloaded, or selected from a larger dataset.",
  ["inputs"], "every ensemble of the universe from every source, every source of the dataset, and every operation",
  "Tests evaluate one model of one format on one dataset; the analyses are never run on what the other loaders produce.",
  [M+"rt_ensemble.py", M+"proxy_LightGBM.py", M+"proxy_XGBoost.py", M+"proxy_Jforests.py", M+"proxy_ScikitLearn.py", M+"proxy_CatBoost.py", D+"dataset.py", D+"svmlight_format.py"],
  [("RTEnsemble", M+"rt_ensemble.py"), ("Dataset", D+"dataset.py"), ("analyses", A)],
  ["RTEnsemble", "Dataset", "analyses"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
