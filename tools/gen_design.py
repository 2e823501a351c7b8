"""Writes DESIGN.md from the prose below, the RULE/ASSUMPTIONS of the checks, known_findings.json and seeded/*/meta.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (what is the oracle / how the exploration works, why beyond tests)
P = {
"C01": ("The files are written by the check, token by token, from an abstract list of rows; the abstract rows are the oracle (numbers through Python's correctly rounded float(), then single precision). The real loader (C++ parser through Cython) runs on every file.",
        "The tests load one fixed file per collection; the parser's state machine (comments, endings, qid markers, buffer growth) only shows on the cross product of decorations and sizes."),
"C02": ("Fault enumeration: every malformed token in every position, every read() of a load failing (by an injected file object / errno), every truncation point and every single-byte corruption of the compressed streams. Oracle: an exception, never a dataset, never a dead process (workers are processes; their death is a violation).",
        "Error paths of the parser (a C++ exception under a released GIL, a half-built vector) are exercised by no test."),
"C03": ("dump, then load, compared bit by bit with the single-precision input; write faults are enumerated call by call.",
        "Losing a digit or an axis depends on the exponent, layout and sink; a lattice over every exponent decides it, samples do not."),
"C04": ("The reference grouping is computed from run lengths with plain Python.",
        "Offsets are wrong only for particular orders of ids (descending, negative, huge, alternating)."),
"C05": ("The random generator is an object of the explorer: every permutation it could produce is enumerated. Expected sizes are computed on rationals.",
        "Overlap or loss of queries is visible only for particular shares, sizes and shuffles."),
"C06": ("As C05, for every shuffle; partition laws checked over all folds and both output modes, and two interleaved generators.",
        "Fold boundaries go wrong for particular (queries, folds) pairs only."),
"C07": ("Explicit-state breadth-first search of a selection model (which queries, which columns, in which order); every transition is replayed on real Dataset objects, which are compared with the selection of the original arrays and checked for aliasing/mutation of their source.",
        "Composition and aliasing are properties of histories."),
"C08": ("All ordered pairs of a universe of datasets; oracle: equality of (shape, cells, labels, grouping) in plain Python; hash(a)==hash(b) whenever equal; layouts and dtypes varied.",
        "An equality that ignores one component is right on every pair that does not differ in just that component."),
"C09": ("Every fetch runs in a forked, unprivileged child whose whole world is a scratch folder; urlopen is an in-memory server built from the real catalogue. A profile hook numbers the file and network operations of the fetch; the explorer kills the child or raises OSError / KeyboardInterrupt before each of them in turn, truncates each download at every class of positions, and then runs each recovery fetch from the resulting store. A second unit enumerates every history of fetches (names, folds, download_if_missing) up to the depth bound. Oracle: the published content of the requested name and fold; stores are deduplicated by content digest (the states).",
        "No test can touch the network; crash points are by nature not samples."),
"C10": ("Files are written by an independent writer (formats.py) from an abstract ensemble, in several layouts (tree ids, attribute order, mirrored branches, comments); the loaded arrays are read back into an abstract tree and compared node by node, and by scores. A second unit explores every history load/copy/prune/save up to the depth bound against the abstract model.",
        "The tests load one model; save() was never exercised on learning rates, base scores or odd layouts."),
"C11": ("Independent writers for both formats; node-by-node comparison and scores at, just below and just above every threshold.",
        "Numbering schemes (negative leaf ids, pre/post order), single-leaf trees and decision types are not in the fixtures."),
"C12": ("Independent writer of XGBoost dumps and of estimator-like objects, plus every estimator fitted on every small labelled dataset; strictness of the comparison is decided by the documents just around each threshold.",
        "nextafter handling of thresholds breaks only at particular magnitudes (>= 2^24, denormals, negative)."),
"C13": ("CoreML protobuf files are written by the check; the loaded ensemble is unfolded into abstract trees and compared with the oblivious tree of the file.",
        "Trees of different depths in one ensemble, depth 0 and depth 16 are in no fixture."),
"C14": ("Explicit-state search over a growing family of ensembles; after every step every member is compared with its abstract prefix (so a copy that shares or truncates another's arrays is seen).",
        "Aliasing shows only after a particular history."),
"C15": ("Abstract trees know their heights, sizes and leaf counts.", "Statistics are computed by array walks that depend on numbering and neighbours."),
"C16": ("Fault enumeration over model files: every cut, deletion, repetition and replacement of a part of the files of every small ensemble, all arrays of child references of small trees, all sequences of header/split/leaf lines, all node numberings. Six strict readers, written from the formats and independent of the loaders, say for each damaged file: invalid (the load must raise), valid (the load must give those trees), or ambiguous (an error or the listed reading). Lenient readings a maintainer could equally choose (a count that contradicts consistent arrays, an unknown attribute) are in the ambiguous class.",
        "A damaged file loaded as something else gives plausible scores; which faults are caught depends on the position of the fault."),
"C20": ("Abstract evaluation of the trees (exact on dyadic values), node numberings preorder and breadth-first, documents on and around every threshold, NaN and infinities included.",
        "Branching at equality, wrap-around of ids and offsets depend on shape and numbering."),
"C21": ("Explicit-state search over call histories (score variants, equal/near-equal/failing datasets, clear, copy, prune); the model tracks what may be cached, the oracle is cache-free recomputation.",
        "A stale or mismatched cache needs a history."),
"C22": ("See 'The controlled OpenMP runtime' below.", "Thread interleavings: not controllable by a test, and the test machine's scheduler samples few of them."),
"C30": ("Definition evaluated on every ranking compatible with the scores (tie-breaking free), over every weak order of the documents: rankings are covered up to order isomorphism, so all scores of that size are.",
        "The tests fix one ranking and cutoff."),
"C31": ("As C30, with textbook definitions of the six metrics in oracles.py.", "Cutoffs beyond n, thresholds, no relevant documents x ties."),
"C32": ("As C30, cascade definitions.", "Cutoff x tie x abandonment."),
"C33": ("Exact sums on dyadic values; per query, overall, permutation invariance.", "Weighting of queries of different sizes and ids."),
"C34": ("Pairwise tau-b and correlation of average ranks computed from the definition.", "Ties."),
"C35": ("History exploration on one metric object: every step is compared with a fresh metric object on the same arguments; plus all partitions of small datasets.",
        "State that leaks between evaluations is visible only in histories."),
"C36": ("Configurations are enumerated and compared with the documented label; histories of derived datasets and models run on the real objects next to a model that tracks names only.",
        "No test looks at a label."),
"C37": ("Histories of good and rejected calls run on shared objects (datasets, models with cached scores, metric objects); files and objects are compared byte by byte around each rejected call, and the answers of all good calls with those of the same history without the rejected calls.",
        "Rejections and what they leave behind are not tested at all."),
"C38": ("Real fault injection: RLIMIT_FSIZE makes the kernel refuse every write beyond byte k, for every k; a file object fails at its k-th operation, for every k; complete files are cut at every byte and loaded.",
        "Buffers are flushed late, so only particular byte counts distinguish a reported failure from a lost one."),
"C39": ("The calls themselves are enumerated; the all-keywords call is the reference for every other way of writing the same call.", "Combinations of arguments, positions and omissions."),
"C40": ("Reference scores of every prefix from abstract trees; fingerprint metrics that change with any score bit decide which scores a cell was computed from.", "Steps that do not divide the ensembles, unequal ensembles, caching."),
"C41": ("Exact fractions per boundary; both conventions at equality accepted.", "Ranges cutting through the values, several datasets of different sizes."),
"C42": ("Means and pair counts by brute force.", "Non-contiguous labels, missing classes, ties."),
"C43": ("Double-precision simulation of the sequential refit.", "Empty sides, boundary values, node numbering, dtype and layout."),
"C44": ("Three explorations: (1) the coin stream is owned by the explorer and every swap vector is played, alone and in all-vectors sequences; (2) all sequences of 2-4 swap vectors; (3) *every* primitive of numpy.random (choice, randint, random, permutation, shuffle, binomial ...) is replaced by an enumerator of its outcomes with their probabilities (stateless depth-first exploration), and the expectation of the p-values over all outcomes must equal the exact rational value over the 2^N swap vectors.",
        "A sampled p-value cannot tell an exact count from a slightly biased one."),
"C45": ("Learning algorithms that recognise the rows they are given; every shuffle of every round enumerated.", "Leakage between folds under particular shuffles."),
"C46": ("Abstract positions of nodes.", "Shapes, numbering, heights to the limit of the representation."),
"C47": ("An independent DOT parser (dot.py) rebuilds the graph, which is compared with the abstract tree for every combination of options.", "Option combinations x shapes x values."),
"C49": ("One process per environment and worker imports the package from scratch with stand-ins for IPython and ipywidgets that record what happens to every bar; the plain interpreter's results, bit for bit, are the oracle (the values themselves are decided by C40, C44, C45).",
        "The statements guarded by the notebook test never run in the test suite."),
"C48": ("Figures are drawn on the Agg backend and their artists (lines, bars, images, texts, ticks) read back.", "Undefined values, single-item tables, figures left from earlier plots."),
"C50": ("Explicit-state exploration of operation sequences on one set of shared objects: about 95 operations, all pairs, and all triples of those with state (thorough: more triples and quadruples). The oracle is the operation itself called alone on fresh objects, compared bit for bit; objects, earlier answers and process settings are fingerprinted after each step. That the answers are right is decided by the other checks.",
        "State carried from one call to another: caches keyed too coarsely, shared buffers, arguments changed in place, settings left altered."),
"C51": ("Operations, rejections (the alphabet of C37), malformed lines, every line and write at which a file object can fail. Descriptors are read from /proc, references counted exactly, live blocks of the interpreter (sys.getallocatedblocks) and of the native heap (mallinfo2) compared over batches of calls: only a batch that leaves nothing ends the case, so caches that settle raise no alarm. Loaded arrays die in every order while their contents are watched.",
        "Leaks and dangling buffers on error paths are invisible to assertions on results."),
"C52": ("Metamorphic relations, exhaustively: every order of queries and documents, renumbering, order-preserving change of scores, permutation of features and trees, and every sublist (in every order) of the lists given to an analysis; no reference values needed (those are in C30-C43).",
        "Assumptions on the order, contiguity or range of ids, on dtypes, and state carried from one entry of a list to the next."),
"C53": ("The whole pipeline, end to end: model files of every format (written independently, by `formats.py`) and datasets from every kind of source are put through every operation and analysis; results must agree with those of the hand-built objects, whose correctness the other checks establish. Leaves and nodes are compared by output and position, not by number.",
         "A loader that fills a field only one analysis reads (weights' type, roots, order of nodes, cached sizes) is correct for its own tests and wrong in combination."),
}

INTRO = """# Design

All 42 properties of properties.jsonl are claimed, each decided by exhaustive enumeration within stated bounds (none is in
`not_applicable`). The deciding step is always the enumeration of cases, histories, schedules, random outcomes or fault
points; every one of them is executed on the real code of /repo (Python and compiled extensions), so there is no gap between a
model and the implementation: where a model exists (C07, C10, C14, C21, C35), every transition of it is replayed on real
objects and compared step by step.

## Framework

* `./check ID [--thorough] [--replay FILE]` runs one check. `mc/native.py` first makes the native extensions of /repo's *current*
  tree importable: the in-place ones when the stamps of /opt/vp/build.sh prove they are current, otherwise a build in a scratch
  folder outside /repo (with its own cache keyed by source digest). Nothing is written in /repo.
* `mc/core.py`: a check module declares units; a unit enumerates its cases in a deterministic order and judges one case. Case i is
  run by worker process i mod 8. A supervisor watches the workers: a case that kills its worker (segfault), or makes no progress
  for 90 s, is a violation too. `Ctx` counts evaluations, distinct non-trivial cases, states, transitions, traces, faults as they
  really ran; `explore_choices` is the depth-first explorer of choice points.
* `mc/trees.py`: abstract trees and ensembles, all tree shapes with at most N leaves, node numberings, conversion to the arrays of
  RTEnsemble, reference scoring, and the documents at / next below / next above every threshold. `mc/checks/formats.py`:
  independent writers of the model formats. `oracles.py`: metric definitions. `tables.py`: datasets and models whose scores encode
  which document/model/dataset they belong to (so that a mislabelled cell cannot go unnoticed), and `Frozen`, which proves inputs
  unmodified. `chance.py`: random generators owned by the explorer. `dot.py`: DOT parser.
* Reports: exit 0 = held on everything explored; exit 1 and `VIOLATION property=ID replay=FILE`; exit 2 = could not run (does not
  build). A replay file contains the pickled case. Known findings (known_findings.json, status open) are matched by the key of the
  specific failing history, printed as KNOWN-FINDING, and do not hide other violations.
* Small-scope argument, made per unit: behaviour of this code depends on the order type of values, the shape of trees, run lengths
  of ids, not on magnitudes; all small shapes/orders are enumerated, and *ladders* (one case per size over increasing sizes, around
  every power of two and internal block size) cover the dependence on size; *lattices* (mantissas x every exponent) cover number
  formatting.
* Time: quick runs take 1-90 s each on 8 cores (all 42: about 20 minutes in sequence); a budget (MC_BUDGET, 420 s quick, 5400 s thorough) stops
  enumeration and says so in the evidence instead of ending without an answer.

## The controlled OpenMP runtime (C22)

`mc/omp/mcomp.cpp` implements the GOMP entry points gcc generates (parallel, loop static/dynamic/guided, atomic, critical, single,
barrier, reduction) on coroutines. The kernels are rebuilt in scratch with -fsanitize=thread, whose access callbacks are implemented by
the runtime itself. A parallel region is executed once per order of its synchronisation operations (depth-first over scheduling
choices, all writes of the region rolled back in between); between synchronisation operations, accesses are judged with vector
clocks, so a race is found on every schedule in which the two accesses are unordered, not only when they collide. Without races,
schedules with the same order of synchronisation operations are equivalent (one Mazurkiewicz trace), hence all interleavings are
covered. All schedules must leave the same memory, and the result must be the reference. Regions with more orders than the cap are
counted as truncated; constructs the runtime does not know are counted as unsupported (evidence says both), never an alarm.

"""

LIMITS = """## Limits (assumptions, not findings)

* Feature ids above 32767 are rejected by the loaders; at most 62 levels in the topological analysis (higher is rejected). Files without trees
  are rejected.
* A forced download while another process fetches the same dataset is outside C09: the store has no lock. Fetches that do not force are
  explored at the same time, under every schedule up to the preemption bound.
* Feature importance ignores the learning rate (refits with tree weights only), and its generic variant defines gain as before - after.
* The SVMlight loader rejects blank lines (the property allows skipping or rejecting) and maps +inf to the largest finite value.
* Matrices with more than 2^32 cells are explored on lazily mapped memory; code that copies them gives no verdict there (the address space is limited).
* The Jforests element order is the real writer's (SplitFeatures first); LightGBM categorical splits and missing-value handling
  are rejected by the loader (checked).
* C09 assumes atomic renames and completed operations surviving a process crash (no power loss).

## Where the checks were too weak, and what was done

Planted bugs were written from the property and the code, before looking at the check. Missed at first, then caught:
C03 (digits lost only at some exponents -> lattice over every exponent), C09 (fold prefix: fold 1 vs 10 -> folds 1, 2, 10 published),
C10 (tree ids not consecutive -> id variants), C11 (quantised Jforests `Thresholds` -> format variants), C12 (gaps in node ids),
C44 (exactly half of the queries swapped -> the distribution unit over every random primitive),
C09-clean-leftovers (a fetch deletes what another one has just completed -> three preemptions between the operations of the package, `lstat`
among them), C40/C43 (sums over millions of documents in single precision, a defect found and fixed; C33, C41, C42, C45 explore the same
sizes: C42-running-sums, C45-round-means), C33-expanded-square and C45-moments (cancellation -> magnitudes units), C35-compact-scores (scores
that only double precision tells apart, now in C30-C35), C51-cached-significance (scores cached unasked, found by mutation -> the `kept` unit:
the dataset must be released with the results), C07-row-views, C07-column-views and C05-part-views (selections that share memory with
their source -> the `independent` units of C05-C07 and C14 and the `written over` unit of C50, where everything is written over).
%(extra)s
"""
EXTRA_FILE = os.path.join(V, "tools", "design_notes.md")


def rule(pid):
    t = ast.parse(open(os.path.join(V, "mc", "checks", pid.lower() + ".py")).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign):
            names = n.targets[0].elts if isinstance(n.targets[0], ast.Tuple) else n.targets
            try:
                v = ast.literal_eval(n.value)
            except ValueError:
                continue
            vs = v if isinstance(n.targets[0], ast.Tuple) else [v]
            d.update({x.id: y for x, y in zip(names, vs) if isinstance(x, ast.Name)})
    return d


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    bugs = {}
    for folder in ("seeded", "extra_plants"):
        for m in sorted(glob.glob(os.path.join(V, folder, "*", "meta.json"))):
            j = json.load(open(m))
            bugs.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)) + ("" if folder == "seeded" else "` in `extra_plants"), j))
    missed = json.load(open(os.path.join(V, "tools", "missed.json"))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else {}
    o = [INTRO, "## Properties\n"]
    for p in props:
        i = p["id"]
        d = rule(i)
        a, w = P[i]
        o.append("### %s %s\n" % (i, p["title"]))
        o.append("* Decided by: %s (level `%s`).\n* Enumerated: %s.\n* Oracle: %s\n* Beyond tests: %s" % (
            d.get("TECHNIQUE", {"exploration": "bounded exhaustive exploration of the real code", "fault_enumeration": "exhaustive enumeration of fault and crash points",
             "model_checking": "explicit-state exploration of a model, every transition replayed on the real code"}[d["LEVEL"]]), d["LEVEL"], d["RULE"].rstrip("."), a, w))
        if d.get("ASSUMPTIONS"):
            o.append("* Assumes: %s." % "; ".join(d["ASSUMPTIONS"]))
        fx = [k["what"].split(" ", 2)[2] for k in known if k["property"] == i and k["status"] == "fixed"]
        if fx:
            o.append("* Defects found and repaired (commit, what): %s." % "; ".join(fx))
        op = [k["what"] for k in known if k["property"] == i and k["status"] == "open"]
        if op:
            o.append("* Known finding, not repaired: %s." % "; ".join(op))
        for b, j in bugs.get(i, []):
            o.append("* Planted: `%s` (%s) - %s." % (b, j["what_it_breaks"].rstrip("."), "**missed**: " + missed[b] if b in missed else "caught"))
        o.append("")
    ex = open(EXTRA_FILE).read() if os.path.exists(EXTRA_FILE) else ""
    o.append(LIMITS % {"extra": ex})
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))


if __name__ == "__main__":
    main()
