#!/usr/bin/env python3
"""Writes DESIGN.md: method text, one section per property, what catches what."""
import json, os, glob, re, subprocess, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# oracle and reason, per property
T = {
"C01": "Enumerates files (token x separator x line-end sequences), writes each to a private scratch file and loads it through every overload; oracle: a ten-line reference parser that yields the exact matrix or 'must reject'. Output containers start dirty.",
"C02": "All sizes x train fractions x every outcome of the shuffle. Rows carry unique marks, so a lost, doubled or re-labelled row is visible; the multiset of (row, label) pairs is compared.",
"C03": "Draws are choices (menus with both endpoints). Oracle: the affine image of the draws that were consumed, or for permutations the set of reached results = all n!.",
"C04": "All small matrices with ties x axis x direction, larger patterned ones; oracle: sortedness, permutation and extremality checked on the original data.",
"C05": "All shapes and arguments within the bound; oracle: index formula of each helper, applied element by element; misuse must throw.",
"C06": "All lists over a small alphabet; oracle: brute-force enumeration of subsets, set operations and lexicographic order.",
"C07": "All matrices over an alphabet x axes, offsets up to 1e8, patterned larger shapes; oracle in long double; invariance under offsets, permutations of rows.",
"C08": "All rows over {-1e308..1e308}-like menus; oracle in long double with the stabilised formulas, plus the algebraic laws named in the statement.",
"C09": "All small integer matrices and patterned larger ones incl. rank deficient, scaled 2^+-200; oracle: multiply back, orthogonality, triangularity, permutation structure, ordered singular values.",
"C10": "As C09; oracle: the Penrose equations, L L' = A, log-determinant by an independent elimination in long double.",
"C11": "The Gaussian sketch is enumerated (menus) or streamed; oracle: orthonormal factors, exact recovery when the sketch captures the range, energy bounds otherwise.",
"C12": "Oracle: eigen-decomposition of the covariance by independent Jacobi rotations; components up to sign and within degenerate spaces; call order of getters enumerated.",
"C13": "All label vectors x weights over an alphabet; oracle: the definition in long double.",
"C14": "All small data, labels, weights per loss (exact dyadic values, saturation, thresholds); oracle: the formula and its closed-form derivative (sub-differential at kinks).",
"C15": "All vector pairs/triples over an alphabet, long vectors, int / unsigned / unsigned char / float elements up to the ends of their ranges; oracle: definition in long double, plus symmetry, triangle inequality, identity.",
"C16": "Call sequences of every schedule and update rule incl. two objects and matrix weights; oracle: the recurrence stepped beside it.",
"C17": "Every shuffle order of every epoch is a choice; oracle: the mini-batch recurrence, best-loss bookkeeping, stopping rule, in sgdref.hpp; losses MSE, log, hinge, Huber; warm restarts; dirty objects.",
"C18": "As C17 with the gradient table.",
"C19": "As C17 with per-weight cumulative penalties.",
"C20": "Start points x penalties x data; oracle: set-valued greedy step (any best coordinate) to the penalised one-dimensional minimiser.",
"C21": "Start points x data x line-search settings; oracle: two-loop recursion and line searches stepped beside it, monotone objective, comparisons cut where a decision lies within rounding; losses with straight pieces and zero tolerance, where a step brings no curvature, judged by finite weights, descent and a vanishing gradient.",
"C22": "All small designs; oracle: normal equations residual, with intercept column, ridge unique solution by elimination.",
"C23": "Oracle: duality gap / KKT conditions of the penalised objective.",
"C24": "All solvers x penalties; oracle: probabilities consistent with coefficients, labels with probabilities, optimum of the penalised likelihood where guaranteed.",
"C25": "Separable data over grids; oracle: mistake bound => separation; labels = sign of margin on any data.",
"C26": "Oracle: rows sum to one, argmax, full-batch recurrence, cross-entropy drop for stable rates.",
"C27": "Oracle: posterior in long double from class means, variances and priors; refits and arbitrary labels.",
"C28": "As C27 with smoothed counts.",
"C29": "Set-valued greedy-tree reference (treeref.hpp): all trees reachable through ties and thresholds between neighbours; each prediction must be explained by some leaf, identical rows agree; limits judged exactly on balanced dyadic data.",
"C30": "As C29 with means and variance/absolute error.",
"C31": "Oracle: brute force over all points; integer data so distances are exact; every k, leaf size, metric.",
"C32": "As C31 for every radius that occurs as a distance, between and beyond.",
"C33": "Oracle: can this label win the vote for some choice among tied neighbours?",
"C34": "Operation sequences (insert/count/extract) against a map from itemset to count.",
"C35": "Oracle: counts of all 2^n itemsets, all splits into rules.",
"C36": "Oracle: set of items per transaction.",
"C37": "Oracle: every ordered choice of start samples is stepped by Lloyd's iteration (sets of reachable centroids); predictions on a query grid must match one of them.",
"C38": "Draws of the responsibilities are choices/streams; oracle: EM stepped in double and long double, likelihood monotone, parameters are a fixed point of the last step.",
"C39": "All 31 estimator configurations behind one interface; fit/predict/read histories, same-shape data, copies, two objects; oracle: a fresh object trained once with the same draws.",
"C40": "All batches of up to 3 (4) rows out of six query rows, long batches; oracle: the same row predicted on its own.",
"C41": "Two real threads of which the explorer lets one run at a time (`mc/fibers.hpp`); scheduling points are planted by `-finstrument-functions` in every library function and at every allocation. All schedules with one preemption for every ordered pair of jobs, with two for every job beside itself, and for two threads asking one object; oracle: the same job run alone. Catches shared scratch buffers, caches and statics that every sequential history misses.",
"C42": "Every estimator (31 configurations) and twelve programmes over the core instantiated for float and double (`checks/elements.hpp`, four translation units), run on the same data and draws: all 4-row data sets over small alphabets with all labellings, and 5..130 rows x 1..17 features. Oracle: the double answer (itself judged by C04-C41), within 2e-3 plus a multiple of how far it moves under three 1e-6 perturbations; cases where it moves more than 1e-3 do not count. Also decides that the float instantiations compile at all.",
"C43": "Every string option of every estimator is given every name of a closed pool (all names any option knows, and each of them misspelt in every systematic way): known names must work and answer with finite numbers, others must throw. Counts 0..n+2. All constructors of logistic regression placed in memory filled with three patterns: same answers, whatever the old contents. Oracle: the list of documented names per option, fresh objects with explicit defaults, zero coefficient.",
}
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/tools/design_head.md").read().rstrip() + "\n\n## 2. Per property\n"]
def wrap(s, ind=""): return textwrap.fill(s, 98, initial_indent=ind, subsequent_indent="  " if ind else "", break_long_words=False, break_on_hyphens=False)
for p in P:
    i = p["id"]; b, a, fl = [], [], ""
    for f in sorted(glob.glob(f"{V}/checks/{i}*.cpp")):
        for l in open(f):
            if l.startswith("//# "): b.append(l[4:].strip())
            if l.startswith("//! "): a.append(l[4:].strip())
    out.append(f"### {i} {p['title']}\n\n" + wrap(T[i]) + "\n")
    for x in b: out.append(wrap(x, "- bound: "))
    for x in a: out.append(wrap(x, "- taken as allowed: "))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read().rstrip() + "\n")
S = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); S.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
out.append("## 6. Planted bugs and the checks that catch them\n\nEach is in `seeded/` with a demonstration; the check of the property named catches every one of them\n(`tools/seedkit.py try ID`). Those in the list of section 5 were missed at first.\n\n| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(S) + "\n")
F = [l[7:].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed: ")]
out.append("## 7. Genuine defects repaired in /repo\n\nAll were shown by a check on the then current tree, and repaired in one `fix:` commit each; none is\nleft unrepaired. `known_findings.txt` lists the commits.\n\n" + "\n".join("- " + re.sub(r"property=(\S+) (\S+) ", r"\1 (\2): ", f) for f in F) + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
