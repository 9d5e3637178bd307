#!/usr/bin/env python3
"""The list of properties.  Running this file rewrites properties.jsonl,
spec.json (what check.py needs) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, mult, rule, technique, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": mech, "where": files[0]}]}, _mult=mult, _rule=rule, _tech=technique, _note=note, _kw=kw))


I = ["inputs"]
IE = ["inputs", "histories"]
IC = ["inputs", "configurations"]
p("C01", "Loading a text file yields exactly the numbers in the file",
  "Reading a whitespace-separated numeric text file returns every value of every line, in file order and at full double precision, with the last column as the label where labels are asked for and with whatever the output variables held before discarded. All loaders agree with each other on the same file. A missing file is rejected with an error by every loader, and an empty or ragged file is rejected by the loaders that separate labels, instead of returning partial or stale data.",
  I, "all files of up to 40 lines and 12 columns of finite numbers in plain, exponent and 20-digit notation, with tabs, repeated and trailing blanks, CRLF, missing final newline, ragged and empty lines, and all previous contents of the output variables",
  "tests load two fixed, well-formed files and compare shapes; formatting variants, raggedness, reuse of outputs and precision are a product space",
  ["src/core/data/load.hpp"], "text parsing into matrix and list containers",
  6, "Files are printed from generated tables; non-trivial: at least two lines and two columns (ragged class for the rejection law).",
  "property-based testing: print/parse round trip plus differential agreement of the loaders", "Round trip against the generated table; finite decimal numbers only.")
p("C02", "Splitting and shuffling keep every sample, paired with its label",
  "Splitting a data set into train and test parts, with or without shuffling, yields two parts that together hold exactly the given (sample, label) pairs, once each, with floor(n * train_size) samples in the train part, and without shuffling in the original order; the caller's data are not modified. Shuffling is a permutation of the rows that keeps labels attached, reaches every arrangement and differs from call to call. Dividing on a feature puts a row's index in the first group exactly when its value is at most the threshold, in ascending order in both groups.",
  I, "all matrices of up to 60 rows incl. duplicated rows, all train sizes in [0,1), both shuffle flags, thresholds equal to data values and between them, and the library's entropy",
  "the tests look at shapes for one size; loss or mispairing depends on n, train_size and the permutation drawn",
  ["src/core/data/split.hpp", "src/core/math/shuffle.hpp"], "index permutation and slicing",
  50, "Non-trivial: at least three samples and both parts non-empty (two groups non-empty for division).",
  "property-based testing: multiset partition invariant against the input", "Multiset model; statistical bounds on shuffles are at least 8 sigma wide.")
p("C03", "Random generators respect shape, range and distribution",
  "Random matrices have the requested shape, uniform draws lie in the requested half-open range and integer draws within the inclusive bounds, and every admissible integer can occur. Sample mean, variance and coverage match the requested uniform or normal distribution, and permutations contain each index exactly once with all arrangements possible. Separate calls, rows and columns are independent draws, not copies.",
  IE, "all shapes up to 12x12 (60x50 for the statistics), ranges, means and deviations, under the library's entropy replaced by a generated stream",
  "the tests print or check shape only; a skewed or truncated distribution passes them",
  ["src/core/math/random.hpp"], "seeded engines and distributions",
  50, "Non-trivial: more than one entry is drawn.", "property-based testing: range invariants and statistical bounds over generated entropy streams",
  "Statistical bounds are at least 8 standard errors wide; entropy sources are interposed so that every case replays.")
p("C04", "Matrix array operations agree with their element-wise definitions",
  "Sorting, argsorting, argmax/argmin, unique, where, stacking, flattening, nested-list conversion, repetition, clipping, minimum, row/column norms and maximum-of-map return exactly what their definition gives along the requested axis and in the requested order, for any shape, sign and repetition of values. Results of index-returning operations are valid positions holding the claimed value (each exactly once for argsort, the first occurrence for unique). Inputs are left unmodified, and unknown axes and mismatched shapes are rejected with an error.",
  I, "all matrices of up to 24x24 (mixed signs, magnitudes, ties, duplicated rows, constant columns), axes, orders and limits",
  "tests use one or two hand-written matrices per function; ties, negative-only lanes, non-square shapes and the descending/column paths are untested combinations",
  ["src/core/common.hpp"], "axis-dispatched array primitives", 45, "Non-trivial: more than one row and one column (or list element).",
  "property-based testing: differential comparison with naive reference implementations", "Reference implementations written with std::sort/std::set on plain lists; exact equality.")
p("C05", "List operations agree with their set and sequence definitions",
  "On std::vector data, row sorting is lexicographic, argsort is a stable ordering permutation, combinations are exactly the subsequences of the given length, containment is the subset test, difference is the sorted set difference, merging interleaves, removing duplicate rows keeps the first occurrence of each distinct row in order, equality and inclusive slicing are exact. This holds for any length including repeated, empty and single elements. Inputs are left unmodified, and empty tables, unknown axes and out-of-range slices are rejected with an error.",
  I, "all lists of up to 40 elements and tables of up to 40x6 with heavy repetition, all slice bounds, all subset sizes",
  "tests use one small list per function; raggedness, ties, sizes beyond 16 (where std::sort changes algorithm) and empty inputs are not sampled",
  ["src/core/common.hpp"], "list primitives used by Apriori and the hash tree", 50, "Non-trivial: more than one element / distinct row, or a proper subset size.",
  "property-based testing: differential comparison with naive reference implementations", "Reference implementations on std containers; exact equality.")
p("C06", "Reductions and elementary statistics match their definitions",
  "Sum, mean, (population) variance, median, mode with its count, cumulative sum, centering, (sample) covariance, element-wise absolute value, sign and power, row/column norms and diagonal matrices equal their mathematical definition along the requested axis or over all entries, for any shape, parity, tie pattern and offset. Shapes of the results follow the axis (a column for per-row, a row for per-column results). Unknown axes are rejected with an error.",
  I, "all matrices of up to 14x10 with repeated values, large offsets and mixed magnitudes, every axis",
  "tests use one matrix per function, mostly with one axis", ["src/core/math/extmath.hpp", "src/core/math/ops.hpp"], "axis-dispatched reductions", 40,
  "Non-trivial: more than one row and column (more than two entries for medians and modes).",
  "property-based testing: differential comparison with long-double naive formulas", "Tolerance 1e-11 relative to the largest entry (squared for second moments).")
p("C07", "Exponential primitives stay exact and finite for every finite input",
  "Sigmoid, softmax, log-sum-exp and the Gaussian log density equal their mathematical definition to near machine precision for every finite input, without overflow, underflow to NaN or loss of the sum-to-one / monotonicity / symmetry relations, however large the inputs are. They follow the requested axis, softmax is invariant under a common shift, and the Gaussian density integrates to one. Softmax over a single entry and unknown axes are rejected with an error.",
  I, "all matrices of up to 8x8 with entries from 1e-2 to 1e300 in magnitude and common offsets up to 1500, every axis",
  "tests evaluate moderate values; overflow and cancellation need extreme ones", ["src/core/math/extmath.hpp", "src/core/math/proba.hpp"], "max-shifted exponentials", 80,
  "Non-trivial: more than one entry per lane.", "property-based testing: differential comparison with long-double references over extreme ranges", "Tolerance 1e-12.")
p("C08", "Entropy and Gini impurity are the impurity measures they claim to be",
  "Entropy (base 2) and Gini impurity of a label vector equal their definition from the class frequencies (or weighted frequencies), lie between zero (exactly for a single class) and the value of balanced classes, and do not depend on the order or names of the classes. Unit weights change nothing, and pooling two groups never gives less than their size-weighted average impurity. Weight vectors of the wrong length are rejected with an error.",
  I, "all label vectors of up to 40 entries and 6 classes with arbitrary class values and positive weights", "tests use one vector", ["src/core/math/extmath.hpp", "src/core/math/proba.hpp"], "class-frequency accumulation", 50,
  "Non-trivial: at least two classes present.", "property-based testing: reference formula plus metamorphic relations (renaming, permutation, pooling)", "Tolerance 1e-10.")
p("C09", "Matrix factorisations reproduce the matrix with factors of the right kind",
  "LU, QR, SVD and Cholesky of any matrix in their domain return factors of the documented shapes whose product is the input, with unit-lower/upper-triangular, orthonormal, permutation, non-negative descending and positive-diagonal structure as applicable, including rank-deficient, tall and wide inputs. The pseudo-inverse satisfies the four Moore-Penrose conditions, the log-determinant equals log|det| for positive determinants and minus infinity otherwise, and sign normalisation of singular vectors is deterministic and does not change the product. Cholesky of an indefinite matrix is rejected with an error.",
  I, "all matrices up to 9x9 (26x26 for SVD): random, integer, rank deficient, duplicated rows, zero; full and thin variants", "tests factor one fixed matrix and compare a few numbers", ["src/core/math/linalg.hpp", "src/core/math/extmath.hpp"], "Eigen decompositions unpacked into factors", 25,
  "Non-trivial: more than one row and column, not all zero.", "property-based testing: reconstruction and structural invariants", "Tolerances 1e-9 relative to the norm.", extra=["svd_inst.cpp", "svd_inst2.cpp"])
p("C10", "Randomised and truncated SVD give a valid low-rank approximation",
  "For every shape, rank, number of components, oversampling, iteration count, normaliser and drawn random matrix, the randomised SVD returns orthonormal factors of the requested shapes with non-negative descending singular values that never exceed the exact ones, is exact when the rank is at most the number of components, and recovers a well separated leading subspace. TruncatedSVD built on it projects data as X times the transposed components, reports the variances of the projected columns and their share of the total variance, and inverts on data of that rank. More components than the matrix has, unknown solvers and unknown normalisers are rejected with an error.",
  IE, "all matrices up to 16x16 with prescribed spectra, 1..min-1 components, 0..6 iterations, the three normalisers, all drawn test matrices", "tests run one matrix and print; correctness depends on the random range finder and the wide/tall branch", ["src/core/math/linalg.hpp", "src/methods/decomposition/truncated_svd.hpp"], "random range finder with power iterations", 20,
  "Non-trivial: more than one component requested.", "property-based testing: invariants and exact-spectrum oracle over prescribed spectra", "Tolerances 1e-6 relative (1e-2 for approximate recovery).", extra=["svd_inst.cpp", "svd_inst2.cpp"])
p("C11", "Distances and scores equal their definitions and are true metrics",
  "Euclidean, Manhattan and Minkowski (orders 1, 2 and infinity) distances equal their definition for rows, columns and lists of any length, are symmetric, zero exactly on identical points, translation invariant and satisfy the triangle inequality. The squared-error mean and the explained-variance score equal their definition, with a score of one for perfect or constantly shifted predictions and never above one. Unknown orders and mismatched shapes are rejected with an error.",
  I, "all point pairs and triples up to 12 coordinates, all prediction vectors up to 20", "tests check one pair per function", ["src/core/metric.hpp"], "coordinate-wise accumulation", 70, "Non-trivial: at least two coordinates and distinct points.",
  "property-based testing: reference formulas plus metric axioms", "Tolerance 1e-11 relative (1e-7 for explained variance).")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())

NA = []


def main():
    ids = [q["id"] for q in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    spec = {}
    checks = []
    for q in P:
        s = {"mult": q["_mult"], "rule": q["_rule"]}
        s.update(q["_kw"])
        spec[q["id"]] = s
        checks.append({"property": q["id"], "quick_cmd": "bin/check.py %s quick" % q["id"], "thorough_cmd": "bin/check.py %s thorough" % q["id"],
                       "evidence_file": "evidence/%s.json" % q["id"], "technique": q["_tech"], "level": "exploration",
                       "level_note": q["_note"] + " Exploration only: no absence claim beyond the cases counted in the evidence."})
    json.dump(spec, open(os.path.join(V, "spec.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": NA,
               "notes": "No hooks in /repo. Harnesses include /repo/src headers directly and are rebuilt by every check."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")


main()
