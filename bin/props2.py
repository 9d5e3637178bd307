p("C12", "Each loss's gradient is the exact derivative of its value",
  "Mean squared error, logistic, hinge, Huber and softmax losses return their defining formula, including the L2 penalty lambda*|W|^2/(2n), and a gradient that is the derivative of exactly that value (a subgradient at kinks). Values and gradients are convex-consistent, finite and exact for arbitrarily large margins, and independent of the order of the samples. Inputs are not modified and default construction means no penalty and unit threshold.",
  I, "all data of up to 12 samples, 5 features and 4 classes, weights at any scale up to saturation, on and off the kinks, all penalties", "tests print the value of one example; a wrong penalty gradient, sign at a kink or overflow shows only off that example",
  ["src/core/loss/log_loss.hpp", "src/core/loss/hinge_loss.hpp", "src/core/loss/huber_loss.hpp", "src/core/loss/softmax_loss.hpp", "src/core/loss/mean_squared_error.hpp"], "evaluate / gradient pairs", 25,
  "Non-trivial: at least two samples and a non-zero weight.", "property-based testing: closed-form oracle, finite differences, convexity and metamorphic relations", "Finite-difference tolerance 1e-5, closed form 1e-9.")
p("C13", "SGD, SAG and truncated gradient follow their recursions and stopping rule",
  "Stochastic gradient descent with any update and decay policy, stochastic average gradient and truncated gradient produce exactly the iterates of their published recursions on the given mini-batches, with gradients clipped at 1e10 in magnitude, return the iterate at which the stopping rule (no improvement beyond the tolerance for the given number of epochs) fires and otherwise report non-convergence with an error. Every epoch visits distinct samples with their own labels, in shuffled or given order, and the caller's data stay unmodified. Decay and momentum schedules follow their formulas over whole histories, truncated gradient without gravity equals SGD, and empty or oversized batches are rejected with an error.",
  IE, "all data of up to 12 samples and 4 features, losses, policies, decays, batch sizes, shuffle flags, tolerances and patience, histories of up to 60 updates", "tests run each optimiser once on one file and print; iterate-level drift, batch pairing and stopping are invisible in that",
  ["src/core/optimizer/sgd/sgd.hpp", "src/core/optimizer/sgd/sag.hpp", "src/core/optimizer/sgd/tg.hpp", "src/core/optimizer/sgd/update_policies/momentum_update.hpp", "src/core/optimizer/sgd/decay_policies/step_decay.hpp"], "epoch loop over mini-batches", 15,
  "Non-trivial: more than one sample and one epoch.", "model-based testing: reference recursion replayed step by step, batches observed through recording losses", "Cases whose stopping decision is a rounding tie or whose iterates blow up are discarded.")
p("C14", "Coordinate descent changes one coordinate at a time and reaches the L1 optimum",
  "Stochastic coordinate descent changes exactly one coordinate per iteration, the one whose soft-thresholded step promises the largest decrease, by exactly that step, and with a valid curvature bound never increases the L1-penalised objective. Given enough iterations it satisfies the optimality conditions of loss plus L1 penalty. A penalty above every gradient keeps zero weights at zero.",
  I, "all data of up to 12 samples and 5 features, squared and logistic losses, penalties and curvature bounds", "tests run it once on one file and print", ["src/core/optimizer/sgd/scd.hpp"], "greedy coordinate choice with soft thresholding", 6,
  "Non-trivial: at least two coordinates.", "model-based testing: reference recursion plus optimality conditions", "Ties between coordinates are discarded; KKT tolerance 1e-3.")
p("C15", "Line searches honour their conditions and L-BFGS descends to the optimum",
  "Whenever backtracking or bracketing line search returns, position, value and gradient agree, the returned step satisfies the configured Armijo / Wolfe / strong Wolfe condition within the step and evaluation limits, and the first acceptable trial is taken; ascent directions and non-positive steps are rejected with an error. L-BFGS moves along limited-memory BFGS directions, never increases the objective, stops exactly by its gradient, progress or iteration rule, reaches the minimiser of strongly convex objectives and returns an optimal start unchanged. Unknown search policies are rejected with an error.",
  IC, "all strongly convex and logistic objectives up to 6 dimensions, all conditions, policies, memory sizes, steps, factors and limits", "tests run one objective with default parameters", ["src/core/optimizer/lbfgs/lbfgs.hpp", "src/core/optimizer/lbfgs/search_policies/backtracking.hpp", "src/core/optimizer/lbfgs/search_policies/bracketing.hpp"], "two-loop recursion with line search", 20,
  "Non-trivial: at least two dimensions or more than one trial step.", "property-based testing: post-condition oracle on every search and a recorded-trajectory model of L-BFGS", "Evaluations are recorded through an instrumented loss; rounding ties discarded.")
p("C16", "Linear, ridge and lasso regression return the minimiser of their objective",
  "Linear regression satisfies the normal equations and recovers noise-free coefficients, ridge regression satisfies the penalised normal equations (approaching least squares without a penalty and zero under a huge one), and lasso satisfies the optimality conditions of squared error plus L1 penalty when run long enough, and follows greedy coordinate descent from zero before that. All hold with and without intercept. Predictions are the data times the coefficients plus the intercept, and inputs are not modified.",
  IC, "all full-rank designs of up to 14 samples and 4 features, with and without intercept, all penalties", "tests fit one data set; optimality over the input space is not visible in printed coefficients", ["src/methods/linear_model/linear_regression.hpp", "src/methods/linear_model/ridge_regression.hpp", "src/methods/linear_model/lasso_regression.hpp"], "closed-form and coordinate-descent fits", 5,
  "Non-trivial: more samples than features plus one.", "property-based testing: optimality-condition oracle and exact-recovery relation", "Full column rank only (documented inverse); tolerances 1e-6 relative.")
p("C17", "Logistic, softmax and perceptron models optimise their loss and predict by it",
  "Training with each solver follows that solver's descent on the model's own loss over the given data: sgd and sag give exactly those mini-batch iterates or report non-convergence, lbfgs ends at a stationary point, scd at a stationary point of the penalised loss, and well separated classes are learned. Predicted labels and probabilities are those of the fitted coefficients: non-negative, summing to one, the reported class being the most probable, in the labels' own values. Unknown solvers or penalties, unsupported combinations and oversized batches are rejected with an error.",
  IC, "all data of up to 16 samples, 4 features and 4 classes, all solvers and penalties, batch sizes, rates and patience, queries up to saturation", "tests fit iris once per model and print", ["src/methods/linear_model/logistic_regression.hpp", "src/methods/linear_model/softmax_regression.hpp", "src/methods/linear_model/perceptron.hpp"], "solver dispatch onto the shared optimisers", 4,
  "Non-trivial: more than two samples.", "model-based testing: reference descent from the observed start point, optimality conditions and prediction oracle", "Start points are observed through a fit with learning rate zero under the same seed.")
SVDX = ["svd_inst.cpp", "svd_inst2.cpp"]
MODELS = ["models_linear.cpp", "models_logistic.cpp", "models_bayes.cpp", "models_tree.cpp"] + SVDX
METH = ["src/methods/linear_model/logistic_regression.hpp", "src/methods/naive_bayes/gaussian_naive_bayes.hpp", "src/methods/mixture/gaussian_mixture.hpp", "src/methods/cluster/kmeans.hpp", "src/methods/tree/decision_tree_classifier.hpp", "src/methods/neighbors/k_nearest_neighbors.hpp", "src/methods/decomposition/pca.hpp"]
p("C18", "Naive Bayes learns class statistics and predicts by Bayes' rule",
  "Gaussian naive Bayes learns, per class in ascending label order, the class frequency, feature means and population variances plus a smoothing share of the largest class variance; multinomial naive Bayes learns class frequencies and feature counts smoothed by alpha. Log posteriors and posteriors are those of Bayes' rule (normalised, finite for distant queries), and the predicted label is the most probable class in the labels' own values. The result is unaffected by the order of samples, by renaming classes and by duplicating the data, and the inputs are not modified.",
  I, "all data of up to 20 samples, 4 features and 4 classes with arbitrary label values, smoothing and alpha, queries near and far", "tests fit iris and print", ["src/methods/naive_bayes/base.hpp", "src/methods/naive_bayes/gaussian_naive_bayes.hpp", "src/methods/naive_bayes/multinomial_naive_bayes.hpp"], "class statistics and joint log likelihood", 20,
  "Non-trivial: at least two classes.", "property-based testing: long-double Bayes reference and metamorphic relations", "Needs some within-class spread (Gaussian) and alpha > 0 (multinomial).")
p("C19", "Gaussian mixture fitting is expectation-maximisation of its likelihood",
  "Each iteration of Gaussian mixture fitting is an expectation-maximisation step for the chosen covariance type, iteration stops by the tolerance rule or reports non-convergence with an error, and the best of several starts is kept. The fitted weights, means, covariances, precisions and precision factors are mutually consistent: weights sum to one, the mixture reproduces the sample's mean and (regularised) second moment, and covariances are symmetric and at least the regularisation. Predicted labels and probabilities are those of the fitted parameters, and fewer samples than components, unknown covariance types or initialisations are rejected with an error.",
  IC, "all data of up to 30 samples and 3 features, 1..3 components, full and tied covariances, tolerances, regularisation, starts and iteration limits, under generated entropy", "tests fit iris once and print", ["src/methods/mixture/gaussian_mixture.hpp"], "E and M steps with restarts", 4,
  "Non-trivial: at least two components.", "model-based testing: reference EM from the observed state, plus moment invariants", "The recursion is checked from the state after two iterations on; stopping ties discarded.")
p("C20", "K-means assigns every point to the nearest of its converged centres",
  "A converged k-means model's clusters are a fixed point of Lloyd's iteration, the within-cluster sum of squares never grows with more iterations, and every labelling is explained by starting from data points. Queries are labelled by the nearest cluster mean, k-means++ separates groups that are far apart, and starts vary between runs. Unknown initialisations are rejected with an error and the data are not modified.",
  IC, "all data of up to 14 points and 3 features, 1..4 clusters, both initialisations, tolerances and iteration limits, under generated entropy", "tests fit one set and print labels", ["src/methods/cluster/kmeans.hpp"], "initialisation and Lloyd iteration", 3,
  "Non-trivial: at least two clusters.", "model-based testing: exhaustive set of explanations by a reference Lloyd iteration", "Centres are not exposed and are reconstructed from the labels; distance ties discarded.")
p("C21", "Classification trees are built from best greedy splits within their limits",
  "Every classification tree is the result of repeatedly applying a best available split (a midpoint threshold maximising the criterion, Gini or entropy) while the limits on depth, samples to split, samples per leaf and impurity decrease permit, and of no other rule. A query receives the class frequencies of the training samples in its leaf as probabilities and the most frequent class, in the labels' own values, as label. Separable training data are memorised when limits permit, unknown criteria are rejected with an error, and the data are not modified.",
  IC, "all data of up to 14 samples, 3 features and 4 classes with repeated values, both criteria, all limits", "tests fit iris and print", ["src/methods/tree/decision_tree_classifier.hpp", "src/methods/tree/base.hpp"], "recursive greedy splitting", 3,
  "Non-trivial: more than three samples and two classes.", "model-based testing: search for a sequence of best greedy splits explaining all answers", "Equally good splits are all admitted; near-ties within 1e-9 count as ties.")
p("C22", "Regression trees are built from best greedy splits within their limits",
  "Every regression tree is the result of repeatedly applying a best available split (a midpoint threshold maximising the decrease of squared or absolute error impurity) while the limits on depth, samples to split, samples per leaf, impurity decrease and spread permit, and of no other rule. A query receives the mean target of the training samples in its leaf. Unlimited trees memorise distinct samples, unknown criteria are rejected with an error, and the data are not modified.",
  IC, "all data of up to 12 samples and 3 features with repeated values, both criteria, all limits", "tests fit one set and print", ["src/methods/tree/decision_tree_regressor.hpp", "src/methods/tree/base.hpp"], "recursive greedy splitting", 4,
  "Non-trivial: more than three samples.", "model-based testing: search for a sequence of best greedy splits explaining all answers", "Equally good splits are all admitted.")
p("C23", "KD-tree queries equal exhaustive search",
  "For every data set, leaf size and metric, k-nearest-neighbour queries return for each query the k smallest distances in ascending order with the distinct indices of samples at exactly those distances, and radius queries return exactly the samples within the radius, those on it included. Queries leave the tree unchanged, in any order and number. Unknown metrics, leaf size zero and k outside 1..n are rejected with an error.",
  IE, "all data of up to 60 points and 4 dimensions with duplicates, ties and constant columns, all k, radii, leaf sizes and metrics, sequences of queries", "tests query one small set", ["src/core/tree/kd_tree.hpp"], "branch-and-bound descent", 9,
  "Non-trivial: more points than the leaf size.", "property-based testing: differential comparison with brute force", "Distances to 1e-9; ties admit any of the tied samples.")
p("C24", "K-nearest-neighbour prediction is the vote of the nearest samples",
  "The predicted label wins the vote among the labels of the k nearest training samples, in the labels' own values, for every metric, and is the same with the kd-tree and the brute-force solver and any leaf size. With k = 1 a distinct training sample predicts its own label. Unknown solvers and metrics, k larger than the sample count and leaf size zero are rejected with an error.",
  IC, "all data of up to 40 samples, 3 features and 4 classes with duplicates and ties, all k, leaf sizes, solvers and metrics", "tests fit iris and print", ["src/methods/neighbors/k_nearest_neighbors.hpp"], "neighbour search and vote", 10,
  "Non-trivial: more than one neighbour and class.", "property-based testing: tie-tolerant brute-force vote oracle and solver agreement", "Ties in distance or votes admit every tied label.")
p("C25", "Transaction encoding and the hash tree lose and invent nothing",
  "Encoding a list of transactions gives one row per transaction and one column per distinct item in ascending order, holding the item exactly where the transaction contains it. A hash tree, over any sequence of insertions and count updates and any branching and leaf limits, holds exactly the inserted itemsets with exactly the counts added to them. Lookups and updates of absent itemsets change nothing.",
  IE, "all transaction lists of up to 12 transactions and 8 items with repeats and empties, all operation histories of up to 40 steps, branching 1..5 and leaf limits 1..4", "tests insert a fixed handful", ["src/core/preprocessing/transaction_encoder.hpp", "src/core/tree/hash_tree.hpp"], "sparse encoding; recursive bucket splitting", 15,
  "Non-trivial: at least two transactions / inserted itemsets.", "stateful model-based testing against a map model", "Itemsets of one tree have equal length (the tree's domain).")
p("C26", "Apriori finds exactly the association rules above its thresholds",
  "The rules found are exactly those of the frequent itemsets (support count at least floor(n * min_support)) whose confidence reaches the minimum, each once, with its exact confidence, whatever the order and repetition of transactions and items. Raising a threshold never adds a rule, and the printed list is the list of rules. Finding nothing frequent is reported as an error.",
  IC, "all transaction lists of up to 40 transactions and 6 items, all thresholds", "tests print the rules of one list", ["src/methods/rule_model/apriori.hpp"], "candidate generation, pruning and counting", 12,
  "Non-trivial: at least one rule or frequent pair.", "property-based testing: brute-force enumeration oracle", "Thresholds on a rounding tie are discarded.")
p("C27", "PCA finds the principal axes and their variances",
  "The components are orthonormal with a fixed sign convention, the explained variances are the largest eigenvalues of the sample covariance in descending order with their share of the total, and the transform is the centred data on these axes: uncorrelated, with those variances, and of minimal reconstruction error. Model covariance, precision and score are those of the fitted Gaussian model, in any order of reading. Unknown solvers and more components than min(n, d) are rejected with an error.",
  IC, "all data of up to 14 samples and 6 features with correlated, scaled and shifted columns, all component counts", "tests fit iris and print", ["src/methods/decomposition/pca.hpp", "src/methods/decomposition/base.hpp"], "SVD of the centred data", 15,
  "Non-trivial: more than two samples and features.", "property-based testing: eigenvalue oracle, invariants and metamorphic relations", "Full-rank data for precision and score; eigenvalue ties compared as subspaces.", extra=SVDX)
p("C28", "Refitting equals a fresh fit and models are independent of each other",
  "Fitting a model again, on data of any other shape and also after a failed fit, gives exactly the model a fresh instance would be, for every estimator including Apriori. Fitting, using or destroying another model, of the same or another kind, changes nothing. Asking a model for predictions or attributes changes neither it nor the data, and a model does not depend on the caller's data after fitting.",
  IE, "all 19 estimator configurations, histories of 2-3 fits, pairs of models, repeated readings", "tests fit each model once per process", METH, "per-instance fitted state", 2,
  "Non-trivial: every history has at least two fits or readings.", "stateful metamorphic testing: history against a fresh instance under the same entropy", "Bitwise comparison under replayed entropy.", extra=MODELS)
p("C29", "A prediction depends only on its own query",
  "For every estimator, each row of predictions, probabilities or projections is the same whether the query is asked alone, in any batch, or in any order. Repeated queries receive equal answers, and replacing other queries by extreme ones changes nothing. Outputs have one row per query, and the query matrix is not modified.",
  IC, "all 19 estimator configurations, batches of 1 to 40 queries incl. repeated and training points", "tests predict one fixed matrix", METH, "row-wise prediction", 3,
  "Non-trivial: at least two queries.", "metamorphic property-based testing over all estimators", "Tolerance 1e-8; label changes only across probability ties, which are discarded.", extra=MODELS)
p("C30", "Options mean what they say: defaults, verbosity and unknown names",
  "A default-constructed estimator behaves exactly as one constructed with its documented default options. Reporting progress never changes the fitted model, and a model told to be silent reports no progress. Unknown solver, criterion, metric, initialisation, covariance and normaliser names are rejected with an error instead of being replaced.",
  IC, "all estimators with default constructors, all verbosity settings, a list of plausible wrong names", "tests use one spelling each", METH, "constructors and option dispatch", 2,
  "Non-trivial: every case fits a model.", "differential property-based testing under the same entropy", "Solver and penalty names of softmax regression and the perceptron's penalty are not interpreted by the library and not claimed.", extra=MODELS)
p("C31", "Results do not depend on what memory held before",
  "Every estimator gives bit-for-bit the same fitted attributes, predictions and outcome (success or error) whatever the memory it is given held before, with the same data and entropy. This holds for configured and default-constructed models and for refits. The rules found by Apriori share it.",
  IC, "all 19 estimator configurations, memory filled with 0x00, 0xff or 0x3f bytes, heap and stack", "tests run once in a fresh, mostly zeroed process", METH, "initialisation of every buffer before use", 8,
  "Non-trivial: every case fits a model on differently filled memory.", "differential fuzzing of the allocator: same inputs, differently filled heap and stack", "Built without sanitizers; no coverage-guided tier.", extra=MODELS, plain=True, nofuzz=True)
p("C32", "Models can be asked and trained concurrently",
  "A fitted model asked from several threads at once gives each thread the answers it gives alone, without data races. Separate models trained in separate threads, also on shared training data, are the models trained one after another, without data races. This holds for every estimator whose training does not draw from the process-wide generator rand().",
  ["inputs", "schedules"], "all estimator configurations, 2-4 threads, shared and separate queries and data", "tests are single-threaded", METH, "const prediction, per-instance state", 5,
  "Non-trivial: at least two threads.", "property-based testing under ThreadSanitizer's happens-before race detection", "Schedules are those the OS produces; TSan reports races independent of the interleaving seen. Logistic regression and perceptron training (rand()) are queried but not trained concurrently.", extra=MODELS, tsan=True, nofuzz=True)
p("C33", "Sample order, feature order, units and label names do not matter",
  "Reordering training samples or features, shifting the origin of measurements, or changing their common unit leaves the predictions of linear and ridge regression, naive Bayes, trees, k nearest neighbours and PCA unchanged, in each case for those learners whose definition is invariant. Renaming classes renames predictions and nothing else. Rescaling and shifting a regression target rescales and shifts the predictions.",
  I, "all data of up to 18 samples and 5 features, permutations, integer shifts, power-of-two units, monotone renamings", "tests use one arrangement of one data set", METH, "definitions invariant by construction", 3,
  "Non-trivial: more than four samples.", "metamorphic property-based testing over estimators", "Trees are compared on training rows when rows are reordered (equal splits may tie); vote ties are excluded by odd k and two classes.", extra=MODELS)
p("C34", "Copies, moves and assignments transfer whole, independent models",
  "A copy of a model, fitted or not, gives exactly the answers of the original, and neither is affected when the other is fitted again, assigned to or destroyed. Assigning or moving to a model that was fitted before replaces all of it. The same holds for search trees and the rule miner, for every model that can be copied or moved.",
  IE, "all 19 estimator configurations, kd-trees and Apriori, histories of copies, moves, assignments, refits and destructions", "tests never copy a model", METH + ["src/core/tree/kd_tree.hpp"], "value semantics of the models", 4,
  "Non-trivial: every history copies, moves or assigns at least once.", "stateful metamorphic testing: history against untouched originals, under AddressSanitizer", "Bitwise comparison; models that cannot be copied are skipped.", extra=MODELS)
p("C35", "Memory is given back",
  "Constructing, fitting, failing to fit, asking, copying and destroying models, search trees, encoders and the rule miner, any number of times, leaves no allocated memory behind. A long-lived model that is fitted and asked again and again on data of the same size does not grow.",
  IE, "all 19 estimator configurations, trees, encoder and Apriori, repeated lifetimes and refits", "tests exit after one use", METH + ["src/core/tree/kd_tree.hpp", "src/core/tree/hash_tree.hpp"], "ownership of nodes and buffers", 3,
  "Non-trivial: every case goes through at least three lifetimes.", "property-based testing: allocation balance invariant over repeated histories", "Bytes allocated are read from the AddressSanitizer allocator.", extra=MODELS, nofuzz=True)
p("C36", "An omitted argument means its documented default",
  "Every function and class of the library whose arguments can be left out behaves exactly as with the declared default written out: reductions over the documented axis, ascending sorts, thin factorisations, the seventy-five percent shuffled split, unit ranges of the generators, the documented iteration limits, batch sizes, tolerances, patience and line-search parameters of the optimisers and the miner, the documented rates of the decay policies, penalties and margins of the losses, and metric and sizes of the search trees.",
  IC, "all data up to 16x16, every prefix of given arguments", "tests call each function in one spelling", ["src/core/common.hpp", "src/core/math/extmath.hpp", "src/core/math/ops.hpp", "src/core/math/linalg.hpp", "src/core/optimizer/base.hpp", "src/core/optimizer/lbfgs/params.hpp", "src/core/optimizer/sgd/sgd.hpp", "src/core/optimizer/sgd/decay_policies/exponential_decay.hpp", "src/core/optimizer/sgd/decay_policies/step_decay.hpp", "src/core/tree/kd_tree.hpp", "src/core/tree/hash_tree.hpp"], "default arguments", 3,
  "Non-trivial: more than one row and column, or an optimiser run.", "differential property-based testing under the same entropy", "Bitwise comparison. Defaults of the estimators are C30's.", extra=SVDX)
p("C37", "Single precision gives the results of double precision up to rounding",
  "On data both precisions hold exactly, the array functions, factorisations, search trees and every model that can be instantiated for float give the results of their double instantiation up to single-precision rounding, and converge where that does.",
  IC, "all data on a 1/8 grid of up to 24 samples and 6 features; array functions, linear, ridge, lasso, softmax, perceptron, naive Bayes, one-component mixtures, k-means, trees, neighbours", "tests use double throughout", METH + ["src/core/math/ops.hpp", "src/core/common.hpp"], "templates over the data type", 8,
  "Non-trivial: more than one row and column, or a model fit.", "differential property-based testing with sensitivity probes", "Ties and results that a 1e-5 disturbance of the data changes are discarded. Logistic regression, PCA and truncated SVD cannot be instantiated for float.", extra=["c37_closed.cpp", "c37_paths.cpp", "c37_trees.cpp"], nofuzz=True)
