#!/usr/bin/env python3
"""Single table behind properties.jsonl and MANIFEST.json (run it to rewrite both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, obs, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, obs=obs, note=note))
NOASSERT = "The repository's tests print results for one data set and assert nothing; "

prop("C01", "A numeric text file is loaded exactly or rejected with an exception",
 "Loading a whitespace-separated numeric text file returns every row in file order with every value intact, the last column as the label vector and all others as features (or all columns when no labels are asked for). A missing file, a field that is not one number the element type can hold, or (for the loaders that split off labels) a file with no rows or rows of different lengths, raises an exception and never yields a matrix with invented, missing or shifted values. A labelled load replaces the previous contents of its output containers.",
 ["inputs"], "every file over a token/separator alphabet up to a bounded number of lines and fields", NOASSERT + "they load two fixed well-formed files.",
 ["src/core/data/load.hpp"], [("loadtxt overloads", "src/core/data/load.hpp")], ["return values of data::loadtxt"])
prop("C02", "Splitting and shuffling data permutes whole samples and loses nothing",
 "Splitting a labelled data set into train and test parts puts every sample in exactly one part, keeps each label attached to its own feature row, and puts floor(train_size*n) samples in the training part; without shuffling the original order is kept. Shuffling a data set with or without labels along the documented axis is a permutation of whole rows (or columns), the same permutation for labels and features, and leaves its inputs untouched. Dividing on a feature threshold returns the indices with value <= threshold and the rest, each ascending.",
 ["inputs", "schedules"], "all sizes, train fractions and every outcome of the random shuffle within the bound", NOASSERT + "they see one random shuffle per run and never compare labels with rows.",
 ["src/core/data/split.hpp", "src/core/math/shuffle.hpp"], [("train_test_split, divide_on_feature", "src/core/data/split.hpp"), ("shuffle_data", "src/core/math/shuffle.hpp")], ["returned matrices"])
prop("C03", "Random matrices have the requested shape and range for every draw",
 "Uniform random matrices have the requested shape and every entry in [low, high); random integers lie in [low, high] and every value of a small range is attainable; Gaussian matrices are loc + scale*z of independent standard draws, one per entry. A random permutation of n contains each index 0..n-1 exactly once, and every permutation is attainable.",
 ["inputs", "schedules"], "all shapes, ranges and every outcome of the underlying draws (menu incl. both endpoints) within the bound", "No existing test calls these; a sampled draw never hits the endpoints.",
 ["src/core/math/random.hpp"], [("rand, randn, randint, permutation", "src/core/math/random.hpp")], ["returned matrices"])
prop("C04", "Sorting and argsort/argmax/argmin agree with the data on every axis",
 "Sorting a matrix or nested list along an axis returns each row/column as the ordered rearrangement of its own values, ascending or descending as asked; argsort (matrix and vector forms) returns for each row/column a permutation of valid indices that visits its values in that order. argmax/argmin return an index at which the row/column/whole-matrix extreme occurs, and the map-maximum helper returns an entry with the largest mapped value. An unknown axis raises an exception and the input is not modified.",
 ["inputs"], "all matrices over a small alphabet with ties, all shapes up to the bound, each axis and direction", "No existing test calls these; errors show only at particular sizes, ties or axes.",
 ["src/core/common.hpp"], [("argsort, sort, argmax, argmin, max_element", "src/core/common.hpp")], ["returned indices and matrices"])
prop("C05", "Reshaping and selection helpers move every element to its documented place",
 "Stacking, flattening (row-major), tiling, element-wise minimum, clipping, selecting indices of true entries, unique values, conversion of nested lists to matrices, list slicing (inclusive ends) and row/column norms return exactly the elements the documentation names, each at its documented place. Mismatched shapes, ragged lists and out-of-range slices raise an exception instead of returning data.",
 ["inputs"], "all small matrices/lists over a small alphabet, every shape and argument within the bound", "No existing test calls these directly; several only go wrong for non-square or boundary arguments.",
 ["src/core/common.hpp"], [("hstack, vstack, flatten, repeat, fmin, clip, where, unique, vec2mat, slice, norm", "src/core/common.hpp")], ["return values"])
prop("C06", "List and set helpers compute exact combinations, differences and order",
 "Combinations returns each k-element subsequence (by position) exactly once in lexicographic order; contains, difference, equality and merge return exactly the subset test, the sorted set difference, element-wise equality (also for lists of different lengths) and the alternating merge. Row sorting returns the rows in lexicographic order, and duplicate removal keeps exactly the first occurrence of every distinct row, in order.",
 ["inputs"], "all lists and row lists over a small alphabet up to the bound, both directions", "Only reached indirectly through one Apriori example; duplicates, equal rows and unequal lengths never occur there.",
 ["src/core/common.hpp"], [("combinations, contains, difference, is_equal, merge, sortrows, remove_duplicate_rows", "src/core/common.hpp")], ["return values"])
prop("C07", "Descriptive statistics equal their definitions on every axis",
 "Sum, mean, median, variance, cumulative sum, mode (a most frequent value with its count) and norms along an axis, and covariance, centring, power, sign and absolute value, equal their textbook definitions for every matrix, axis 0 working down columns, axis 1 across rows and -1 over all entries. A common offset added to the data shifts mean and median by it, leaves covariance and centred data unchanged, and never makes a variance negative.",
 ["inputs"], "all matrices over a small alphabet (incl. large common offsets) and all shapes within the bound", "No existing test calls these; axis mix-ups vanish on square or symmetric samples.",
 ["src/core/math/ops.hpp"], [("sum, mean, var, median, mode, cov, cumsum, center, norm2, power, sign, abs", "src/core/math/ops.hpp")], ["return values"])
prop("C08", "Sigmoid, softmax and log-sum-exp stay exact and finite for extreme inputs",
 "Sigmoid values lie in [0,1], are monotone and satisfy s(-x)=1-s(x); softmax rows (or columns) are non-negative, sum to one and are unchanged when a constant is added to the row; log-sum-exp equals max plus the log of the sum of exponentials, on the requested axis and for any row/column count including one. No finite input of any magnitude produces NaN, and softmax and log-sum-exp produce no infinity. Gaussian log-density, diagonal matrix and row norms equal their formulas.",
 ["inputs"], "all matrices over an alphabet containing 0, ±1, ±40, ±800 and ±1e300, all shapes within the bound", "Only the log-loss and softmax-loss examples reach them, with moderate values.",
 ["src/core/math/extmath.hpp", "src/core/math/linalg.hpp", "src/core/math/proba.hpp"], [("sigmoid, softmax, row_norms, diagmat", "src/core/math/extmath.hpp"), ("logsumexp", "src/core/math/linalg.hpp"), ("gaussian_fn", "src/core/math/proba.hpp")], ["return values"])
prop("C09", "LU, QR and SVD factors multiply back to the input and have their shape",
 "LU returns permutation, unit-lower and upper factors with P*L*U equal to the input; QR returns orthonormal Q and upper-triangular R with Q*R equal to the input; SVD returns orthonormal U and V, non-negative descending singular values, and U*S*V^T equal to the input, for full and economy sizes. This holds for every shape, rank-deficient and zero matrices included; sign-flipping U and V keeps the product and makes each column's (or row's) largest-magnitude entry non-negative.",
 ["inputs"], "all matrices over a small alphabet up to the bound plus every shape up to 24x24 with patterned entries, every option flag", "No existing test multiplies any factorisation back.",
 ["src/core/math/linalg.hpp", "src/core/math/extmath.hpp"], [("lu, qr, exact_svd", "src/core/math/linalg.hpp"), ("svd_flip", "src/core/math/extmath.hpp")], ["returned factors"])
prop("C10", "Cholesky, pseudo-inverse and log-determinant satisfy their equations",
 "For a symmetric positive definite input the Cholesky factor is triangular as requested with positive diagonal and multiplies back to the input. The pseudo-inverse satisfies the four Penrose equations for every matrix whose non-zero singular values exceed the cut-off, singular and rectangular ones included. The log-determinant equals the log of the product of the eigenvalues for every positive definite matrix and does not overflow, and the real eigen-decomposition of a symmetric matrix satisfies A*v = lambda*v.",
 ["inputs"], "all small integer matrices up to the bound (SPD ones for Cholesky/logdet) and every shape up to 12x12 with patterned entries", "No existing test calls them.",
 ["src/core/math/linalg.hpp"], [("cholesky, pinv, logdet", "src/core/math/linalg.hpp")], ["returned values"])
prop("C11", "Truncated and randomised SVD return a valid rank-k factorisation",
 "Randomised SVD returns k orthonormal left and right vectors and k descending non-negative singular values, for every random test matrix in general position, oversampling, power-iteration count and matrix shape; when the matrix rank is at most k they reproduce the matrix and its true singular values. The truncated-SVD transformer returns components with orthonormal rows, projects data onto exactly those components, and its transform depends only on the fitted components and the data given.",
 ["inputs", "schedules"], "all small matrices of rank <= k, shapes up to the bound, option values, and enumerated draws of the random test matrix", NOASSERT + "one matrix, one draw.",
 ["src/core/math/linalg.hpp", "src/methods/decomposition/truncated_svd.hpp"], [("randomized_svd", "src/core/math/linalg.hpp"), ("TruncatedSVD::fit/transform", "src/methods/decomposition/truncated_svd.hpp")], ["returned factors, get_components, transform"])
prop("C12", "PCA components, variances and projections are those of the training data",
 "After fitting, the PCA components are orthonormal rows spanning the top principal directions, the explained variances are the descending eigenvalues of the training covariance, ratios are variances over total variance, and scaled components/noise variance/covariance/precision/log-likelihood follow the probabilistic-PCA formulas. Transform subtracts the training mean and projects, row by row, whatever data it is given. Accessors return the same values in any order and after refitting describe the last data only.",
 ["inputs", "histories"], "all small matrices over an alphabet, every shape/number of components within the bound, accessor and refit orders", NOASSERT + "one data set, transformed only by the training data itself.",
 ["src/methods/decomposition/pca.hpp", "src/methods/decomposition/base.hpp"], [("PCA::fit/transform/score", "src/methods/decomposition/pca.hpp"), ("compute covariance/precision", "src/methods/decomposition/base.hpp")], ["get_components, get_explained_var(_ratio), get_covariance, get_precision, transform, score"])
prop("C13", "Entropy and Gini of a labelled, weighted sample equal their definitions",
 "The entropy of a label vector is -sum p log2 p and the Gini index 1 - sum p^2, where p are the weighted class frequencies (class weight divided by the number of samples) over exactly the labels present, counting each sample with its weight (sample weights average one; without weights each counts once). Both are independent of the order of samples and of how classes are numbered, zero for a pure sample and maximal for equal frequencies; a weight list of another length raises an exception.",
 ["inputs"], "all label and weight vectors over a small alphabet up to the bound", "Only reached through tree tests that fail at the baseline.",
 ["src/core/math/extmath.hpp"], [("entropy, gini", "src/core/math/extmath.hpp")], ["return values"])
prop("C14", "Loss values equal their formulas and gradients are their derivatives",
 "Squared, logistic, Huber and softmax losses return the mean loss over the samples and the hinge loss its sum, each plus the penalty lambda*||W||^2/(2n), and the value is finite for every finite input, however large the margins. Each gradient equals the derivative of the corresponding loss (a valid subgradient at kinks), for every sample count and feature count, and depends only on its arguments.",
 ["inputs"], "all small data, label and weight matrices over an alphabet with extreme margins, all shapes within the bound", NOASSERT + "one data point is printed.",
 ["src/core/loss/mean_squared_error.hpp", "src/core/loss/log_loss.hpp", "src/core/loss/hinge_loss.hpp", "src/core/loss/softmax_loss.hpp", "src/core/loss/huber_loss.hpp"], [("evaluate / gradient of each loss", "src/core/loss")], ["return values"])
prop("C15", "Metrics and distances are exact and behave as distances",
 "Euclidean, Manhattan and Minkowski (p = 1, 2, infinity) distances equal their formulas, are symmetric, zero exactly for equal points and satisfy the triangle inequality; mismatched shapes and unsupported p raise an exception. The explained-variance score is 1 for predictions equal to the truth up to a constant and otherwise 1 - Var(error)/Var(truth), and mean_absolute_error, by its documentation, the mean of the squared errors. All of them hold for integer, unsigned and single-precision elements too.",
 ["inputs"], "all vectors over a small alphabet up to the bound (all triples for the triangle inequality)", "No existing test asserts any metric.",
 ["src/core/metric.hpp"], [("euclidean/manhattan/minkowski_distance, explained_variance_score", "src/core/metric.hpp")], ["return values"])
prop("C16", "Step-size schedules and update rules follow their recurrences",
 "A step-decay schedule multiplies the rate by the factor each time another step_size epochs have been reached (compute(e) = base * factor^floor((e+1)/step_size) for the 0-based epoch e) and an exponential schedule gives base * exp(-gamma*e), so rates never increase or change sign. The plain update moves the weights by exactly -rate*gradient; momentum and Nesterov updates accumulate a velocity over successive calls by their textbook recurrences, starting from zero for weights of a new shape. Two update-rule objects never influence one another.",
 ["inputs", "histories"], "all epochs, parameter values and update sequences up to the bound, with two interleaved objects", "No test uses any policy but the default ones for one run.",
 ["src/core/optimizer/sgd/decay_policies/step_decay.hpp", "src/core/optimizer/sgd/decay_policies/exponential_decay.hpp", "src/core/optimizer/sgd/update_policies/vanilla_update.hpp", "src/core/optimizer/sgd/update_policies/momentum_update.hpp", "src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"], [("compute / update", "src/core/optimizer/sgd")], ["returned rate, updated weights"])
for (i, t, f, extra) in [
 ("C17", "SGD", "sgd.hpp", "each epoch applies, batch by batch in shuffled order, one update with the mean gradient of that batch at the current weights and the scheduled rate"),
 ("C18", "SAG", "sag.hpp", "each step replaces the stored gradient of one batch by its current gradient and moves against the average of the stored gradients over all batches"),
 ("C19", "truncated-gradient", "tg.hpp", "each step is a gradient step followed by a cumulative L1 truncation that moves weights toward zero and never past it, so the total penalty applied to a weight never exceeds the accumulated penalty")]:
    prop(i, {"C17": "SGD follows the mini-batch recurrence for every shuffle order", "C18": "SAG follows the average-gradient recurrence for every shuffle order", "C19": "Truncated gradient follows the cumulative-penalty recurrence for every order"}[i],
     f"For every possible shuffling of the batches the {t} optimiser returns exactly the weights of its published recurrence: {extra}. Batches partition the leading samples without mixing labels and rows, a batch size of at least the sample count means one full batch, and training stops once the loss has not improved by the tolerance for the given number of epochs; exhausting the epoch budget before that raises an exception. Calling the optimiser again continues from the weights it reached and carries nothing else over, and optimiser objects share no state.",
     ["inputs", "schedules", "histories"], "all small data sets, batch sizes, epoch counts, tolerances and every shuffle outcome within the bound", NOASSERT + "one random order per run.",
     ["src/core/optimizer/sgd/" + f, "src/core/optimizer/base.hpp"], [("optimize", "src/core/optimizer/sgd/" + f), ("convergence bookkeeping", "src/core/optimizer/base.hpp")], ["returned weights"])
prop("C20", "Coordinate descent moves only the best coordinate, to its penalised minimiser",
 "For every random sample order, the coordinate-descent optimiser returns exactly the weights of its greedy recurrence: each of the max_iter steps changes exactly one coordinate, one with the largest predicted descent at the current weights, to the soft-threshold minimiser of its quadratic model (curvature l1_ratio) plus L1 penalty lambda. Whenever that curvature bounds the loss's own, no step increases loss plus L1 penalty. A second call continues from the weights reached.",
 ["inputs", "schedules"], "all small data sets and every random sample order within the bound", NOASSERT + "one random order and one data set.",
 ["src/core/optimizer/sgd/scd.hpp"], [("optimize", "src/core/optimizer/sgd/scd.hpp")], ["returned weights"])
prop("C21", "L-BFGS follows its recurrence and never increases the objective",
 "Started anywhere, L-BFGS returns weights of the right size whose loss is no larger than at the start; its iterates follow the L-BFGS direction of the last m updates with line-search steps that satisfy the configured condition (Armijo, Wolfe, strong Wolfe), until a stop test (gradient tolerance, relative decrease over `past` iterations, iteration limit) holds. For smooth convex losses without the latter two, the returned gradient is within the tolerance. A stationary start is returned unchanged and an unknown line search is rejected. Two optimisations with different objects or repeated on the same object give the same result.",
 ["inputs", "histories"], "all small least-squares and logistic problems over an alphabet, start points, memory sizes, line-search policies and conditions within the bound", NOASSERT + "one problem, one configuration.",
 ["src/core/optimizer/lbfgs/lbfgs.hpp", "src/core/optimizer/lbfgs/search_policies/backtracking.hpp", "src/core/optimizer/lbfgs/search_policies/bracketing.hpp", "src/core/optimizer/lbfgs/search_policies/base.hpp"], [("two-loop recursion", "src/core/optimizer/lbfgs/lbfgs.hpp"), ("line searches", "src/core/optimizer/lbfgs/search_policies")], ["returned weights"])
prop("C22", "Linear and ridge regression solve their normal equations exactly",
 "Linear regression returns the least-squares solution (residual orthogonal to every feature and, with an intercept, summing to zero) and ridge regression the solution of the penalised normal equations with the given penalty, for every full-rank data set (any data set for a positive penalty; the intercept is penalised too). get_coef returns the feature weights followed by the intercept, and prediction = X*coef + intercept for training and new data, with and without intercept; refitting forgets earlier data.",
 ["inputs", "histories"], "all small data sets over an alphabet, every shape up to the bound, penalties, intercept on/off, refits", NOASSERT + "one data set.",
 ["src/methods/linear_model/linear_regression.hpp", "src/methods/linear_model/ridge_regression.hpp", "src/methods/linear_model/base.hpp"], [("fit", "src/methods/linear_model"), ("predict, get_coef", "src/methods/linear_model/base.hpp")], ["get_coef, predict"])
prop("C23", "Lasso regression minimises the penalised squared error",
 "Lasso training runs to completion with and without intercept and leaves a model whose predictions are X*coef + intercept, trained on the data it was given for every random order: when the curvature bound is at least that of the loss and enough steps are allowed, the coefficients (intercept included) minimise mean squared error/2 plus penalty times L1 norm. So a zero penalty gives the least-squares fit, a larger penalty never a larger L1 norm, a dominating one zero coefficients; refitting forgets earlier data.",
 ["inputs", "schedules", "histories"], "all small data sets over an alphabet, penalties, intercept on/off, and the random draws enumerated within the bound", "The existing lasso test aborts at the baseline.",
 ["src/methods/linear_model/lasso_regression.hpp"], [("fit", "src/methods/linear_model/lasso_regression.hpp")], ["get_coef, predict"])
prop("C24", "Logistic regression predicts the likelier class from consistent probabilities",
 "Predicted probabilities for each sample are a pair (P(0), P(1)) summing to one with P(1) = sigmoid(X*coef + intercept), and the predicted label (0 or 1) is the class with the larger probability. Training lowers the (penalised) log-loss from its starting point for every solver, separates separable data given enough iterations, and depends only on the last data fitted and the random order.",
 ["inputs", "schedules", "histories"], "all small two-class data sets over an alphabet, solvers, penalties, shuffles enumerated within the bound", NOASSERT + "predictions are printed, not checked.",
 ["src/methods/linear_model/logistic_regression.hpp"], [("fit, predict, predict_prob", "src/methods/linear_model/logistic_regression.hpp")], ["predict, predict_prob, get_coef"])
prop("C25", "The perceptron separates separable data and labels by the sign of its margin",
 "For class labels 0 and 1 the perceptron predicts 1 exactly where X*coef + intercept is positive and 0 elsewhere. On every linearly separable two-class data set (with intercept if needed) enough epochs of training, under every random order, give a model that labels the training data correctly; refitting forgets earlier data.",
 ["inputs", "schedules", "histories"], "all small separable data sets over an alphabet and every shuffle within the bound", "The existing perceptron test aborts at the baseline.",
 ["src/methods/linear_model/perceptron.hpp"], [("fit, predict", "src/methods/linear_model/perceptron.hpp")], ["predict, get_coef"])
prop("C26", "Softmax regression gives per-sample class distributions and their argmax",
 "For class labels 0..K-1 softmax regression gives each sample non-negative class probabilities summing to one that equal the softmax of X*coef + intercept (one coefficient column per class), and predicts a class of maximal probability, for any number of samples including one. Training lowers the cross-entropy and, on separable data with enough epochs, labels the training data correctly for every random order; refitting forgets earlier data.",
 ["inputs", "schedules", "histories"], "all small data sets with 2-3 classes over an alphabet, shuffles enumerated within the bound", "The existing softmax regression test aborts at the baseline.",
 ["src/methods/linear_model/softmax_regression.hpp"], [("fit, predict, predict_prob", "src/methods/linear_model/softmax_regression.hpp")], ["predict, predict_prob, get_coef"])
prop("C27", "Gaussian naive Bayes posterior equals the exact Bayes computation",
 "After fitting, class priors are class frequencies, and per-class means and variances are those of exactly that class's rows; predicted (log-)probabilities equal the normalised prior times Gaussian densities for each sample, and the predicted label is a training label with maximal posterior. Label values may be arbitrary numbers, sample order is irrelevant, probabilities sum to one, and refitting forgets earlier data. Variances include the smoothing share of the largest feature variance; some feature must vary.",
 ["inputs", "histories"], "all small labelled data sets over an alphabet incl. arbitrary label values and large offsets, refits, query points", "The existing test aborts at the baseline.",
 ["src/methods/naive_bayes/gaussian_naive_bayes.hpp", "src/methods/naive_bayes/base.hpp"], [("fit, joint_log_likelihood", "src/methods/naive_bayes/gaussian_naive_bayes.hpp"), ("predict, predict_prob", "src/methods/naive_bayes/base.hpp")], ["predict, predict_prob, get_mean, get_var, get_classes, prior"])
prop("C28", "Multinomial naive Bayes posterior equals the smoothed-count computation",
 "After fitting, feature log-probabilities are the Lidstone-smoothed relative counts of exactly that class's rows and priors are class frequencies; predicted (log-)probabilities equal the normalised prior times count likelihood for each sample, and the predicted label is a training label with maximal posterior. Label values may be arbitrary numbers, probabilities sum to one, and refitting forgets earlier data.",
 ["inputs", "histories"], "all small count matrices and label vectors over an alphabet, smoothing values, refits, query points", "The existing test aborts at the baseline.",
 ["src/methods/naive_bayes/multinomial_naive_bayes.hpp", "src/methods/naive_bayes/base.hpp"], [("fit, joint_log_likelihood", "src/methods/naive_bayes/multinomial_naive_bayes.hpp")], ["predict, predict_prob, getters"])
prop("C29", "A classification tree predicts leaf majorities and respects its limits",
 "Every prediction of a fitted classification tree is a training label (arbitrary numeric values allowed) and its class probabilities are the class frequencies of a set of training samples, summing to one. Samples with identical features get identical predictions; each node is split at a best candidate (greatest impurity decrease, threshold anywhere between neighbouring values) and only if its depth (root 0) is at most the maximum, it has the minimum samples to split, that split leaves the minimum per leaf and decreases impurity by more than the minimum; where every such split gains, an unlimited tree reproduces consistent training data exactly. Refitting forgets earlier data, and sample order changes the result only through ties.",
 ["inputs", "histories"], "all small labelled data sets over an alphabet, limit settings and refits within the bound", "The existing test aborts at the baseline.",
 ["src/methods/tree/decision_tree_classifier.hpp", "src/methods/tree/base.hpp"], [("build_tree, best_split", "src/methods/tree/decision_tree_classifier.hpp")], ["predict, predict_prob"])
prop("C30", "A regression tree predicts leaf means and respects its limits",
 "Every prediction of a fitted regression tree is the mean target of a set of training samples it routes together; the split taken is one that decreases the criterion most over all candidate splits (threshold anywhere between neighbouring values). A node is split only if its depth (root 0) is at most the maximum, it has the minimum samples to split and standard deviation, and that split leaves the minimum per leaf and decreases the criterion by more than the minimum; where every such split gains, an unlimited tree reproduces the training targets. Refitting forgets earlier data.",
 ["inputs", "histories"], "all small data sets over an alphabet, limit settings, criteria and refits within the bound", "The existing test aborts at the baseline.",
 ["src/methods/tree/decision_tree_regressor.hpp", "src/methods/tree/base.hpp"], [("build_tree, best_split", "src/methods/tree/decision_tree_regressor.hpp")], ["predict"])
prop("C31", "k-d tree k-nearest queries equal brute force for any data and leaf size",
 "For every point set, leaf size, query point and k up to the number of points, the k-d tree returns k distinct point indices whose distances, in ascending order, equal the k smallest brute-force distances in the tree's metric (Euclidean, Manhattan or Chebyshev), each reported distance being that of its index. Duplicated points, ties and constant columns are allowed, each query is independent of earlier queries and of the other rows of a batch, and the data passed in is not modified.",
 ["inputs", "histories"], "all small point sets on a grid, all leaf sizes, k and query points within the bound, plus larger patterned sets", NOASSERT + "one data set and query is printed.",
 ["src/core/tree/kd_tree.hpp"], [("build_tree, query, hyper-rectangle pruning", "src/core/tree/kd_tree.hpp")], ["KDTree::query"])
prop("C32", "k-d tree radius queries return exactly the points within the radius",
 "For every point set, leaf size, query point and radius >= 0, a radius query returns, per query point in order, exactly the indices of the points at distance at most the radius (boundary included) in the tree's metric, each once with its true distance; a query point without neighbours gets an empty list. It is independent of earlier queries and of the other rows of a batch.",
 ["inputs", "histories"], "all small point sets on a grid (so boundary distances are exact), all leaf sizes, radii and queries within the bound", "No existing test asserts a radius query.",
 ["src/core/tree/kd_tree.hpp"], [("query_radius, rectangle tests", "src/core/tree/kd_tree.hpp")], ["KDTree::query_radius"])
prop("C33", "The nearest-neighbour classifier takes the vote of the true neighbours",
 "A nearest-neighbour classification is the most frequent label among the k nearest training samples (some label of maximal count on ties; any choice among equally distant samples), one label per query, for any numeric label values, and the k-d tree and brute-force solvers obey the same rule in their metric. With k = 1 each training sample gets the label of a nearest sample, and refitting forgets earlier data.",
 ["inputs", "histories"], "all small labelled point sets on a grid, k, leaf sizes and queries within the bound", "The class does not compile at the baseline, so its tests never run.",
 ["src/methods/neighbors/k_nearest_neighbors.hpp"], [("fit, predict, brute_force", "src/methods/neighbors/k_nearest_neighbors.hpp")], ["predict"])
prop("C34", "Hash-tree support counts equal brute-force subset counts",
 "After any interleaving of inserting candidate itemsets of one length and counting itemsets of that length, each candidate's support is exactly the number of times it was counted since it was first inserted, whatever the fan-out, leaf capacity and insertion order. Frequent-itemset extraction returns exactly the candidates reaching the minimum support with their counts, and two trees do not influence one another.",
 ["inputs", "histories"], "all candidate sets and transaction sequences over a small item alphabet, all fan-outs and leaf capacities within the bound", NOASSERT + "one tree is printed.",
 ["src/core/tree/hash_tree.hpp"], [("build_tree, add_support, compute_frequency_itemsets", "src/core/tree/hash_tree.hpp")], ["support counts"])
prop("C35", "Apriori finds all and only frequent itemsets and confident rules",
 "For every transaction list, the rules Apriori reports are exactly the pairs of disjoint non-empty itemsets whose union occurs in at least the minimum share of the transactions and whose confidence (count of the union over count of the left side) reaches the minimum, each once with that exact confidence, regardless of item order and repetition within transactions. The printed rules are the same. Running again on other data forgets earlier data.",
 ["inputs", "histories"], "all transaction lists over a small item alphabet up to the bound, all support/confidence thresholds and hash-tree parameters, refits", NOASSERT + "one list is printed.",
 ["src/methods/rule_model/apriori.hpp", "src/core/tree/hash_tree.hpp"], [("fit_transform, candidate generation, rule generation", "src/methods/rule_model/apriori.hpp")], ["frequent itemsets and rules"])
prop("C36", "One-hot transaction encoding is exact",
 "Encoding a list of transactions yields one row per transaction and one column per distinct item, in ascending item order; exactly the entries for items contained in the transaction are stored, each once, and hold the item itself. Repetitions and item order within a transaction do not matter, the list passed in is not modified, and an encoder can be used for any number of lists.",
 ["inputs", "histories"], "all transaction lists over a small item alphabet up to the bound, fit/transform/refit sequences", NOASSERT + "one list is printed.",
 ["src/core/preprocessing/transaction_encoder.hpp"], [("fit, transform", "src/core/preprocessing/transaction_encoder.hpp")], ["encoded matrix"])
prop("C37", "k-means assigns to nearest centroids and returns Lloyd iterates",
 "For every initialisation, k-means predictions are those of nearest centroids, for centroids that Lloyd's iteration reaches from some samples as start (distinct ones for random initialisation) within the iteration limit and tolerance; after convergence each non-empty cluster's centroid is the mean of the samples assigned to it. k-means++ puts one centroid into each of k well separated groups. Predictions are per sample, and refitting forgets earlier data.",
 ["inputs", "schedules", "histories"], "all small data sets over an alphabet, k, both initialisation modes and every initial choice within the bound", "The existing test aborts at the baseline.",
 ["src/methods/cluster/kmeans.hpp"], [("fit, predict, init_centroids", "src/methods/cluster/kmeans.hpp")], ["predict"])
prop("C38", "Gaussian mixtures follow the EM recurrence and never lose likelihood",
 "For every initialisation the mixture's weights are a probability vector, covariances (full or tied) are symmetric positive with precisions their inverses, and the fitted parameters are those of the EM recurrence run from that start until its stopping rule (the best of several initialisations), whose likelihood never decreases. Posterior probabilities per sample sum to one and are the Bayes posteriors of the fitted parameters, predictions their argmax; refitting forgets earlier data.",
 ["inputs", "schedules", "histories"], "all small data sets over an alphabet, covariance types, component counts, and initialisations within the bound", NOASSERT + "one run on one data set.",
 ["src/methods/mixture/gaussian_mixture.hpp"], [("e_step, m_step, fit_data", "src/methods/mixture/gaussian_mixture.hpp")], ["get_weights, get_means, get_covariance, get_precisions, predict, predict_prob"])
prop("C39", "A fitted model depends only on its last training call",
 "For every estimator and every history of fits, predictions and accessor calls on it, the model after its last fit behaves exactly like a fresh object fitted once on the same data with the same random draws. Models of the same or different classes used alternately do not influence one another, and fitting or predicting never modifies the caller's data. All public headers (except the unfinished spectral clustering) can be included together in one program.",
 ["histories", "inputs"], "all call histories up to the bound on every estimator, over small data sets of different shapes, and interleavings of two objects", "Each existing test fits one object once.",
 ["src/methods", "src/core"], [("fit of every estimator", "src/methods")], ["predict, transform and accessors of every estimator"])
prop("C40", "Predicting a batch equals predicting each sample on its own",
 "For every fitted classifier, regressor, clusterer and transformer, the outputs for a batch of samples are, row by row, the outputs for each sample alone, in any order and with any other samples in the batch. A prediction has one row per sample and repeating it gives the same answer.",
 ["inputs", "histories"], "all batches up to the bound drawn from a query grid, for every estimator and training set in the bound", "No existing test predicts anything but its training data as one batch.",
 ["src/methods"], [("predict, predict_prob, transform of every estimator", "src/methods")], ["predict, predict_prob, transform"])
prop("C41", "Concurrent threads do not influence each other",
 "Two threads that each create, train and use an estimator of their own, or call core functions on their own data, and two threads that ask one fitted estimator for predictions or transforms at the same time, get exactly the answers each of them would get alone with the same random draws, whichever way their steps interleave.",
 ["schedules", "inputs"], "all interleavings of two threads with one and two preemptions, at every allocation and every entry to or exit from a library function, for every ordered pair of estimators over small data sets", "No existing test uses more than one thread or object.",
 ["src/methods", "src/core"], [("fit, predict and transform of every estimator, core functions", "src/methods"), ("core functions", "src/core")], ["predict, transform and accessors of every estimator, return values of core functions"])
prop("C42", "Single precision gives the double-precision answers to its accuracy",
 "Every estimator, optimizer, loss, metric, tree and core numerical function can be used with float as its element type. On data that both types represent, and with the same random draws, it accepts and rejects the same data as with double, and where the double answer is stable under relative changes of the data of 1e-6 the float answer agrees with it to about three digits, labels included unless two classes tie.",
 ["inputs", "histories"], "all small data sets over an alphabet and patterned ones up to 130 rows and 17 features, for every estimator and core function", "No existing test uses any element type but double.",
 ["src/methods", "src/core"], [("DataType / MatType template parameters", "src/methods"), ("DataType / MatType template parameters", "src/core")], ["predict, predict_prob, transform, accessors, return values"])
prop("C43", "Options are honoured or rejected, never silently ignored",
 "An option name the library supports selects that behaviour. An unknown solver, metric, criterion, initialisation, covariance type, penalty, normaliser or line-search policy, and a number of neighbours, clusters, components or a leaf size the data cannot satisfy, raises an exception no later than fitting or predicting: never a crash, an endless loop or an answer from uninitialised memory. An estimator built by any of its constructors trains with any supported solver whatever the memory held before, with no penalty the penalty coefficient is ignored, epoch budget, patience and batch size are used as given however large (training that exhausts the budget before the loss has failed to improve as often as the patience says raises an exception, other training does not), and an object built without arguments behaves like one built with the documented defaults.",
 ["inputs", "histories"], "every option name of a closed pool for every option, every count up to n+2, every constructor with every solver and penalty on memory with different old contents", "Existing tests use one valid setting each.",
 ["src/methods", "src/core"], [("constructors and fit of every estimator", "src/methods"), ("line search, randomized_svd, KDTree", "src/core")], ["exceptions, predict, transform, coefficients"])

NA = {}
TECH = {"C41": "stateless model checking of the real code: two threads under a controlled scheduler, exhaustive enumeration of all schedules with up to two preemptions at instrumented scheduling points, every schedule compared with the threads run alone"}
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
    built = [p for p in P if os.path.exists(f"{V}/checks/{p['id']}.cpp") or os.path.exists(f"{V}/checks/{p['id']}a.cpp")]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
            "technique": TECH.get(p["id"]) or "stateless model checking of the real code: exhaustive enumeration of inputs, call histories and random outcomes within stated bounds, every execution compared with a reference model",
            "level": "model_checking",
            "level_note": (p["note"] + " " if p["note"] else "") + "Every execution inside the bounds written in the evidence file is run on the real headers compiled from /repo/src and compared with an independent reference model; nothing is sampled. Trusts g++, libstdc++, Eigen, the explorer (mc/) and the reference model; says nothing outside the bounds."} for p in built],
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p not in built]}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
if __name__ == "__main__":
    main()
