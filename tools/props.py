"""The properties: the source of properties.jsonl and of the check list in MANIFEST.json (mkfiles.py writes both)."""

L = "src/learning/"
T = "src/learning/toolkit/"
D = "src/data/transforms/"
A = "src/analysis/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], observe_at
P = []


def p(id, title, statement, over, quant, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe))


# ------------------------------------------------------------------ core: sampling and shuffling
p("C01", "Reservoir samples: exactly k elements at distinct positions of the pool",
  "Sampling k elements from a pool of n elements without replacement returns exactly k elements, drawn from k different positions of the pool, for every pool, element type, 0 <= k <= n and every sequence of random draws. The pool is left as it was, and asking for more elements than the pool has panics instead of returning something.",
  ["inputs"], "every pool, element type, sample size and random stream",
  "One unit test looks at the length of one sample of 3 out of 7; membership, distinctness, the limits k=0, k=n, k>n and large pools are never checked.",
  [T + "rand_utils.rs"], [("length assertion, fill of the first k, replacement at a random index below the count seen", T + "rand_utils.rs: reservoir_sample")],
  ["return value of reservoir_sample"])
p("C02", "Reservoir sampling is uniform over all k-subsets",
  "Every subset of k positions of the pool is equally likely to be the sample, whatever the pool size; in particular each element is included with probability k/n, including the first and the last. Successive samples are independent.",
  ["inputs", "histories"], "every pool size and sample size, over the distribution of random draws",
  "No test looks at the distribution of a sample: a biased sampler passes them all.",
  [T + "rand_utils.rs"], [("index drawn uniformly from the number of elements seen so far", T + "rand_utils.rs: reservoir_sample")],
  ["frequencies over many calls of reservoir_sample"])
p("C03", "Both Fisher-Yates shuffles return a permutation of their input",
  "The copying and the in place shuffle return the same multiset of elements in some order, for every length (0 and 1 included), element type and sequence of random draws: no element lost, duplicated, torn or taken from uninitialised memory. The copying form leaves its input alone; the in place form touches nothing outside the slice it is given.",
  ["inputs"], "every slice, element type and random stream",
  "The unit tests check membership of ten distinct integers; duplicates, other lengths and types, owned values and sub-slices are not checked.",
  [T + "rand_utils.rs"], [("inside-out copy that only reads written slots", T + "rand_utils.rs: fisher_yates"), ("swaps within the slice", T + "rand_utils.rs: in_place_fisher_yates")],
  ["output slices"])
p("C04", "Both Fisher-Yates shuffles are uniform over all permutations",
  "Every ordering of the input is equally likely, at every length, for the copying and for the in place shuffle: each element is equally likely to land at each position, fixed points and both parities occur as often as they should. Successive shuffles are independent.",
  ["inputs", "histories"], "every length, over the distribution of random draws",
  "No test looks at the distribution of shuffles; Sattolo-like, off-by-one or block-local shuffles pass them.",
  [T + "rand_utils.rs"], [("partner drawn uniformly from the positions filled so far / left over", T + "rand_utils.rs")],
  ["frequencies over many shuffles"])
# ------------------------------------------------------------------ core: activation functions, distributions
p("C05", "Activation functions: value, derivative, derivative from output, inverse",
  "For Sigmoid, Linear, Exp and Tanh at every argument, the declared gradient is the derivative of the function, the gradient computed from the output equals the gradient at the input that produced it, and the inverse undoes the function on its range. Each function has its mathematical value and range, never decreases, and saturates at huge arguments instead of giving NaN.",
  ["inputs"], "every finite argument (and the ends of each range)",
  "The module has no test at all; the neural network tests touch two of the functions near zero.",
  [T + "activ_fn.rs"], [("closed forms", T + "activ_fn.rs: func, func_grad, func_grad_from_output, func_inv")],
  ["return values of the ActivationFunc methods"])
p("C06", "Exponential distribution: pdf, log-pdf and cdf agree with the law",
  "For every rate and every x >= 0, pdf, logpdf and cdf of an Exponential are rate*exp(-rate*x), its logarithm (finite even where the pdf underflows) and 1-exp(-rate*x); the cdf is a non-decreasing probability that is 0 at zero and is the integral of the pdf. A negative x panics, lambda() returns the rate given, and the default rate is 1.",
  ["inputs"], "every rate and argument",
  "The documentation examples check one rate at one point each.",
  ["src/stats/dist/exponential.rs"], [("closed forms with an argument assertion", "src/stats/dist/exponential.rs: impl Distribution")],
  ["pdf, logpdf, cdf, lambda"])
p("C07", "Gaussian distribution: pdf, log-pdf and cdf agree with the law",
  "For every mean, positive variance and x, pdf and logpdf of a Gaussian are the normal density and its logarithm (finite even where the density underflows), and cdf is a non-decreasing probability within the documented 0.003 of the normal distribution function, 1/2 at the mean and symmetric about it. Constructing from a variance or from its square root gives the same random variable, and the default is the standard normal; a distribution that defines only its pdf has that pdf's logarithm as logpdf.",
  ["inputs"], "every mean, variance, argument and constructor",
  "The documentation examples check single points, two of them only to 0.004.",
  ["src/stats/dist/gaussian.rs", "src/stats/dist/mod.rs"], [("mean, variance and standard deviation kept together", "src/stats/dist/gaussian.rs: new, from_std_dev"), ("closed forms; Polya approximation of the cdf", "src/stats/dist/gaussian.rs: impl Distribution")],
  ["pdf, logpdf, cdf"])
p("C08", "Draws from a distribution follow that distribution",
  "Independent draws from an Exponential or Gaussian follow the law its pdf and cdf describe - location, scale, shape and tails - whichever constructor, random generator or sampling trait (Sample or IndependentSample) is used. Drawing does not change the distribution.",
  ["inputs", "histories"], "every parameter, constructor, generator and sampling trait",
  "The tests never sample; nothing relates draws to the declared parameters.",
  ["src/stats/dist/exponential.rs", "src/stats/dist/gaussian.rs"], [("scaling of Exp1 and StandardNormal draws", "src/stats/dist: ind_sample")],
  ["draws"])
# ------------------------------------------------------------------ toolkit: kernels, costs, regularisation
p("C10", "Kernels: definition, symmetry, arithmetic, positive semidefinite Gram matrices",
  "Every kernel returns the value of its documented formula for every pair of vectors and parameters, is symmetric in its arguments and has its documented default parameters. Sums and products of kernels, nested in any way, evaluate to the sum and product of the values. Gram matrices of the kernels that are positive definite by theory (linear, polynomial with natural exponent, squared exponential, exponential, rational quadratic, and sums and products of them) have no negative eigenvalue.",
  ["inputs"], "every kernel, parameter, pair of vectors and set of points",
  "No test evaluates a kernel: the module has none, and the SVM and GP tests look only at the outcome of one small training each.",
  [T + "kernel.rs"], [("closed forms over dot products and distances", T + "kernel.rs: impl Kernel"), ("KernelArith operators", T + "kernel.rs: KernelSum, KernelProd")],
  ["Kernel::kernel"])
p("C11", "Cost functions and their gradients are consistent",
  "MeanSqError and CrossEntropyError are the averages over the rows of the summed losses, for matrices and vectors, never below the cost of a perfect prediction; grad_cost is the derivative of cost with respect to every output entry, and vanishes at a perfect prediction. Outputs and targets of different shapes give no cost.",
  ["inputs"], "every shape, output and target inside the domain (cross entropy: outputs strictly between 0 and 1)",
  "No test compares a cost with its gradient; the gradients were wrong by the number of rows without any test noticing.",
  [T + "cost_fn.rs"], [("cost and grad_cost pairs", T + "cost_fn.rs: impl CostFunc")],
  ["CostFunc::cost, CostFunc::grad_cost"])
p("C12", "Regularisation: cost and gradient agree, over any weight window",
  "For L1, L2, ElasticNet and None, reg_grad is the derivative of reg_cost in every weight (a subgradient at zero), both scale linearly in the strength, are averaged over the number of rows, are zero without regularisation, and depend only on the entries of the matrix slice they are given, which they leave alone.",
  ["inputs"], "every strength, kind, weight matrix and window of a larger matrix",
  "Three unit tests each compare one matrix of constants; that cost and gradient belong together is never checked.",
  [T + "regularization.rs"], [("reg_cost / reg_grad dispatch", T + "regularization.rs: Regularization")],
  ["Regularization::reg_cost, reg_grad"])
# ------------------------------------------------------------------ optimisers
p("C13", "Gradient descent methods follow their update rules and converge",
  "GradientDesc, StochasticGD, AdaGrad and RMSProp make exactly the updates they document from the gradients the model reports, at most the given number of passes, stopping early only after a pass whose cost has not changed; the stochastic methods use each row exactly once per pass in an order that is uniformly random and fresh in each pass. On convex problems with suitable steps they converge to the minimum, and parameters that are not finite or of the wrong sign are refused when the method is made.",
  ["inputs", "histories"], "every setting, model, start, data and random order",
  "The tests run each method once on y = x^2-like costs and look at the end point to three digits; update rule, order of rows, stopping and settings are not seen.",
  ["src/learning/optim/grad_desc.rs"], [("per-method update loops", "src/learning/optim/grad_desc.rs: optimize"), ("shuffled row order per pass", "src/learning/optim/grad_desc.rs: in_place_fisher_yates")],
  ["calls of compute_grad, returned parameters"])
p("C14", "Conjugate gradients never make the cost worse and reach a minimum",
  "ConjugateGD returns a point at which it evaluated the model, whose cost is not above the cost at the start, with more iterations never giving a worse point; it uses no more than the permitted evaluations, does nothing with zero iterations, and ends near a stationary point on smooth problems, for every start, also when line searches fail or costs and gradients are not finite.",
  ["inputs", "histories"], "every smooth function, start, and setting of the line search",
  "The tests minimise one convex quadratic in one dimension.",
  ["src/learning/optim/fmincg.rs"], [("bracketing, interpolation and extrapolation line search with restart of the last good point", "src/learning/optim/fmincg.rs: optimize")],
  ["calls of compute_grad, returned parameters"])
# ------------------------------------------------------------------ linear models
p("C16", "Linear regression returns the least squares fit",
  "Training LinRegressor gives parameters (intercept first) whose residuals are orthogonal to every column, so no other parameters have a smaller squared error; noise-free data give back the coefficients used; predictions are the linear form of the parameters and are equivariant under affine changes of targets and columns and under reordering of rows and columns. Its compute_grad is the half mean squared error and its derivative, and training by gradient descent lowers that cost towards the same optimum.",
  ["inputs"], "every full-rank design and target",
  "The tests fit one line through three points, and one data set against fixed digits.",
  [L + "lin_reg.rs"], [("normal equations with a column of ones", L + "lin_reg.rs: train"), ("gradient form", L + "lin_reg.rs: compute_grad, train_with_optimization")],
  ["parameters(), predict, compute_grad"])
p("C17", "Logistic regression minimises the cross entropy and predicts probabilities",
  "LogisticRegressor hands its optimiser the inputs with a leading column of ones, the targets, and a model whose cost and gradient are the mean cross entropy and its derivative; the parameters are what the optimiser returned, and predictions are the sigmoid of the linear form, within [0,1]. With a converging optimiser the fit reaches the maximum likelihood where it exists.",
  ["inputs"], "every data set and optimiser",
  "The tests train on one toy data set and check that predictions fall on the right side of one half.",
  [L + "logistic_reg.rs"], [("column of ones, sigmoid of the linear form, cross entropy gradient", L + "logistic_reg.rs")],
  ["optimiser inputs, parameters(), predict"])
p("C18", "Generalised linear models reach the maximum likelihood estimate",
  "Training a GenLinearModel of the Bernoulli, Normal, Poisson or a user-made (Gamma) family by reweighted least squares gives the predictions of the maximum likelihood estimate where it exists. Links, their derivatives and inverses belong together, working weights and adjusted responses follow from variance and link; data of different lengths, or designs without a unique fit, are errors and not panics.",
  ["inputs"], "every family, design and target for which the maximum likelihood is attained",
  "The tests fit one separable toy data set and look at the side of one half.",
  [L + "glm.rs"], [("iteratively reweighted least squares", L + "glm.rs: train"), ("families and links", L + "glm.rs: Criterion, LinkFunc")],
  ["predict, LinkFunc and Criterion methods"])
# ------------------------------------------------------------------ classifiers
p("C19", "Naive Bayes: the posterior of its model, exact classes, safe failures",
  "A trained NaiveBayes has class frequencies as priors and the maximum likelihood (Gaussian: sample variance; discrete: smoothed) parameters of each class; get_log_probs is prior times likelihood of that model, predictions are one-hot rows of a most probable class, a class without training data has probability zero, and renumbering classes or reordering rows changes nothing else. Bad data are errors that leave an earlier model as it was, and custom distributions get exactly the rows of their class.",
  ["inputs", "histories"], "every data set, class assignment and order, and every failed training",
  "The tests check that three toy data sets are classified as they were trained; probabilities, empty classes and failures are not looked at.",
  [L + "naive_bayes.rs"], [("priors and per-class updates", L + "naive_bayes.rs: update_params"), ("joint log likelihoods", L + "naive_bayes.rs: joint_log_lik")],
  ["predict, get_log_probs, class_prior, distr"])
p("C20", "SVM training finds a separating plane by the Pegasos rule",
  "With enough iterations a trained SVM predicts the label of every training row when the classes are separated by a margin under its kernel; its coefficients are the update counts of the Pegasos rule (every update on a row whose margin is below one, signed by the label), the plane it represents comes close to the minimum of the regularised hinge loss, predictions are -1 or 1, flipping all labels flips all predictions, and the defaults are those documented.",
  ["inputs", "histories"], "every separable data set, kernel, regularisation and random order of updates",
  "One test trains on four points of a line and checks the sign of the predictions for those points; it passed with margins computed from the wrong plane.",
  [L + "svm.rs"], [("Pegasos updates of the dual coefficients", L + "svm.rs: train"), ("sign of the kernel expansion", L + "svm.rs: predict")],
  ["predict with kernels of the harness"])
p("C21", "Gaussian process predictions are the exact posterior",
  "Predicted means equal m(x*) + K*(K+sI)^-1(y-m(x)) and get_posterior returns that mean with covariance K** - K*(K+sI)^-1K*'; variances lie between 0 and the prior variance, without noise the process interpolates its training data with zero variance, far from the data it returns to the prior, and the order of the training rows is of no importance.",
  ["inputs"], "every kernel, mean function, noise and data with a well conditioned kernel matrix",
  "There is a test of the defaults on four points of a line, checking the mean to a few digits; covariance is not tested.",
  [L + "gp.rs"], [("Cholesky factor and triangular solves", L + "gp.rs: train, get_posterior")],
  ["predict, get_posterior"])
p("C22", "Neural networks: forward propagation is the composition of their layers",
  "The output of a NeuralNet is the composition of its layers in the order they were added, row by row, with the weights get_net_weights reports, however the net was built (add, add_layers, mlp, default); training installs exactly the weights the optimiser returns and starts from the present ones. Layers that do not line up are errors naming the right kind; initial weights follow N(0, 2/(inputs+outputs)).",
  ["inputs", "histories"], "every architecture, weight vector and batch",
  "Two tests learn AND and OR with one small net.",
  [L + "nnet/mod.rs", L + "nnet/net_layer.rs"], [("weights of all layers in one vector, sliced by layer", L + "nnet/mod.rs: get_layer_weights, forward_prop"), ("layer shapes", L + "nnet/net_layer.rs")],
  ["predict, get_net_weights, optimiser inputs"])
p("C23", "Backpropagation returns the exact gradient of the reported cost",
  "compute_grad of any network under either criterion and any regularisation returns the cost of its outputs and the derivative of that cost by every weight; each layer's back_input and back_params are the derivatives of its forward. Training by gradient descent makes exactly the steps that follow from these gradients.",
  ["inputs"], "every architecture, criterion, regularisation, weight vector and batch",
  "No test compares a gradient with anything.",
  [L + "nnet/mod.rs", L + "nnet/net_layer.rs"], [("backward pass over stored activations", L + "nnet/mod.rs: compute_grad"), ("layer derivatives", L + "nnet/net_layer.rs: back_input, back_params")],
  ["compute_grad through an optimiser of the harness"])
# ------------------------------------------------------------------ neighbours
p("C24", "k-nearest search: the exact nearest rows from every search structure",
  "KDTree, BallTree and BruteForce return, for every query and k, min(k, rows) different rows that are nearest to the query, with their true distances in ascending order - the same distances from all three, whatever the leaf size, repeated rows, ties or degenerate data. Building ends on every data set, building again forgets the old one, a search before building or for points of the wrong length is an error.",
  ["inputs", "histories"], "every data set, leaf size, query and k",
  "The tests compare a few queries of two data sets with fixed answers; pruning mistakes need particular geometries.",
  [L + "knn/binary_tree.rs", L + "knn/brute_force.rs", L + "knn/mod.rs"], [("bounds of boxes and balls prune the search", L + "knn/binary_tree.rs: search"), ("bounded list of the nearest so far", L + "knn/mod.rs: KNearest")],
  ["KNearestSearch::search"])
p("C25", "KNN classification: a majority label among the k nearest rows",
  "KNNClassifier predicts for each row a most frequent label among its k nearest training rows, with every search structure; rows of other widths, more neighbours than rows, and label lists of another length are errors, after which the classifier does not answer from half-built state.",
  ["inputs"], "every data set, labels, k and search structure",
  "One test on two queries, one on a data set with fixed answers.",
  [L + "knn/mod.rs"], [("vote over search results", L + "knn/mod.rs: predict")],
  ["predict"])
# ------------------------------------------------------------------ clustering
p("C26", "k-means: Lloyd iterations, falling cost, valid initial centroids",
  "Each iteration assigns every row to its nearest centroid and moves each centroid to the mean of its rows (an empty cluster keeps its own), so the cost never rises and training ends at a fixed point or the iteration bound; predictions are the nearest centroid. Forgy takes k different rows uniformly, RandomPartition the means of a partition without empty parts, k-means++ rows in proportion to squared distance; k larger than the rows and unusable initial centroids are errors.",
  ["inputs", "histories"], "every data set, k, initialisation, iteration bound and random stream",
  "The tests run each initialisation once on five points and check that training succeeds.",
  [L + "k_means.rs"], [("assignment and update", L + "k_means.rs: train, update_centroids, find_closest_centroids"), ("initialisers", L + "k_means.rs: impl Initializer")],
  ["centroids(), predict, Initializer::init_centroids"])
p("C27", "Gaussian mixtures: exact EM steps and memberships that are probabilities",
  "Every training iteration of a GaussianMixtureModel is one expectation-maximisation step from the state before it under its covariance option, starting from different rows as means and the covariance of the data; without regularisation the likelihood never falls. Weights are a distribution, predictions are the posterior memberships by Bayes' rule, also far from all components. Too little data, singular covariances and bad weights are errors, not panics.",
  ["inputs", "histories"], "every data set, number of components, covariance option, weights and iteration count",
  "The tests check constructors and that training with two covariance options does not fail.",
  [L + "gmm.rs"], [("membership weights (E step)", L + "gmm.rs: membership_weights"), ("parameter update (M step)", L + "gmm.rs: update_params, initialize_covariances")],
  ["means, covariances, mixture_weights, predict"])
p("C28", "DBSCAN: the clusters of its definition, and predictions from the last training",
  "Rows with at least min_points rows closer than eps (themselves included) are core; core rows are in the same cluster exactly when chains of core rows within eps connect them, border rows are in a cluster that reaches them, all others in none; clusters are numbered 0..; reordering rows only renumbers. Predictions are the cluster of the nearest training row of the last training if within eps; not predictive or not trained are errors. Training ends with an answer however large a cluster is.",
  ["inputs", "histories"], "every data set, eps, min_points, and every sequence of training, prediction and switching",
  "Two tests on small data sets with fixed answers.",
  [L + "dbscan.rs"], [("region query and expansion", L + "dbscan.rs: region_query, expand_cluster")],
  ["clusters(), predict"])
# ------------------------------------------------------------------ transforms
p("C29", "PCA: orthonormal principal directions in order, and their projection",
  "components() are orthonormal eigenvectors of the (centred, when asked) scatter matrix in descending order of eigenvalue, as many as asked for; predictions are the projections of the rows minus the training mean, so projected training data are uncorrelated with descending variances, and all components together keep distances and total variance. Training again forgets the earlier data; too many components, other widths and missing training are errors.",
  ["inputs", "histories"], "every tall, square or wide data set, number of components and centring",
  "The tests compare two data sets with fixed digits.",
  [L + "pca.rs"], [("singular value decomposition, transposed for wide data", L + "pca.rs: train"), ("centring", L + "pca.rs: predict")],
  ["components(), predict"])
p("C30", "Min-max scaling maps the training range onto the target range and back",
  "A fitted MinMaxScaler maps every column's training minimum and maximum onto the ends of the target range, everything between affinely, also for rows it has not seen; inv_transform undoes transform. Constant columns, entries that are not finite and rows of another width are errors.",
  ["inputs"], "every data set, target range and new row, in both precisions",
  "The tests use two fixed 2x2 matrices.",
  [D + "minmax.rs"], [("scale and offset per column", D + "minmax.rs: fit, transform, inv_transform")],
  ["transform, inv_transform"])
p("C31", "Standardising gives each column the target mean and deviation, and back",
  "A fitted Standardizer maps every column affinely so that the training data get the target mean and (sample) standard deviation, also for rows it has not seen; inv_transform undoes transform. Constant columns, single rows, entries that are not finite and rows of another width are errors.",
  ["inputs"], "every data set, target mean and deviation and new row, in both precisions",
  "The tests use two fixed 2x2 matrices.",
  [D + "standardize.rs"], [("mean and variance per column", D + "standardize.rs: fit, transform, inv_transform")],
  ["transform, inv_transform"])
p("C32", "Normalising gives every row unit norm and keeps its direction",
  "Normalizer divides each row by its norm, for every norm given, leaves zero rows alone, is idempotent and treats each row by itself; entries that are not finite are errors.",
  ["inputs"], "every data set and norm, in both precisions",
  "The tests use three fixed small matrices with the default norm.",
  [D + "normalize.rs"], [("row norms", D + "normalize.rs: transform")],
  ["transform"])
p("C33", "Shuffling permutes the rows uniformly and tears none apart",
  "Shuffler returns the same rows, each intact, in an order that is uniformly random; it works for no rows and for every element type, and a given generator decides the order.",
  ["inputs", "histories"], "every matrix, generator and number of shuffles",
  "The tests pin the order of two seeds.",
  [D + "shuffle.rs"], [("Fisher-Yates over row swaps", D + "shuffle.rs: transform")],
  ["transform"])
# ------------------------------------------------------------------ analysis and data
p("C34", "Confusion matrices count every pair of truth and prediction",
  "Entry (i,j) of the confusion matrix is the number of samples of true label i predicted as label j, for the labels given in their order, or all labels found in ascending order; so without given labels the entries sum to the number of samples. Repeated labels and lists of different lengths panic.",
  ["inputs"], "every pair of label lists, label type and label selection",
  "The tests use six samples.",
  [A + "confusion_matrix.rs"], [("label index and counts", A + "confusion_matrix.rs: confusion_matrix")],
  ["return value"])
p("C35", "Scores: accuracy, precision, recall, F1 and squared error are what they say",
  "accuracy and row_accuracy are the fraction of equal labels and rows; precision, recall and f1 are tp/(tp+fp), tp/(tp+fn) and 2tp/(2tp+fp+fn) wherever defined and refuse anything but two classes; neg_mean_squared_error is the negated sum of squared differences over the number of rows. Lists of different lengths are refused.",
  ["inputs"], "every pair of lists or matrices and label type",
  "The tests use a few lists of six.",
  [A + "score.rs"], [("counts", A + "score.rs")],
  ["return values"])
p("C36", "Cross validation: every row is tested once by a model that did not see it",
  "k_fold_validate divides the rows at random (uniformly) into k folds whose sizes differ by at most one, for each fold trains on exactly the other rows with their own targets, predicts exactly the fold, and returns the score of these outputs against the fold's targets in order; each row is tested once. The first error of the model is returned at once, and k below 2 or above the number of rows is refused before anything is trained.",
  ["inputs", "histories"], "every data set, k, model behaviour (failures included) and random stream",
  "The tests look at fold indices of an internal type for four sizes; the validation itself is never run.",
  [A + "cross_validation.rs"], [("shuffled indices cut into folds", A + "cross_validation.rs: Folds, k_fold_validate")],
  ["calls of a recording model, returned scores"])
p("C37", "The shipped data sets are the published ones",
  "iris::load and trees::load return the published data: 150 rows of four measurements with species 0, 1, 2, and 31 rows of girth and height with volume, every entry as published and every target beside its row, at every call.",
  ["inputs"], "every row of both data sets",
  "The tests compare the shapes only.",
  ["src/datasets/iris.rs", "src/datasets/trees.rs", "src/datasets/mod.rs"], [("literal matrices", "src/datasets")],
  ["data(), target()"])
# ------------------------------------------------------------------ contracts of all models
p("C38", "No model answers untrained or for data of the wrong shape",
  "Prediction before training is an error for every model that has to be trained; trained, a model refuses (by an error or a panic) rows with another number of columns than it was trained on, and answers as before afterwards; training on inputs and targets of different numbers is refused. Wrongly shaped data never give an answer silently.",
  ["inputs", "histories"], "every model, data set and mismatched shape",
  "A few models have a test for predicting untrained; shapes are not tested.",
  ["src/learning"], [("untrained checks", "src/learning: predict"), ("shape checks here and in the linear algebra", "src/learning: train, predict")],
  ["results of train and predict"])
p("C39", "Training again forgets the earlier training",
  "A model trained on other data before - of other size, width and outcome - behaves after training exactly as a new model trained on the same data with the same random stream (nets and mixtures, which continue from their weights by design, excepted).",
  ["histories"], "every sequence of trainings of every model",
  "No test trains a model twice.",
  ["src/learning"], [("train replaces all state", "src/learning: train")],
  ["predictions after retraining"])
p("C40", "Predictions treat every row by itself",
  "Predicting a batch gives for each row what predicting it alone gives, in any order and with repetitions, one answer per row; predicting again gives the same answers.",
  ["inputs"], "every model, batch, selection and order of rows",
  "No test predicts the same row in two batches.",
  ["src/learning"], [("row loops and matrix products of predict", "src/learning: predict")],
  ["predict"])
p("C41", "The order of the training rows does not matter to deterministic models",
  "Linear, logistic and generalised linear regression, naive Bayes, Gaussian processes, nets under batch descent, nearest neighbours, k-means from given centroids, DBSCAN (up to numbering) and PCA (up to sign) predict the same after training on the same rows in any order.",
  ["inputs"], "every data set and order of its rows",
  "No test reorders training data.",
  ["src/learning"], [("sums over rows", "src/learning: train")],
  ["predictions after training on reordered rows"])
p("C44", "Neither the units nor the origin of the data matter",
  "Measured in other units (all inputs times a power of two; length scales and epsilon with them), the data get the same answers: nearest neighbour classes, k-means centres (times the factor) and labels, DBSCAN clusters, Gaussian process means, naive Bayes classes, mixture memberships, principal components, linear predictions. Targets in other units give predictions in these units (linear regression, the normal GLM, Gaussian processes). Moving all inputs by one vector changes none of them either, except that centres move along.",
  ["inputs"], "every data set, every unit from 2^-80 to 2^80, every displacement",
  "Unit tests use data of ordinary size near the origin; absolute thresholds and cancellation do not show there.",
  ["src/learning"], [("distances, stopping rules, variances, determinants", "src/learning: train and predict of knn, k_means, dbscan, gp, naive_bayes, gmm, pca, lin_reg, glm")],
  ["predictions, centroids"])
p("C45", "The order of the columns does not matter, nor do constant ones",
  "With the columns of all inputs in another order, linear, logistic and generalised linear regression, naive Bayes, support vector machines, Gaussian processes, nearest neighbours, k-means (centres in the new order), DBSCAN, mixtures and PCA give the same answers (up to rounding, ties and signs). A column that is the same in all rows changes nothing for nearest neighbours, k-means, DBSCAN, Gaussian processes and centred PCA.",
  ["inputs"], "every data set, order of its columns and constant column",
  "No test permutes features.",
  ["src/learning"], [("sums over columns, splits by dimension", "src/learning: train and predict")],
  ["predictions, centroids"])
p("C42", "Conjugate gradients take the steps of the published fmincg algorithm",
  "On every smooth function, start and setting, the conjugate gradient optimiser evaluates the cost at the points, in the order, at which Rasmussen's fmincg does - Polack-Ribiere directions, quadratic and cubic interpolation within the bracket (no closer than `int` to its limits), extrapolation by at most `ext`, Wolfe-Powell conditions with `rho` and `sig`, at most `max` evaluations per line search, initial steps by at most `ratio` - and returns the point it does, up to rounding; the default settings are the documented ones.",
  ["inputs", "histories"], "every smooth function, start and setting",
  "The unit tests look at where the minimisation of one bowl ends, which many broken line searches reach too.",
  [L + "optim/fmincg.rs"], [("line search and direction update transcribed from fmincg.m", L + "optim/fmincg.rs: optimize")],
  ["arguments of compute_grad, the parameters returned"])
p("C43", "No call of the safe interface makes undefined behaviour",
  "Whatever safe code does with the crate - any sequence of calls on any data, with widths, heights and lengths that do not fit, numbers that are none, models that are not trained, and its own implementations of the crate's public traits (initialisers, search structures, layers, optimisers, kernels, means, families, distributions, models) even where these break their word - no memory is read or written out of bounds, after it was freed or before it was initialised, and no invalid value is made; a call that cannot go on returns an error or panics.",
  ["inputs", "histories"], "every sequence of safe calls, every element type, every safe implementation of the public traits",
  "The crate has unsafe blocks that rely on what other parts, or the user's own layers and optimisers, say about sizes; undefined behaviour mostly leaves the results of a test as they were.",
  [L + "toolkit/rand_utils.rs", L + "knn/", L + "nnet/mod.rs", L + "pca.rs", L + "k_means.rs", L + "dbscan.rs"],
  [("the unsafe block of the copying shuffle", L + "toolkit/rand_utils.rs: fisher_yates"), ("unchecked accesses of the search structures", L + "knn/mod.rs: KNearest, binary_tree.rs: maybe_close, select_split"), ("views of the weights made from raw parts", L + "nnet/mod.rs: params_slice, compute_grad"), ("centering", L + "pca.rs: centering"), ("centroids viewed while they are collected", L + "k_means.rs: KPlusPlus, RandomPartition"), ("visited marks", L + "dbscan.rs: init_params")],
  ["what the interpreter says about each memory access of a call"])
