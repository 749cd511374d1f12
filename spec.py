"""The list of properties; gen.py makes properties.jsonl and MANIFEST.json from it."""
SPEC = []


def P(id, title, statement, over, text, why, files, mech, note, rule):
    SPEC.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                     why=" ".join(why.split()), files=files, mech=mech, note=" ".join(note.split()), rule=" ".join(rule.split())))


M = lambda *kv: [{"name": n, "where": w} for n, w in zip(kv[::2], kv[1::2])]

# ------------------------------------------------------------------ containers
P("C01", "The numeric vector behaves like a growable array of reals",
  """Under every sequence of element writes, appends, insertions, removals (by index, by value, unordered), swaps, resizes,
  clears, fills, sorts, inversions and conversions, a numeric vector holds exactly the elements a reference array holds, in the
  same order, and every query (size, lookup, counting, searching, sub-range, comparison, text) answers accordingly. Converting
  to or from standard vectors, pooled arrays, raw pointers and other vectors copies every element and shares no storage, and
  resizing keeps the elements that remain.""",
  ["histories", "inputs"], "every history of up to 40 operations on one vector, with elements that include repeats and negative values",
  "The tests build three vectors of fixed content; they never remove, insert, sort or resize in combination.",
  ["core/mlpp_vector.cpp", "core/mlpp_vector.h"],
  M("element storage and resize", "core/mlpp_vector.cpp: resize, push_back, insert, remove", "conversions", "core/mlpp_vector.cpp: to_*, set_from_*"),
  "Model-based histories against std::vector under AddressSanitizer; holds for the histories explored.",
  "a history counts when it performed at least one mutation on a vector that held elements")

P("C02", "The numeric matrix keeps its rows through every structural change",
  """Under every sequence of row additions (from any accepted source), row removals (ordered and unordered), row swaps, resizes,
  element and row writes, fills and conversions, a numeric matrix equals a reference list of rows of one width, and every
  element, row and size query answers accordingly. Conversions from and to vectors, pooled arrays, raw pointers, nested standard vectors and images
  copy every element (images to within one 8-bit level).""",
  ["histories", "inputs"], "every history of up to 40 operations on one matrix up to about 8 by 8, plus image round trips",
  "The tests check one or two conversions and row additions on fixed 2x3 data.",
  ["core/mlpp_matrix.cpp", "core/mlpp_matrix.h"],
  M("row bookkeeping", "core/mlpp_matrix.cpp: row_add, row_remove, row_swap, resize", "conversions", "core/mlpp_matrix.cpp: to_*, set_from_*"),
  "Model-based histories against a list of rows under AddressSanitizer.",
  "a history counts when it changed the row structure of a matrix that held rows")

P("C03", "The numeric tensor addresses slices and rows consistently",
  """Under every sequence of slice additions, removals, swaps, resizes, reshapes, row and slice writes and conversions, a numeric tensor
  equals a reference three-dimensional array, and the element, row and x, y and z slice accessors all read and write that same
  array. Images written to or read from slices agree with the elements to within one 8-bit level.""",
  ["histories", "inputs"], "every history of up to 40 operations on one tensor up to about 5x5x5, plus image round trips with up to four channels",
  "No existing test touches the tensor's slices.",
  ["core/mlpp_tensor3.cpp", "core/mlpp_tensor3.h"],
  M("slice bookkeeping", "core/mlpp_tensor3.cpp: z_slice_*, x_slice_*, y_slice_*", "index computation", "core/mlpp_tensor3.h: calculate_index"),
  "Model-based histories against a flat reference array under AddressSanitizer.",
  "a history counts when it changed a tensor that held at least one slice")

P("C04", "Elementwise arithmetic is right in every calling form",
  """Addition, subtraction, Hadamard product, elementwise division, maximum, minimum, absolute value, exp, log, log10, erf, sin, cos,
  sqrt, cbrt (of non-negative values), powers, scalar addition and scalar multiplication apply the scalar function to every element
  of vectors, matrices and tensors. The in-place form, the form that returns a new object, the form that writes its
  receiver (also when that receiver is one of the operands) and the helper-library form all give the same result, and no form changes an operand it should only read.""",
  ["inputs"], "every shape up to about 6 per axis, empty ones included, and values of both signs including zero",
  "Tests cover Hadamard product and a few calls on one 3x5 matrix; every operation exists in three or four hand-copied forms per container.",
  ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp"],
  M("elementwise loops", "core/mlpp_vector.cpp, core/mlpp_matrix.cpp, core/mlpp_tensor3.cpp", "helper library", "core/lin_alg.cpp"),
  "Differential check of every form against double-precision scalar functions.",
  "a case counts when the operands held at least one element")

P("C05", "Invalid arguments are refused without side effects",
  """Calling a vector, matrix or tensor operation with a null operand, an index out of range, or an operand whose shape does not fit
  reports an error, leaves the receiver exactly as it was, and yields an empty, zero or null result instead of touching memory
  outside the containers.""",
  ["inputs"], "every listed operation of the three containers with null, mis-shaped and out-of-range arguments",
  "The tests only make valid calls.",
  ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp"],
  M("argument checks", "ERR_FAIL_COND / ERR_FAIL_INDEX at the head of each operation"),
  "Generated misuse under AddressSanitizer with the receiver compared before and after.",
  "every case passes one invalid argument and counts")

# ------------------------------------------------------------------ linear algebra
P("C06", "Matrix products, transposes and constructed matrices follow their definitions",
  """Matrix-matrix, matrix-vector, outer, Kronecker and vector cross products, powers, transposition, row-wise vector addition and subtraction, Gram matrices, cofactor matrices,
  flattening, diagonal placement, traces, and zero, one, constant, identity and rotation matrices equal their textbook definitions for every
  fitting shape, in every calling form. The operands stay unchanged, and the result is right even when the receiver is one of the operands.""",
  ["inputs"], "every compatible combination of shapes up to about 6 with small integer and general real entries, and rotations by any angle",
  "Tests multiply a handful of fixed 2x2 and 3x5 matrices and rotate by a single angle.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp", "core/mlpp_vector.cpp"],
  M("products", "core/mlpp_matrix.cpp: mult*, kronecker_product*, outer_product*", "helper library", "core/lin_alg.cpp"),
  "Differential check against double-precision reference loops.",
  "a case counts when the operands held at least one element")

P("C07", "Determinant, adjugate, inverse, pseudo-inverse and solve agree",
  """For every square matrix the determinant equals the sum over permutations, and the adjugate times the matrix is the determinant
  times the identity. For every well-conditioned matrix the inverse times the matrix is the identity, negative powers are powers of the inverse, the pseudo-inverse of a
  matrix of full column rank satisfies the Moore-Penrose equations, and solving a system reproduces its right-hand side.""",
  ["inputs"], "square matrices of size 1 to 5, and full-column-rank matrices up to 5x4, well conditioned where a division is involved",
  "Tests print these results for one matrix each without asserting anything.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"],
  M("cofactor expansion", "core/mlpp_matrix.cpp: detb, cofactor, adjoint, inverse, pinverse, solve"),
  "Algebraic identities and a permutation-sum reference in double precision.",
  "a case counts when the matrix is at least 2x2 and, for inverses, its condition was bounded")

P("C08", "Matrix factorisations reproduce their matrix",
  """For every symmetric matrix the eigenvalues come in descending order on a diagonal matrix and the eigenvector columns are
  orthonormal and satisfy A v = lambda v; singular value, QR and Cholesky factors have their defining shape (orthogonal, triangular, non-negative descending diagonal) and multiply back to the matrix.
  Gram-Schmidt yields orthonormal columns with the span of the input, projections are orthogonal, and the definiteness, singular-eigenvalue and linear-independence
  tests agree with the eigenvalues and rank.""",
  ["inputs"], "symmetric matrices up to 5x5, general matrices up to 5x5 (SVD, QR of full column rank), positive definite ones for Cholesky",
  "Tests print the factorisations of one fixed matrix.",
  ["core/mlpp_matrix.cpp", "core/lin_alg.cpp"],
  M("Jacobi iteration", "core/mlpp_matrix.cpp: eigenb", "factorisations", "core/lin_alg.cpp: gram_schmidt_process, qrd, cholesky, svd"),
  "Algebraic identities with tolerances scaled to float precision.",
  "a case counts when the matrix is at least 2x2 and not diagonal")

P("C09", "Reductions, norms and distances equal their definitions",
  """Sums, maxima and minima (values and positions), dot products, Euclidean and squared norms and Euclidean distances of vectors, and the covariance
  matrix of a matrix's rows, equal their definitions. The approximate-equality tests of vectors, matrices and tensors hold for identical contents and are symmetric, false when the shape
  differs, and true exactly when every element differs by less than the tolerance.""",
  ["inputs"], "every non-empty shape up to about 8 per axis with entries of both signs",
  "The tests evaluate a dot product of two fixed vectors.",
  ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp", "core/lin_alg.cpp"],
  M("reductions", "core/mlpp_vector.cpp, core/mlpp_matrix.cpp, core/mlpp_tensor3.cpp, core/lin_alg.cpp"),
  "Differential check against double-precision loops.",
  "a case counts when at least two elements were reduced")

# ------------------------------------------------------------------ functions
P("C10", "Activation functions compute the named function in every form",
  """Each activation function (linear, sigmoid, swish, mish, sin-c, softplus, softsign, complementary log-log, logit, unit step, Gaussian CDF,
  GELU, sign, sinh to arcoth, ReLU, leaky ReLU, ELU, SELU, softmax and its stabilised form) returns the named mathematical function of each input, and its scalar, vector and
  matrix forms, and the forms selected by identifier, agree with each other. Softmax outputs are non-negative and sum to one, row by row for matrices.""",
  ["inputs"], "every activation, every form, all arguments inside the function's domain up to magnitude 20",
  "Tests call the activations on one value and print the results.",
  ["core/activation.cpp", "core/activation.h"],
  M("per-function forms", "core/activation.cpp: *_normr, *_normv, *_normm", "dispatch", "core/activation.cpp: run_activation_*, get_activation_function_ptr_*"),
  "Differential check against double-precision formulas.",
  "a case counts when the argument is in the domain and not 0")

P("C11", "Activation derivatives are the derivatives of the activations",
  """For every elementwise activation function and every point where it is differentiable, the derivative form returns the slope of the value
  form at that point, and the scalar, vector, matrix and identifier-selected derivative forms agree. For softmax the derivative of a vector is the Jacobian of softmax at its output.""",
  ["inputs"], "every activation with a derivative, every form, arguments inside the domain and away from kinks",
  "Tests print derivatives at one value.",
  ["core/activation.cpp", "core/activation.h"],
  M("derivative forms", "core/activation.cpp: *_derivr, *_derivv, *_derivm"),
  "Central finite differences and closed forms in double precision.",
  "a case counts when the slope was not trivially constant")

P("C12", "Cost functions compute the named loss",
  """Each cost (MSE, RMSE, MAE, MBE, log loss, cross entropy, Huber, hinge, Wasserstein, SVM costs) of predictions against labels equals its
  definition, whether given as vectors or matrices and whether selected by identifier. Each is zero for a perfect prediction where the definition says
  so.""",
  ["inputs"], "all equally shaped prediction/label pairs up to about 6x6, probabilities strictly between 0 and 1 where logs are taken",
  "Tests never evaluate a cost on its own.",
  ["core/cost.cpp", "core/cost.h"],
  M("cost forms", "core/cost.cpp: msev, msem, ...", "dispatch", "core/cost.cpp: run_cost_norm_*, get_cost_function_ptr_*"),
  "Differential check against double-precision definitions.",
  "a case counts when prediction and label differ")

P("C13", "Cost derivatives point along the gradient of their cost",
  """For every cost and every point where it is differentiable, the derivative form returns, element by element, the gradient of that cost
  with respect to the prediction, up to the positive factor that is documented by the training code (the number of samples for averaged costs). Vector, matrix and
  identifier-selected forms agree.""",
  ["inputs"], "all costs and forms with predictions away from kinks",
  "Tests never evaluate a cost derivative on its own; a wrong gradient still lets the smoke tests run.",
  ["core/cost.cpp", "core/cost.h"],
  M("derivative forms", "core/cost.cpp: *_derivv, *_derivm"),
  "Finite differences of the reference cost in double precision.",
  "a case counts when the gradient is not zero")

P("C14", "Regularisation terms, their derivatives and weight updates are consistent",
  """The ridge, lasso and elastic-net penalties of a weight vector or matrix equal their definitions, the derivative terms are their (sub)gradients, and
  a regularised update subtracts exactly that derivative from the weights. With weight clipping selected the weights are limited to the given range instead, and with no regularisation nothing changes.""",
  ["inputs"], "all regularisation kinds, weights of both signs including zero, all shapes up to 6x6",
  "The tests only smoke-run one model with regularisation.",
  ["core/reg.cpp", "core/reg.h"],
  M("terms", "core/reg.cpp: reg_termv/m, reg_deriv_termv/m, reg_weightsv/m"),
  "Differential check against definitions.",
  "a case counts when some weight is not zero")

P("C15", "Statistics equal their definitions on every sample",
  """Mean, median, mode, range, midrange, absolute average deviation, variance, standard deviation, covariance, correlation, r squared, weighted, geometric, harmonic, power,
  root mean square, Lehmer, contraharmonic, Heronian, Heinz, Neuman-Sandor, Stolarsky, identric and logarithmic means, the least-squares line and the Chebyshev bound equal their textbook definitions for every
  sample, whatever its length, order and repeats.""",
  ["inputs"], "samples of 1 to 12 values with repeats, both signs (positive where the mean needs it)",
  "The tests evaluate each statistic on the single sample 1..10, where, for instance, mean and median coincide.",
  ["core/stat.cpp", "core/stat.h"],
  M("estimators", "core/stat.cpp"),
  "Differential check against double-precision definitions.",
  "a case counts when the sample has at least two different values")

P("C16", "Numerical analysis reproduces derivatives, minima and solutions",
  """Numerical first, second and third derivatives, gradients, Hessians and third-order tensors approximate the true ones of smooth functions; Taylor approximations match to their order; Newton, Halley and inverse
  quadratic iterations return roots; Euler's method follows its recurrence and step growth follows its formula. Critical points are classified
  by the eigenvalues of their Hessian, and Laplacians are the sums of pure second derivatives.""",
  ["inputs"], "polynomials with bounded coefficients in one to three variables",
  "The tests print the results for one function.",
  ["core/numerical_analysis.cpp", "core/numerical_analysis.h"],
  M("difference quotients", "core/numerical_analysis.cpp"),
  "Polynomials with known derivatives and roots as oracle, tolerances for float differences.",
  "a case counts when the polynomial is not constant")

P("C17", "Convolution and pooling compute the sliding-window definition",
  """Convolving a matrix or tensor with a filter for any stride and padding, pooling (average, max, min) with any window and stride, global
  pooling, Gaussian filters and image gradients (magnitude and orientation) equal their sliding-window definitions, including the output size. The named filters have
  their published coefficients.""",
  ["inputs"], "images up to 8x8 (3 channels), filters up to 3x3, strides 1-3, paddings 0-2",
  "The tests print one convolution with stride 1.",
  ["core/convolutions.cpp", "core/convolutions.h"],
  M("sliding window", "core/convolutions.cpp"),
  "Differential check against direct summation.",
  "a case counts when the output holds more than one element")

P("C18", "The discrete cosine transform equals its definition",
  """The two-dimensional cosine transform of a matrix equals the orthonormal DCT-II of its entries (after the documented shift by 128), so it is linear in the shifted entries
  and preserves their energy.""",
  ["inputs"], "matrices up to 8x8, square and not",
  "The tests print one transform.",
  ["core/transforms.cpp", "core/transforms.h"],
  M("basis sums", "core/transforms.cpp: discrete_cosine_transform"),
  "Differential check against the double-precision definition and Parseval's identity.",
  "a case counts when the matrix is at least 2x2")

P("C19", "Data sets load, split and scale without losing or mixing rows",
  """Loading a file of comma-separated numbers yields exactly its rows, in order, inputs apart from outputs, whether or not the file ends with a
  newline; class labels become one-hot rows. Splitting a data set into training and test data puts every row into exactly one part, keeps each input
  with its output, and gives the test part the requested share. Feature scaling maps every column linearly to 0..1, mean centring and normalisation
  give every row mean 0 (and deviation 1). None of them changes its input, and data objects return what was set.""",
  ["inputs"], "files of 1-8 rows with up to 785 columns, data sets of 1-16 rows, matrices up to 6x6, plain and quoted number formats",
  "The tests load data files that are not part of the repository and print the results.",
  ["core/data.cpp", "core/data.h"],
  M("loaders", "core/data.cpp: set_data_*, load_*", "split", "core/data.cpp: train_test_split", "scaling", "core/data.cpp: feature_scaling, mean_centering, mean_normalization"),
  "Round trips through generated files, recognisable rows for the split, definitions in double precision for the scaling.",
  "a case counts when it has at least two rows and two columns (two classes, a split into two non-empty parts)")

P("C20", "Text features describe the words of the text",
  """Segmenting a text yields its words and punctuation marks in order and loses no character but spaces; sentences end at full stops;
  numbering gives equal segments equal numbers; stop-word removal removes exactly the stop words; stemming strips the longest listed suffix of each word. Bags of words, tf-idf
  weights, latent semantic embeddings and word embeddings are, for every corpus, those of its remaining words.""",
  ["inputs"], "texts of up to 10 words, corpora of up to 4 sentences, with repeated words, mixed case, stop words, punctuation with and without spaces",
  "The tests print the results for one text.",
  ["core/data.cpp"],
  M("segmentation", "core/data.cpp: segment, tokenize, remove_stop_words*", "features", "core/data.cpp: bag_of_words, tfidf, lsa, word_to_vec"),
  "Differential check against a reference tokenizer and definitions; embeddings against the network trained on the reference pairs.",
  "a case counts when the text has several words (or the corpus several sentences)")

P("C21", "Mini-batches partition the data in order",
  """Dividing a data set into a number of mini-batches yields that many batches which together hold every row exactly once and in order, each
  with its own outputs; all batches have the same size but the last, which also takes the remainder.""",
  ["inputs"], "data sets of 1-14 rows in 1-6 batches, through every interface",
  "The tests train with mini-batches but look at printed output only.",
  ["core/utilities.cpp"],
  M("batch bookkeeping", "core/utilities.cpp: create_mini_batchesm/mv/mm, createMiniBatches"),
  "Recognisable rows, direct comparison.",
  "a case counts when there are several batches with more rows than batches")

P("C22", "Performance measures and saved parameters report what happened",
  """The share of right predictions (of vectors, rows of a matrix and integers), accuracy, precision, recall, F1 score and confusion counts equal
  their definitions, and a parameter file holds every weight, initial value and bias of every layer saved to it, in order.""",
  ["inputs"], "up to 12 predictions, 1-4 outputs each; parameter files of up to 3 layers",
  "The tests print scores.",
  ["core/utilities.cpp"],
  M("counting", "core/utilities.cpp: performance*, TF_PN", "parameter files", "core/utilities.cpp: saveParameters"),
  "Differential check against counting; parameter files compared as text.",
  "a case counts when it has several predictions and, for precision and recall, a true positive")

P("C23", "Random initialisation follows the named distribution",
  """Initialising weights draws from the named distribution with the scale it prescribes for the numbers of inputs (rows) and outputs (columns), biases
  are uniform in 0..1, Gaussian noise is standard normal, every element is drawn, and sizes stay as they are.""",
  ["inputs"], "8 distributions, sizes of 900-4900 weights, many seeds",
  "No test looks at the drawn values.",
  ["core/utilities.cpp", "core/lin_alg.cpp"],
  M("distributions", "core/utilities.cpp: weight_initialization*, bias_initialization*", "noise", "core/lin_alg.cpp: gaussian_noise"),
  "Bounds exactly, mean and variance within six standard errors, repeats counted.",
  "every case counts")

P("C24", "Nearest-neighbour classification is a majority vote",
  """The class predicted for a point is a most frequent class among its k nearest samples (all of them when there are fewer), alone and in a set
  alike; the score is the share of samples so classified rightly.""",
  ["inputs"], "up to 12 samples of up to 4 features with repeats and ties, up to 4 classes of either sign, k from 1 to above the number of samples",
  "The test prints one prediction.",
  ["modules/knn/knn.cpp"],
  M("search and vote", "modules/knn/knn.cpp: nearest_neighbors, determine_class, model_test, model_set_test, score"),
  "Differential check against the definition; among (nearly) tied neighbours every choice is allowed.",
  "a case counts with at least 3 samples, 2 classes and k of 2 or more")

P("C25", "K-means puts centroids at cluster means and never raises its cost",
  """Initial centroids are samples (with k-means++ each next one is the sample farthest in total from those chosen); every point is assigned its
  nearest centroid, in sets of any size; every training epoch moves each centroid to the mean of its cluster, an empty cluster keeping its own, and never raises the score,
  which is the sum of squared distances; silhouette scores follow their definition.""",
  ["inputs"], "2-12 samples of up to 4 features in up to 4 places with repeats, 1-4 clusters, 1-6 epochs in up to two trainings, both initialisations, many seeds",
  "The test prints the result for one set of 3 samples.",
  ["modules/kmeans/kmeans.cpp"],
  M("initialisation", "modules/kmeans/kmeans.cpp: _centroid_initialization, _kmeanspp_initialization", "epochs", "modules/kmeans/kmeans.cpp: _evaluate, _compute_mu, train",
    "queries", "modules/kmeans/kmeans.cpp: model_set_test, model_test, score, silhouette_scores"),
  "Reference Lloyd iteration in double precision from the observed initial centroids, compared through predictions and score; cases where a sample is nearly equidistant from two centroids are discarded.",
  "a case counts with at least 2 distinct centroids and 4 samples (3 for initialisation)")

P("C26", "Naive Bayes classifiers predict the most probable class",
  """Gaussian naive Bayes (per class and feature mean and sample deviation), multinomial naive Bayes (frequencies of words in the samples of each class) and
  Bernoulli naive Bayes (share of samples of each class that contain each word) give every point the class with the highest prior times likelihood, alone and in a
  set alike, and score the share of training samples so classified rightly.""",
  ["inputs"], "up to 14 samples of up to 5 features, up to 3 classes, vocabularies of up to 5 words, unknown words in queries",
  "The test prints predictions for one data set.",
  ["modules/gaussian_nb/gaussian_nb.cpp", "modules/multinomial_nb/multinomial_nb.cpp", "modules/bernoulli_nb/bernoulli_nb.cpp"],
  M("fitting", "modules/*_nb/*_nb.cpp: evaluate, compute_theta, compute_vocab", "prediction", "modules/*_nb/*_nb.cpp: model_test, model_set_test, score"),
  "Differential check against the posterior in double precision; predictions are compared where the best class leads by more than 0.1%.",
  "a case counts with at least 2 classes and features, or 2 words")

P("C27", "Principal components are uncorrelated and keep the most variance",
  """With samples in columns, the k principal components are an orthogonal projection of the centred data: they are uncorrelated, their scatters are the k largest
  eigenvalues of the data's scatter matrix in descending order, the score is the share of variance they keep, and with all components inner products of samples are
  unchanged; the same holds when the model is used again with other samples.""",
  ["inputs"], "1-4 features, 3-10 samples, every k; eigenvalues down to 3% of the largest (what the decomposition resolves)",
  "The test prints the components of one data set.",
  ["modules/pca/pca.cpp"],
  M("projection", "modules/pca/pca.cpp: principal_components", "variance kept", "modules/pca/pca.cpp: score"),
  "Invariants compared with an independent eigenvalue solver in double precision.",
  "a case counts with at least 2 features")

P("C28", "The outlier finder reports exactly the values beyond the threshold",
  """Of every row, exactly the values more than the threshold of sample standard deviations from the row's mean are reported, in order, as values and as
  positions (column, row), for matrices and single vectors alike.""",
  ["inputs"], "1-5 rows of 2-12 values, thresholds 0-3",
  "The test prints the outliers of one row.",
  ["modules/outlier_finder/outlier_finder.cpp"],
  M("selection", "modules/outlier_finder/outlier_finder.cpp: model_set_test, model_set_test_bind, model_set_test_indices, model_test"),
  "Differential check in double precision; values within 0.001 deviations of the threshold are discarded.",
  "a case counts when a row has outliers and other values")

P("C29", "Univariate regression is the least-squares line",
  """Training yields the slope and intercept of the least-squares line; predictions, one or many, are intercept plus slope times the input, also
  for parameters set by hand. Training and predicting leave the given data as they were, and training again on other data forgets the earlier.""",
  ["inputs"], "2-12 points with and without noise",
  "The test prints the estimates for one data set.",
  ["modules/uni_lin_reg/uni_lin_reg.cpp"],
  M("estimation", "modules/uni_lin_reg/uni_lin_reg.cpp: train", "prediction", "modules/uni_lin_reg/uni_lin_reg.cpp: model_test, model_set_test"),
  "Differential check in double precision.",
  "a case counts with at least 3 points and noise")

_TR = "1-9 samples of 1-4 features, values up to 2 in magnitude with repeats and zeros, random parameters, every regularisation type, learning rates 0.01-0.5, 1-4 epochs"

P("C30", "Predictions are the model's link function of its current parameters",
  """For linear, logistic, probit, cloglog, tanh regression and the support vector classifier, however trained: the prediction for a point is the link function of
  weights times inputs plus bias, the same alone as in a set of any size and on repetition; predicting changes neither the model nor the queries; training leaves its
  data unchanged; the score is that of the predictions of the current parameters.""",
  ["inputs"], _TR + ", 1-5 queries, all training methods", "The tests print predictions and scores of one data set per model.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/svc/svc.cpp"],
  M("evaluation", "modules/*/: evaluatem, evaluatev, propagatem, propagatev, model_test, model_set_test", "score", "modules/*/: forward_pass, score"),
  "Metamorphic and differential: predictions against the link function of the parameters read back from the model.",
  "a case counts with at least 2 samples and 2 queries")

P("C31", "Full-batch training follows the gradient of the model's loss",
  """Each epoch of gradient descent (or of maximum likelihood estimation, which gives the same) moves weights and bias of linear, logistic, probit, cloglog and tanh
  regression by the learning rate against the mean gradient of the loss over all samples and then regularises the weights only; the number of epochs run is the one
  asked for; progress reporting changes nothing.""",
  ["inputs"], _TR, "The tests print scores after training on one data set.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/tanh_reg/tanh_reg.cpp"],
  M("training", "modules/*_reg/*_reg.cpp: gradient_descent, train_gradient_descent, mle, train_mle"),
  "Differential check of the parameters after training against a double precision reference; diverging runs and weights whose sign is undecided are discarded.",
  "a case counts with at least 2 samples and parameters that move")

P("C32", "Mini-batch training takes one mean-gradient step per batch",
  """Mini-batch gradient descent of linear, logistic, probit, cloglog and tanh regression goes through the batches of the requested size in order (the last one takes the rest),
  each time moving the parameters by the learning rate against the mean gradient of that batch at the current parameters and then regularising the weights.""",
  ["inputs"], _TR + ", every batch size from 1 to the number of samples", "The tests print scores after training on one data set.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "core/utilities.cpp"],
  M("training", "modules/*_reg/*_reg.cpp: mbgd, train_mbgd"),
  "Differential check of the parameters after training against a double precision reference.",
  "a case counts with at least 2 batches and parameters that move")

P("C33", "Linear regression's optimisers follow their update rules",
  """Momentum, Nesterov, Adagrad, Adadelta, Adam, Adamax and Nadam apply their published update rules to the gradient of each mini-batch plus the regularisation term (bias
  correction by epoch), while the bias takes plain gradient steps; predictions afterwards are those of the resulting parameters.""",
  ["inputs"], _TR + ", every batch size, decay rates 0.1-0.999", "The tests print scores after training on one data set.",
  ["modules/lin_reg/lin_reg.cpp"],
  M("optimisers", "modules/lin_reg/lin_reg.cpp: momentum, nag, adagrad, adadelta, adam, adamax, nadam"),
  "Differential check of the parameters after training against a double precision reference of each rule.",
  "a case counts with parameters that move over at least 2 steps")

P("C37", "The support vector classifier descends the regularised hinge loss",
  """Each step of gradient descent, mini-batch and stochastic training moves weights and bias by the learning rate against the mean of C times the hinge loss'
  gradient over the samples in use and shrinks the weights by the learning rate divided by their number; outputs are classes -1 and 1.""",
  ["inputs"], _TR + ", C 0.125-3", "The test prints a score after training on one data set.",
  ["modules/svc/svc.cpp"],
  M("training", "modules/svc/svc.cpp: train_gradient_descent, train_sgd, train_mbgd"),
  "Differential check of the parameters against a double precision reference; samples within 0.001 of the margin are discarded.",
  "a case counts with parameters that move over at least 2 samples or batches")

P("C40", "The normal equation gives the least-squares solution, Newton's method its steps",
  """The normal equation yields the weights and intercept that minimise the squared error (plus the ridge penalty on the weights, if chosen) wherever the inputs lie; Newton-Raphson moves
  the weights by the learning rate times the mean Newton step and the bias by the mean error.""",
  ["inputs"], "2-9 samples of 1-4 features, offset from the origin by up to 4, well-conditioned", "The tests print scores of one data set.",
  ["modules/lin_reg/lin_reg.cpp"],
  M("closed form", "modules/lin_reg/lin_reg.cpp: normal_equation", "Newton", "modules/lin_reg/lin_reg.cpp: newton_raphson"),
  "Differential check against an independent elimination solver in double precision.",
  "a case counts with at least 2 features")

P("C41", "Stochastic training steps follow the gradient of single samples",
  """The parameters after stochastic gradient descent are those of some sequence of one sample per epoch, each step using the gradient at that sample alone, and every sample can be drawn.""",
  ["inputs", "histories"], _TR + " (up to 5 samples), many seeds", "The tests print scores after training on one data set.",
  ["modules/lin_reg/lin_reg.cpp", "modules/log_reg/log_reg.cpp", "modules/probit_reg/probit_reg.cpp", "modules/c_log_log_reg/c_log_log_reg.cpp", "modules/tanh_reg/tanh_reg.cpp"],
  M("training", "modules/*_reg/*_reg.cpp: sgd, train_sgd"),
  "All sequences of samples are enumerated in a double precision reference and the result must match one of them.",
  "a case counts when parameters move")

P("C42", "Exponential regression follows the gradient of its loss",
  """The prediction is the bias plus the sum of every feature's initial value times its weight to the power of the input; gradient descent, mini-batch and stochastic
  training move weights, initial values and bias against the mean gradient of the squared error over the samples in use and then regularise the weights.""",
  ["inputs"], "1-6 samples of 1-3 features, positive weights, 1-3 epochs, every regularisation type and batch size", "The test prints a score after training on one data set.",
  ["modules/exp_reg/exp_reg.cpp"],
  M("training", "modules/exp_reg/exp_reg.cpp: gradient_descent, sgd, mbgd", "prediction", "modules/exp_reg/exp_reg.cpp: evaluatem, evaluatev"),
  "Differential check of parameters and predictions against a double precision reference (for stochastic training, of all sequences of samples).",
  "a case counts with at least 2 samples and weights that move")

P("C43", "Softmax regression follows the gradient of cross entropy",
  """Predictions are the softmax of inputs times weights plus biases, alone and in a set alike; gradient descent, mini-batch and stochastic training move weights and biases by the
  learning rate against the summed cross entropy gradient of the samples in use and then regularise the weights; the score is the share of rows rounded to the right class.""",
  ["inputs"], "1-6 samples of 1-3 features, 1-4 classes, 1-3 epochs, every regularisation type and batch size", "The test prints a score after training on one data set.",
  ["modules/softmax_reg/softmax_reg.cpp"],
  M("training", "modules/softmax_reg/softmax_reg.cpp: train_gradient_descent, train_sgd, train_mbgd", "prediction", "modules/softmax_reg/softmax_reg.cpp: evaluatem, evaluatev, score"),
  "Differential check of parameters and predictions against a double precision reference.",
  "a case counts with at least 2 samples and classes")

P("C44", "The dual classifier keeps its multipliers feasible and descends the dual",
  """Each epoch moves every multiplier by the learning rate against the gradient of the dual objective and clips it into 0 to C, then moves the bias towards putting the first
  support vector strictly inside that box onto its margin; classes are the sign of the kernel expansion plus bias.""",
  ["inputs"], "1-5 samples of 1-3 features, C 0.25-2, multipliers inside, at and outside the box, 1-3 epochs", "The test prints a score after training on one data set.",
  ["modules/dual_svc/dual_svc.cpp"],
  M("training", "modules/dual_svc/dual_svc.cpp: gradient_descent, alpha_projection", "prediction", "modules/dual_svc/dual_svc.cpp: propagatem, propagatev"),
  "Feasibility invariant plus a differential check against a double precision reference.",
  "a case counts with at least 2 samples")

_NET = "1-6 samples of 1-3 features, 1-4 neurons per layer, 1-3 epochs, every activation, cost and regularisation type"
P("C34", "Network layers map inputs through weights, bias and activation",
  """A layer's forward pass gives the activation of inputs times weights plus bias, and its test mode the same for a single sample; setters keep weights and biases that fit, hand back what was
  set, and new dimensions bring weights and biases of the right size.""",
  ["inputs", "histories"], "1-5 samples of 1-4 inputs, 1-4 neurons, every activation, random orders of setters", "The tests only run whole networks on one data set.",
  ["modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp"],
  M("layers", "modules/hidden_layer/hidden_layer.cpp, modules/output_layer/output_layer.cpp, modules/multi_output_layer/multi_output_layer.cpp: forward_pass, test, setters"),
  "Differential check against a double precision reference over random sequences of setters.",
  "a case counts with at least 2 inputs and neurons or samples")

P("C35", "Two-layer networks are trained by back propagation",
  """MLP, softmax network and auto encoder move both layers' weights and biases along the gradient of their loss over each batch (or single samples, when stochastic) and then regularise the
  weights; predictions of a row and of a set are those of the resulting parameters.""",
  ["inputs", "histories"], _NET, "The tests print scores after training on one data set.",
  ["modules/mlp/mlp.cpp", "modules/softmax_net/softmax_net.cpp", "modules/auto_encoder/auto_encoder.cpp"],
  M("training", "modules/mlp/mlp.cpp, modules/softmax_net/softmax_net.cpp, modules/auto_encoder/auto_encoder.cpp: gradient_descent, sgd, mbgd"),
  "Differential check of parameters and predictions against a double precision back propagation (for stochastic training, over all sequences of samples; layers updated one after the other or together).",
  "a case counts with at least 2 samples and parameters that move")

P("C36", "Deep networks are trained by back propagation under every optimiser",
  """ANN and MANN predict by passing inputs through all layers, and gradient descent, mini-batch, stochastic training, momentum, Nesterov, Adagrad, Adadelta, Adam, Adamax, Nadam and AMSGrad move
  all layers' weights along the gradient of the chosen cost, by each optimiser's rule.""",
  ["inputs", "histories"], _NET + ", up to 3 hidden layers", "The tests print scores after training on one data set.",
  ["modules/ann/ann.cpp", "modules/mann/mann.cpp"],
  M("training", "modules/ann/ann.cpp, modules/mann/mann.cpp: compute_gradients, update_parameters, training functions"),
  "Differential check of all parameters and predictions against a double precision reference of each rule.",
  "a case counts with at least one hidden layer and parameters that move")

P("C38", "Generative adversarial networks train both sides on their own objectives",
  """A GAN or WGAN generates from noise by its first half of layers; training moves the discriminator along the gradient over real and generated samples (the critic's weights clipped, for a WGAN)
  and the generator along the gradient through the discriminator, which it leaves alone.""",
  ["inputs", "histories"], "1-4 samples of 1-3 features, 1-5 layers, 1-2 epochs, every activation and regularisation type", "The tests only print generated samples.",
  ["modules/gan/gan.cpp", "modules/wgan/wgan.cpp"],
  M("training", "modules/gan/gan.cpp, modules/wgan/wgan.cpp: gradient_descent, compute_discriminator_gradients, compute_generator_gradients"),
  "Differential check of all layers against a double precision reference; the noise is replayed from the frozen entropy source.",
  "a case counts with at least 2 layers and parameters that move")

P("C39", "Models set up by setters behave like constructed ones and refuse early use",
  """A default-constructed model says that it is not ready and refuses, with a diagnostic, to predict, score or train; after its data and settings are set in any order and it is initialized,
  it predicts and trains exactly like the model constructed with them, given the same random draws. The setters and getters of models and layers agree: what was set is what is read back, whatever
  else was set in between, in that model and no other.""",
  ["histories", "inputs"], "1-5 samples of 1-3 features, random orders of the setters, use before, between and after them; 1-25 settings of two models or layers, each read back after every step", "The tests construct models with data.",
  ["modules/probit_reg/probit_reg.cpp", "modules/tanh_reg/tanh_reg.cpp", "modules/svc/svc.cpp", "modules/softmax_reg/softmax_reg.cpp", "modules/softmax_net/softmax_net.cpp", "modules/mlp/mlp.cpp",
   "modules/hidden_layer/hidden_layer.cpp", "modules/output_layer/output_layer.cpp", "modules/multi_output_layer/multi_output_layer.cpp", "modules/uni_lin_reg/uni_lin_reg.cpp"],
  M("life cycle", "modules/*: setters, initialize, is_initialized, model_test, model_set_test, score, training functions"),
  "Metamorphic check: two ways of building a model, random draws replayed.",
  "a case counts when both ways are compared on at least 2 samples")

_PLT = "Random histories against the standard library's containers; elements own memory and are counted, so lost, doubled and skipped destructions show."
P("P01", "Growing arrays behave as sequences, and copies stay apart",
  """Vector, PoolVector, LocalVector, TightLocalVector and RingBuffer hold what was put into them in order under any history of insertions, removals, resizing, filling, searching, slicing and
  copying; changing one array never changes another that was copied from it, and every element is constructed and destroyed once.""",
  ["histories"], "up to 40 operations on 3 arrays assigned to each other, of plain and memory-owning elements; ring buffers up to 63 elements", "No test touches these containers beyond incidental use.",
  ["platform/sfw.h"],
  M("containers", "platform/sfw.h: CowData, Vector, PoolVector, LocalVector, TightLocalVector, RingBuffer"), _PLT,
  "a case counts with at least 5 operations, 3 elements and an assignment between arrays (a full ring buffer)")
P("P02", "Ordered maps, sets and lists keep their order under any history",
  """RBMap, RBSet, VMap and VSet hold unique keys in ascending order, and List its elements in list order, forwards and backwards, under any history of insertions, removals, look-ups, moves, sorts
  and copies; the trees stay balanced and every element is constructed and destroyed once.""",
  ["histories"], "up to 70 operations, keys from ranges of 6 to 200; up to 1000 insertions and removals for the balance, counted in comparisons per look-up", "No test touches these containers beyond incidental use.",
  ["platform/sfw.h"],
  M("containers", "platform/sfw.h: RBMap, RBSet, VMap, VSet, List"), _PLT,
  "a case counts with at least 5 entries (4 list elements and 8 operations)")
P("P03", "Hash maps and sets hold each key once, however their hashes collide",
  """HashMap, HashSet, OGHashMap and OrderedHashMap find every key that was inserted and not erased, with its last value, and no other, through growth, reservations, copies and collisions;
  HashMap and OrderedHashMap visit keys in order of insertion. Keys of every kind the hashers offer (numbers, pointers,
  characters, strings, names, whole vectors, addresses, variants) hash equal when they compare equal, and the hash functions are the published ones.""",
  ["histories"], "up to 70 operations, keys from ranges of 6 to 200, good, poor and zero hash functions", "No test touches these containers beyond incidental use.",
  ["platform/sfw.h"],
  M("containers", "platform/sfw.h: HashMap, HashSet, OGHashMap, OrderedHashMap"), _PLT,
  "a case counts with at least 5 entries")
P("P04", "Sorting orders every array and loses nothing",
  """Sorting an array, a range of it, its smallest elements or a single position yields ascending order there by the comparison in use, is a permutation of the elements and leaves the rest as
  it was, for the sort of arrays, vectors and lists.""",
  ["inputs"], "up to 400 elements: random with many or few equal keys, ascending, descending, organ pipes", "No test sorts more than a few numbers.",
  ["platform/sfw.h"],
  M("sorting", "platform/sfw.h: SortArray, Vector::sort, List::sort, PoolVector::sort"),
  "Invariant (order, permutation, untouched rest) and differential check against std::sort.",
  "a case counts with at least 17 elements, which leaves insertion sort behind")
_STR = "Random strings of few and of many different characters against std::u32string and plain reference code."
P("P05", "Strings behave as sequences of characters when edited, searched and compared",
  """A String holds a sequence of code points: editing, searching, counting, replacing, splitting, joining, padding, stripping, indenting, wildcard matching and changing case give what the same operation
  on the sequence gives, comparisons are total orders that agree with each other and with hashes and interned names, Latin-1 C strings mean the same text as Strings, and changing one string never
  changes another that was copied from it.""",
  ["inputs", "histories"], "up to 40 edits of 4 strings that share text, strings up to 24 characters (300 in histories) from ASCII, Latin-1, Greek, Cyrillic, CJK and beyond the basic plane",
  "No test touches strings beyond diagnostics.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("strings", "platform/sfw.cpp: String; platform/sfw.h: String, StringName"), _STR,
  "a case counts when text and pattern are long enough to interact: found patterns, several parts, shared copies")
P("P06", "Encodings and escapes are standard and can be undone",
  """UTF-8, UTF-16, UTF-32, ASCII and Latin-1 text is encoded and decoded by the standards, with success reported for exactly the valid UTF-8, and no bytes, however malformed, make decoding unsafe;
  C, XML, JSON, URL and percent escapes have their standard form, unescaping undoes them, and names, URLs and wrapped lines are split and cleaned as documented.""",
  ["inputs"], "texts up to 16 code points including every boundary of the encodings; mutated byte sequences", "No test encodes or escapes text.", ["platform/sfw.cpp"],
  M("text encodings", "platform/sfw.cpp: String::utf8, parse_utf8, utf16, parse_utf16, *_escape, *_unescape, *_encode, *_decode, validate_*, parse_url, word_wrap"),
  "Round trips and differential checks against independent encoders; malformed input under AddressSanitizer with exact-size buffers.",
  "a case counts with at least 3 characters of which some need several bytes or an escape")
P("P07", "Numbers keep their value through text, and what is no number is refused",
  """Integers of any size and base and reals print as the C library prints them and read back to the same value, hexadecimal and binary included; numbers out of range give the nearest end of it with a
  diagnostic; the validity checks accept exactly the numbers, booleans and addresses of their grammar.""",
  ["inputs"], "64 bit integers with their limits, doubles from 1e-270 to 1e300, decimals up to 16 digits on each side, strings up to 7 characters of number-like alphabets", "No test converts numbers beyond printing.",
  ["platform/sfw.cpp"], M("numbers as text", "platform/sfw.cpp: String::num*, to_int*, to_double, to_float, hex_to_int*, bin_to_int64, is_valid_*, humanize_size"),
  "Differential check against printf, strtod and hand-written recognizers.", "a case counts when the number is not trivial (above 100, not zero, several characters)")
P("P08", "Paths are split, joined and simplified without losing the way",
  """The directory, file, basename and extension of a path put together give the path; simplifying removes detours, never leaves the root and is idempotent; a relative path leads from its start to its
  goal; appending and trimming separators gives exactly one.""",
  ["inputs"], "up to 5 names with dots, spaces and non-ASCII letters under 5 kinds of root, with detours", "No test handles paths.", ["platform/sfw.cpp"],
  M("paths", "platform/sfw.cpp: String::get_file, get_base_dir, get_extension, get_basename, plus_file, simplify_path, path_to, path_to_file, append_path, path_*"),
  "Round trips and a generator that knows the clean path of each messy one.", "a case counts with at least 2 names")
_GEO = "Differential check against the same formulas in double precision, and round trips; cases too close to a border for single precision are not judged."
P("P09", "Vectors and rectangles compute what geometry says",
  """Vectors of two to four components, real or whole, add, scale, compare, round, snap, measure, interpolate, turn, project and reflect by their geometric definitions; rectangles contain, meet,
  enclose, join, grow and are crossed as the sets of points they stand for, whole rectangles like real ones.""",
  ["inputs"], "components up to 8 (1000 for whole vectors); rectangles with corners on a half grid, compared point by point", "No test computes with these types.",
  ["platform/sfw.h", "platform/sfw.cpp"],
  M("geometry", "platform/sfw.h: Vector2, Vector3, Vector4, Vector2i, Vector3i, Vector4i, Rect2, Rect2i"), _GEO, "a case counts when both vectors are longer than 0.5, the rectangles overlap or the line crosses")
P("P10", "Planes, boxes and triangles meet where geometry says",
  """Distances, projections and crossings of planes with points, lines and each other, of axis-aligned boxes with points, boxes, lines, planes and convex shapes, and the area, nearest point and
  division of triangles are those of the point sets they stand for.""",
  ["inputs"], "coordinates on a quarter grid up to 10, random directions", "No test computes with these types.", ["platform/sfw.h", "platform/sfw.cpp"],
  M("geometry", "platform/sfw.h, platform/sfw.cpp: Plane, AABB, Face3"), _GEO, "a case counts when the point is off the plane, the boxes touch or the line crosses")
P("P11", "Rotations and transforms agree in every form and undo each other",
  """The same rotation given by Euler angles in any order, axis and angle, quaternion or basis is the same rotation, and each form can be read back from the others; products apply the right factor
  first, inverses undo, local and global changes apply on their side, interpolation leads evenly from the first to the second transform, boxes and planes move along with their points, and
  projections map the visible space onto the cube and back.""",
  ["inputs"], "any rotation including multiples of a right angle and gimbal lock, scales from 0.25 to 3, origins up to 8", "No test computes with these types.", ["platform/sfw.h", "platform/sfw.cpp"],
  M("geometry", "platform/sfw.h, platform/sfw.cpp: Quaternion, Basis, Transform, Transform2D, Projection"), _GEO, "a case counts when the rotations turn by more than 0.05 and the origin is not at 0")
P("P12", "Colours mix as defined and survive their codes",
  """Colours add, scale, mix, blend over each other, darken, lighten, invert and change hue, saturation and value by their definitions; 32 and 64 bit codes and HTML codes give back the colour they
  were made from, and what is no code is refused.""",
  ["inputs"], "all 8 and 16 bit components, random reals from 0 to 1", "No test uses colours.", ["platform/sfw.h", "platform/sfw.cpp"],
  M("colours", "platform/sfw.h, platform/sfw.cpp: Color"), _GEO, "a case counts when the components differ")
P("P13", "Scalar helpers meet their definitions and random numbers their bounds",
  """Rounding, wrapping, interpolation, easing and angle helpers give what their definitions say in single and double precision; equal seeds give equal PCG32 sequences, a saved state resumes,
  every draw stays in its range, each value of a small range comes up, and uniform and normal draws have their mean and variance.""",
  ["inputs", "histories"], "values up to 50; 4000 draws per seed", "No test checks these helpers.", ["platform/sfw.h", "platform/sfw.cpp"],
  M("numbers", "platform/sfw.h, platform/sfw.cpp: Math, RandomPCG, pcg32_*"), "Differential check against plain formulas and an independent PCG32; statistics within seven standard deviations.",
  "a case counts when its values are neither zero nor equal")
P("P14", "Variants, arrays and dictionaries hold any value and operate on it by its type",
  """A Variant gives back the value that was put in, for every type it can be made from and asked for, numbers of every width and typed arrays included; copies keep their own value, conversions follow the types, operators give what the types give, equality, order and hash agree, members and elements are
  read and set by name and index, and no operator on any pair of types is unsafe. Arrays are shared sequences and dictionaries shared insertion-ordered maps of such values; duplicates are independent,
  deep ones at every depth.""",
  ["inputs", "histories"], "all 38 types in pairs under all operators; histories of 40 steps on 3 arrays or dictionaries that share storage; values nested up to 3 deep",
  "No test uses variants beyond passing them on.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("variants", "platform/sfw.cpp: Variant, Array, Dictionary"), "Reference model (std::vector and an ordered list of pairs of tagged values), differential checks against the typed operations, safety under sanitizers.",
  "a case counts when the values differ in type or content and the histories share storage")
P("P15", "Files and directories hold what was written and nothing else is touched",
  """What is stored in a file, as bytes, numbers of either byte order, text, lines or tables, is read back; reading, writing and moving behave as on a byte string with a position and an end, in every
  open mode, and a file saved through a backup replaces the old one when it is closed. A file held by an owner is closed with it, and a saved file that cannot be put in place is told to who asked. Directory operations change exactly what they name: copies are complete, listings are exact, removing or
  erasing a tree takes links away and never what they lead to, and the process stays where it is.""",
  ["histories", "inputs"], "up to 40 steps on 3 files, up to 25 steps on trees with links, long and non-ASCII names", "No test touches the file system.", ["platform/sfw.cpp"],
  M("files", "platform/sfw.cpp: FileAccess, DirAccess"), "Reference model (byte strings; a map of paths) compared with what the operating system shows, in a scratch directory as an unprivileged user.",
  "a case counts with at least 3 reads or writes, 4 changes of the tree or a table of several rows and columns")

P("P16", "Images keep their pixels through editing, conversion, resizing and files",
  """Whatever the format, flipping, cropping, filling, blitting, blending, masking, shrinking and copying change exactly the pixels they name, in the way they say, never look outside of the images, and keep the
  sizes of data and mipmaps consistent; conversion keeps what the other format can hold; resizing follows the interpolation chosen and keeps plain areas plain; what is saved as PNG, BMP, TGA, JPEG or HDR
  and loaded again is the same picture within the precision of that file format; what cannot be done is reported and changes nothing.""",
  ["histories", "inputs"], "images up to 12 x 12 (files 40 x 40) of all 12 formats, resized up to 24 x 24, histories up to 14 steps", "No test touches images.", ["platform/image.cpp"],
  M("images", "platform/image.cpp: Image"), "Reference pixel arrays and independently written filters; round trips through files in a scratch directory.",
  "a case counts with more than 2 pixels and, in histories, more than 3 steps")
P("P17", "Objects live as long as they are referred to, and no reference outlives them",
  """Whatever references (Ref of any class, RefPtr, variants, arrays, dictionaries, other objects) are made, copied, cast and dropped, in any order, an object counts exactly those that refer to it, is deleted
  once when the last one goes, announces its creation and deletion once to each of its classes in order, and is found by its id exactly while it lives; variants holding a plain object notice its deletion
  and never lead to freed memory; casts and class names follow the inheritance; properties and metadata keep what was set; signals call what is connected, in order, each emission with its own emitter and
  parameters even when nested; equal interned names are one entry which is freed with the last of them.""",
  ["histories", "inputs"], "histories of 30 steps over 12 holders of 5 kinds, objects linked to each other; 3 signals with nested emissions; 8 names with colliding hashes",
  "No test uses objects beyond single references.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("objects", "platform/sfw.cpp, platform/sfw.h: Object, ObjectDB, Reference, Ref, RefPtr, Variant, Signal, StringName"), "Reference model (an explicit graph of who refers to whom; ledgers of construction, deletion and notification), memory accounting, sanitizers.",
  "a case counts with several objects and at least 3 changes of shared references, nested emissions or equal names")
P("P18", "Locks, counters, threads and shared values are safe under every schedule",
  """Whatever the order in which threads get to run: operations on shared numbers, flags and reference counts have the effect of some order of whole operations that respects what came before what; the last use
given back is told so exactly once and nothing is taken after it; mutexes (recursive or not), spin locks and read-write locks let in one writer or any number of readers, attempts succeed exactly when the lock is
free, and no thread waits forever; a started thread runs its function once with its own id, priority and platform calls, and waiting for it returns after its work is done, even if the Thread object was started
again or destroyed before; allocators shared by threads never hand out a slot twice and get everything back; interned names stay one entry per text; objects shared by reference are deleted once, after the last
reference; objects are found by id exactly while they live, without touching freed memory, and variants see their deletion; copies of vectors, strings and pool vectors in several threads do not see each other's
changes; no memory is lost.""",
  ["schedules", "histories"], "schedules of 2 to 3 threads with up to 8 operations each, as up to 10 chosen switches or as random switches at every operation on an atomic, mutex or thread; sequentially consistent memory (weaker orders are in P19)",
  "The tests are single threaded.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("threads", "platform/sfw.h: SafeNumeric, SafeRefCount, Mutex, RWLock, SpinLock, Thread, PagedAllocator, CowData, PoolVector; platform/sfw.cpp: Thread, StringName, ObjectDB, Object::_use_rc"), "Linearizability search over recorded histories, invariants inside critical sections, ledgers and memory accounting; std::atomic, std::mutex and std::thread are replaced by versions under a generated, replayable scheduler; deadlocks and endless waits are detected; sanitizers.",
  "a case counts when threads overlapped, waited for each other or shared the values")

P("P19", "Threads are free of data races on what is theirs, shared for reading or guarded",
  """Threads that work on objects of their own - strings, variants, containers, numbers, images, files, vectors and matrices, statistics, training and prediction of models, errors being printed - never touch a common
memory location without ordering and get what each would get alone. Threads that only read the same strings, names, arrays, dictionaries, vectors, pool vectors, maps, variants, objects, matrices and images do not race,
even when each takes copies and changes those. Whatever is written before an unlock, a flag, a count or the start or end of a thread is seen whole by the thread that comes after it. The last of several threads to let go
of a shared value takes it apart after all uses by the others. This holds on the hardware's and compiler's memory model, not only for interleavings of whole operations.""",
  ["schedules", "histories"], "2 or 3 real threads started together with up to 4 pieces of work each out of 30 kinds on values of their own, 12 kinds of shared reads, 8 kinds of handing over and 9 kinds of shared ownership; races are found from the happens-before relation of the run, so mostly independent of the timing that occurred",
  "The tests are single threaded.", ["platform/sfw.cpp", "platform/sfw.h", "core", "modules"],
  M("threads", "platform/sfw.h: ObjectRC, SafeRefCount, SafeNumeric, SafeFlag, Mutex, SpinLock, RWLock, CowData, PoolVector; platform/sfw.cpp: StringName, ObjectDB, Thread; every function-local static"), "ThreadSanitizer as the race oracle, and the sequential run of the same work as the reference for results.",
  "a case counts when at least two threads ran their work")

P("P20", "Sockets carry bytes in order between the addresses they name",
  """Any address text, number or system structure of either family becomes the address the system's own functions make of it, and is written back equal; what is no address is told apart. What is sent over a connected
  pair of sockets, whole or in parts, in any sizes, blocking or not, arrives once, in order and unchanged, each direction by itself; as much as there is room for is taken and no more is reported than was taken; ends,
  shutdowns and aborted connections are reported as such to the other side only after everything before them was read; an error of the system is an error of the call and a success is a success. Listening, accepting and
  connecting make the pair they name; options set are the options the system has; each socket gives back its descriptor exactly once.""",
  ["histories", "inputs"], "IPv4 and IPv6 texts, valid, damaged and random; histories of 40 steps on one or two connected pairs over the loopback network with small buffers and blocks up to 70 kB; sockets in any state used out of turn",
  "No test opens a socket.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("sockets", "platform/sfw.cpp: InetAddress, Socket"), "Differential check of addresses against inet_pton and inet_ntop; model of a connection as one queue of bytes per direction; ledger of descriptors.",
  "a case counts when an address was understood, at least 3 blocks were carried or several calls were made")
P("P21", "Sub-processes get exactly their arguments and give back all of their output",
  """A program started with any path and arguments, spaces, quotes, dollars, line ends or nothing in them, blocking or not, with or without a pipe, sees exactly these arguments and nothing is run besides it; all it writes, mixed with
  its errors when asked for, arrives complete and in order, also when characters are split between reads or the output is larger than any buffer; its exit code, or how it was killed, is reported once it has ended; it
  counts as running exactly while it runs; stopping it ends it and nothing else; every process is collected, every descriptor is closed and no memory is lost, whatever was called in which order.""",
  ["histories", "inputs"], "up to 5 runs per case on one or two SubProcess objects, up to 6 arguments from an alphabet of everything a shell treats specially, outputs up to 100 kB in UTF-8, exit codes 0 to 255 and signals",
  "No test starts a process.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("processes", "platform/sfw.cpp: SubProcess"), "A helper program writes down what it was given and writes out what it is told to, as an unprivileged user in a scratch directory; signals that would leave the process's own children are recorded and not sent; ledgers of processes, descriptors and memory.",
  "a case counts when a program was run with special characters in its arguments or with output")
P("P22", "Memory pools and blocks keep what is in them and never overlap",
  """Whatever is allocated, resized, freed, locked or read in whatever order, the blocks that a PoolAllocator has handed out never overlap, lie aligned inside of the pool, and keep their contents through every move and compaction of
  others; handles that were given back or are made up are refused; the free amount, the amount in use and its peak are exact, and a request is met whenever there is room, even if only after compaction. Blocks from
  Memory, with or without a size in front, hold what was put in them through every resize, counts and usage are exact, and arrays of objects are constructed and destroyed exactly once each.""",
  ["histories"], "histories of 40 steps on pools of 1 to 400 bytes with alignments 1 to 16, powers of two or not, and 1 to 20 entries; histories of 30 steps on heap blocks up to 3000 bytes",
  "No test uses the pool allocator, and the heap only through other classes.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("memory", "platform/sfw.cpp, platform/sfw.h: PoolAllocator, Memory, memnew, memnew_arr"), "Reference model holding each block's contents and the free amount; ledgers of construction and heap use; sanitizers.",
  "a case counts with at least 5 allocations and a free or resize among them")
P("P23", "Bytes, times, log lines and character classes are what they are defined to be",
  """Numbers and texts put into bytes take the room they say and no more, in little-endian order, and are read back bit by bit; the clock never goes back and is the same in every unit, and sleeping in any unit asks the
  system for that time; a message is printed once, on one line, with its level, its place when that is given, and its full text, whatever the characters in it; each character
  belongs to the classes its definition gives, and the letter, digit, whitespace and name classes agree with each other.""",
  ["inputs", "histories"], "all bit patterns; sleeps from fractions of a nanosecond to hours with the system call recorded; all levels and forms of messages with non-ASCII text, percent signs and backslashes",
  "No test checks any of these.", ["platform/sfw.cpp", "platform/sfw.h"],
  M("base", "platform/sfw.h, platform/sfw.cpp: marshalls, SFWTime, RLogger, char_utils"), "Plain definitions, the C library and the operating system as reference.",
  "every case draws a value, time, message or character and counts")

P("P24", "What an operation allocates is given back when its objects are gone",
  """Whatever is done with containers, strings, values, objects, files, threads, matrices or models: once their owners, references and copies are gone, all memory they
  took has been returned and no object is left, so that doing the same again and again uses no more memory; and the library's own account of its memory (`Memory::get_mem_usage`) comes back
  to what it was.""",
  ["inputs", "histories"], "the generated cases and histories of all other properties (but the thread schedules and races), up to 1000 of each of some 300 checks",
  "The tests exit without looking at memory; a leak shows only when the owners of something go in a certain order or an operation takes an early way out.",
  ["platform/sfw.cpp", "platform/sfw.h", "core", "modules"],
  M("allocation", "platform/sfw.cpp: Memory", "reference counts", "platform/sfw.h: Reference, Ref, PoolVector, CowData, StringName, Array, Dictionary, Variant", "buffers", "core: MLPPVector, MLPPMatrix, MLPPTensor3"),
  "Metamorphic: a case that leaves more allocated (by the allocator of the sanitizer, by the library's own count or by ObjectDB) is run nine times more; growth in each of the repetitions is a leak. Tables filled once are not.",
  "a case counts when the check it belongs to counts it")
