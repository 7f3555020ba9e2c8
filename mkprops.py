import json
T="convst/transformers/"
ALLK=[T+"_commons.py",T+"_univariate_same_length.py",T+"_univariate_variable_length.py",T+"_multivariate_same_length.py",T+"_multivariate_variable_length.py"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
NOTEST="The only runnable tests cover three array checkers; the numba-dependent test files cannot run here and only look at shapes and at a few downloaded datasets."
p("C01","Transform outputs equal the definition of the three shapelet features",
 "For every fitted shapelet and every input series, the transform returns, in shapelet order, the minimum, the first position of the minimum, and the number of values not exceeding the shapelet's threshold, of the Manhattan distance profile between the shapelet and every dilated window of the series (summed over the shapelet's channels for multivariate data, each window z-normalised per channel when the shapelet is flagged as normalised). Without phase invariance the windows are exactly those that fit inside the series' true length; with it, there is one window per timestamp and indices wrap modulo the true length. The output has one row per sample and exactly three columns per shapelet, whatever mix of lengths, dilations, normalisation flags and channels the shapelets have.",
 ["inputs","configurations"],"all series over a small value alphabet, all (series length, shapelet length, dilation, phase, normalise, channels) shapes up to a bound, all mixes of shapelet parameter groups",
 NOTEST+" No test compares a transformed value with its definition, for any input.",ALLK+[T+"rdst.py"],
 [("window generation and distance loops","convst/transformers/_commons.py: generate_strides_*, apply_one_shapelet_one_sample_*"),("grouping of shapelets by (length, dilation)","*_apply_all_shapelets in the four transformer modules")],
 [("shapelets_","arrays of values, lengths, dilations, thresholds, normalise flags (and channels)","convst/transformers/rdst.py: R_DST.fit")],["R_DST.transform"])
p("C02","A transformed row depends only on its own series",
 "The features produced for one series are the same whether it is transformed alone, or in any batch, in any position, next to any other series, including longer or shorter ones in the variable-length case. Padding added internally to align series of different lengths never influences any feature.",
 ["inputs","histories"],"all batches up to a bound over a pool of series (all orders, repetitions, length mixes), for the four kinds of data",
 NOTEST+" No test transforms the same series in two batches.",ALLK[1:]+[T+"rdst.py"],
 [("true-length bookkeeping for padded series","convst/transformers/rdst.py: _format_uneven_timestamps; X_len in the *_variable_length modules"),("per-sample window buffers","*_apply_all_shapelets")],None,["R_DST.transform"])
p("C03","Phase invariance and scale invariance hold",
 "With phase invariance on, cyclically rotating a series leaves every shapelet's minimum distance and occurrence count unchanged and moves the set of best positions by the same rotation. For shapelets flagged as normalised, replacing a series by any positive affine rescaling of it leaves all three features unchanged up to the documented epsilon in the standard deviation.",
 ["inputs"],"all rotations and all affine maps from a menu, of all series over a small alphabet, for univariate and multivariate, same and variable length data",
 NOTEST+" No test exercises phase invariance at all.",ALLK,
 [("modulo indexing","convst/transformers/_commons.py: _generate_strides_*_phase, _get_subsequence_phase"),("z-normalisation of windows","*_apply_all_shapelets, get_subsequence")],None,["R_DST.transform"])
p("C04","Every fitted shapelet is a real dilated subsequence of the training data",
 "After fit, every shapelet's values are exactly a dilated subsequence of one training series (the same sample and the same start for each of its channels, channels distinct, z-normalised per channel when flagged as normalised). It lies within that series' true length, wrapping around only when phase invariance is on, and never includes padding. The number of shapelets is at most the number requested (univariate subsequences whose values are all zero are discarded) and all the parameter arrays have that same size, with the normalised flag drawn so that a probability of 0 gives none and of 1 gives only normalised shapelets.",
 ["inputs","schedules","configurations"],"all outcomes of every random draw made during fit (bounded menus for continuous draws), for small datasets of the four kinds with pairwise distinct values",
 NOTEST+" Random draws are sampled once per test and the values are never inspected.",ALLK+[T+"rdst.py"],
 [("subsequence extraction","convst/transformers/_commons.py: get_subsequence"),("sampling loop and compaction of the drawn shapelets","*_generate_shapelet")],[("shapelets_","fitted shapelet arrays","R_DST.fit")],["R_DST.shapelets_"])
p("C05","Shapelet lengths and dilations are always admissible",
 "Every shapelet length belongs to the candidate set documented by the parameters (absolute lengths, fractions of the series length rounded down, or every integer from the lower bound, at least 3, to the upper bound, thinned at a regular step when a reduction factor is set, for example bounds 4 to 10 and a factor of one half leave 4, 6, 8 and 10), is at least 2 and at most the (minimum) series length. Lengths longer than the series are replaced, with a warning, by half the series length (at least 2). Every dilation is at least 1 and such that (length-1)*dilation is smaller than the (minimum) series length, and is prime (1 counting as admissible) when prime dilations are requested.",
 ["inputs","configurations","schedules"],"all combinations of series length up to a bound and of the length, bounds, reduction and prime options, and all outcomes of the random draws",
 NOTEST+" The one test on lengths is marked by its authors as able to fail by chance and uses one dataset.",ALLK+[T+"rdst.py"],
 [("candidate lengths","convst/transformers/rdst.py: _set_lengths, _check_params"),("dilation draw","*_init_random_shapelet_params, prime_up_to, is_prime, choice_log")],None,["R_DST.shapelets_"])
p("C06","Alpha similarity bounds the overlap of sampled shapelets",
 "Two shapelets with the same length, dilation and normalisation flag, drawn from the same training series, never start within length - max(1, floor((1-alpha)*min_length)) dilation steps of one another, where min_length is the smallest shapelet length drawn for that dilation, so that they share at most that many timestamps (positions being taken modulo the series length with phase invariance; in the multivariate case this may be violated on at most a (1-alpha) fraction of the channels of the later shapelet). Higher alpha never allows more overlap, and shapelets with different dilation or normalisation never exclude one another. Shapelets are dropped only when no admissible position is left (or, for univariate data, when all their values are zero).",
 ["inputs","schedules","configurations"],"all outcomes of the sampling draws for small datasets with pairwise distinct values, for all alphas in a menu, the four kinds of data, with and without phase invariance",
 NOTEST+" No test looks at alpha.",ALLK[1:],
 [("self-similarity mask","*_generate_shapelet: mask_sampling")],[("mask_sampling","positions still available per (normalise, dilation, sample[, channel])","*_generate_shapelet")],["R_DST.shapelets_"])
p("C07","Occurrence thresholds come from another series of the same class",
 "Each shapelet's threshold lies between the two requested percentiles of its distance profile (as computed by the transform) to a training series of the same class as the series it was extracted from. That series is a different one whenever the class has more than one member, and is the source itself only when it is the sole member of its class.",
 ["inputs","schedules"],"all outcomes of the sampling draws for small labelled datasets (all label configurations up to a bound), the four kinds of data, with and without phase invariance and normalisation",
 NOTEST+" No test looks at thresholds or labels during fit.",ALLK,
 [("threshold draw","*_generate_shapelet: loc_others, compute_shapelet_dist_vector, percentile, uniform")],None,["R_DST.shapelets_"])
p("C08","Parallel fit and transform do not depend on the thread schedule",
 "Whatever the number of threads, the way parallel iterations are distributed over them and the way their steps interleave, transform returns the same matrix as sequential execution. For the same random draws per parallel iteration, fit returns the same shapelets as sequential execution.",
 ["schedules"],"all contiguous distributions of the parallel iterations over threads and all statement-level interleavings up to a preemption bound, for small inputs of the four kinds",
 NOTEST+" Scheduling is left to the numba runtime, and no runnable test executes a parallel region.",ALLK[1:]+[T+"_input_transformers.py"],
 [("parallel loops over samples and dilations writing to disjoint slots","prange loops of *_generate_shapelet, *_apply_all_shapelets, z_norm_all_samples")],None,["R_DST.fit","R_DST.transform"])
p("C09","A fixed random_state makes results reproducible",
 "Fitting with the same integer random_state on the same data gives identical shapelets, features and predictions every time: for any number of threads and any schedule, for a new estimator or for the same one fitted again, and whatever global random state the process is in. This holds for the transformer, the ridge classifier and the ensemble (including when its members are fitted concurrently and when samples are subsampled), input transformers that are themselves asked to be random excepted.",
 ["schedules","histories","configurations"],"all thread distributions and interleavings up to a preemption bound, all orders in which concurrent ensemble members reach their draws, repeated fits, and arbitrary initial states of thread-local and global generators",
 NOTEST+" No test fixes random_state.",ALLK[1:]+[T+"rdst.py","convst/classifiers/rdst_ensemble.py","convst/classifiers/rdst_ridge.py"],
 [("seeding","R_DST._check_params; *_generate_shapelet: seed"),("random_state shared with ensemble members","R_DST_Ensemble.fit")],[("random_state","seed or generator","estimators' constructors")],["R_DST.shapelets_","predict"])
p("C10","Fitting is independent of the estimator's past",
 "After any sequence of fit, transform, predict and set_params calls on an estimator, fitting it on a dataset gives the same result as fitting a newly constructed estimator with the same parameters: type of data, lengths, channels and minimum length seen earlier leave no trace. Cloning an estimator, fitted or not, keeps its parameters, a deep copy or a pickled and restored estimator behaves like the original, and transforming or predicting never changes what later calls return.",
 ["histories"],"all operation sequences up to a depth over datasets of different kinds, lengths and channel counts",
 NOTEST+" The existing tests call fit once per estimator.",[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py"],
 [("parameters resolved from the data at fit","R_DST.fit, R_DST._set_fit_transform; R_DST_Ridge._init_components; R_DST_Ensemble.fit")],[("transform_type, min_len, max_channels, shapelet_lengths","constructor parameters that fit resolves from the data","R_DST.fit")],["R_DST.fit","predict"])
p("C11","User data is never modified",
 "Fit, transform, predict, score and the input transformers leave the arrays, lists, labels and parameter objects they are given unchanged, and the matrices they return do not alias their inputs or the fitted state in a way that lets later calls change earlier results. Transforming the same data twice with the same fitted estimator gives the same result.",
 ["inputs","histories"],"all operation sequences up to a depth over the four kinds of data, containers, dtypes and memory layouts",
 NOTEST+" No test compares its input before and after.",ALLK+[T+"rdst.py",T+"_input_transformers.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py"],
 [("copies made before in-place normalisation","R_DST.fit/transform: astype; generate_strides_*")],None,["R_DST.fit","R_DST.transform"])
p("C12","Each kind of input is recognised and equivalent forms agree",
 "With the automatic setting, a 3D numeric array is treated as same-length and a list or object array of 2D arrays as variable-length, univariate or multivariate by number of channels, for any numeric dtype; each of the four types can also be requested explicitly. The same series given as a 3D array, a list or, unless a same-length type is requested, an object array, or as univariate data or one-channel multivariate data, produce the same features for the same shapelets, and series with differing channel counts are rejected with an error.",
 ["inputs","configurations"],"all combinations of kind, container, dtype, requested type and shape in a bounded menu",
 NOTEST+" The type test needs downloaded datasets and covers one dataset per kind.",[T+"rdst.py"]+ALLK[1:],
 [("type detection and dispatch","R_DST._auto_class, _set_fit_transform, _validate_transform_type, _format_uneven_timestamps")],[("transform_type","kind of data handled","R_DST")],["R_DST.transform_type","R_DST.transform"])
p("C13","Array checks accept exactly the documented inputs and never alter data",
 "The 1D, 2D and 3D array checks accept an input if and only if it is of an accepted container type, has the required number of dimensions and no empty dimension (and, in 3D, more than the minimum number of timestamps and a single channel when univariate data is required), and raise ValueError otherwise. On acceptance they return the same values in the same shape and dtype, without modifying the input, converting lists (and data frames, in 2D on request) to arrays.",
 ["inputs"],"all shapes up to a bound in 0 to 4 dimensions, crossed with container types, dtypes, memory layouts and options",
 "The tests sample nine shapes of random data; the acceptance boundary (minimum timestamps, univariate, lists, data frames) is never touched.",["convst/utils/checks_utils.py"],
 [("array checks","convst/utils/checks_utils.py: check_array_1D, check_array_2D, check_array_3D, check_is_numpy, check_is_numpy_or_pd")],None,["check_array_1D","check_array_2D","check_array_3D"])
p("C14","Parameters are validated and the thread count is always usable",
 "The number of jobs resolves to 1 for None, to itself capped by the number of CPUs when positive, and to CPUs + 1 + n_jobs when negative, always a usable count between 1 and the number of CPUs; the n_jobs check rejects zero and non-integers (booleans included) with ValueError. Numeric and boolean parameter checks accept exactly numbers (not booleans) and exactly booleans and return the value unchanged. Unknown transform types, unordered or non-numeric percentiles, length bounds that are not a pair and a reduction factor of 1 or more are rejected by the transformer at construction and by the classifiers at the latest in fit, and the ensemble rejects options whose sizes disagree at construction.",
 ["inputs","configurations"],"all integers in a range around the CPU count for several CPU counts, and all values from a menu of types for each parameter",
 "No test covers the scalar checks or the constructor validation.",["convst/utils/checks_utils.py",T+"rdst.py","convst/classifiers/rdst_ensemble.py"],
 [("scalar checks","convst/utils/checks_utils.py: check_n_jobs, check_is_numeric, check_is_boolean"),("constructor checks","R_DST.__init__, R_DST_Ensemble.__init__")],None,["check_n_jobs","R_DST()"])
p("C15","The ridge classifier is exactly transform, train-set scaling and ridge",
 "Predicting with the ridge classifier equals transforming with the fitted shapelets, dropping the features that were constant on the training set, scaling the others with training-set mean and deviation, and applying the fitted linear model; user options reach the component they belong to. Predictions are, for every label set (any integers or strings), one original training label per input series in input order, and the score is their accuracy.",
 ["inputs","configurations"],"all label configurations up to a bound, all subsets of constant features, all linear-model answers from a menu, all option values from a menu",
 NOTEST,["convst/classifiers/rdst_ridge.py",T+"_input_transformers.py"],
 [("pipeline","R_DST_Ridge._init_components, fit, predict, score")],None,["R_DST_Ridge.predict"])
p("C16","The ensemble is a weighted soft vote that returns training labels",
 "The ensemble predicts, for each series, the training label with the highest sum over members of softmaxed decision values times the member's weight, the weight being the member's leave-one-out training accuracy raised to the weighting exponent. This holds for every label set (not only 0..k-1), every number of members and every number of jobs, with each member seeing its own input transformation and options.",
 ["inputs","configurations","schedules"],"all combinations of member decision values and leave-one-out predictions from a menu, all label sets from a menu, all numbers of jobs",
 NOTEST+" No existing test constructs an ensemble.",["convst/classifiers/rdst_ensemble.py"],
 [("weights and vote","R_DST_Ensemble.fit, predict; _internalRidgeCV.predict_proba, get_loocv_train_acc")],[("model_weights","weight of each member","R_DST_Ensemble.fit")],["R_DST_Ensemble.predict"])
p("C17","Input transformers compute their documented transforms",
 "The raw transform is the identity, the derivative of order k is the k-fold first difference along time per channel, the periodogram is the per-channel periodogram of each series, the z-normaliser standardises each channel of each sample independently (constant channels become zero), and the Hankel transform is applied per channel of each sample. All act on each series independently, accept variable-length input where the ensemble claims to support it, and keep sample and channel order.",
 ["inputs"],"all series over a small alphabet and all shapes up to a bound, per transformer option",
 NOTEST+" Input transformers have no tests.",[T+"_input_transformers.py","convst/utils/dataset_utils.py"],
 [("input transformers","convst/transformers/_input_transformers.py"),("dataset z-normalisation","convst/utils/dataset_utils.py: z_norm_3D, z_norm_3D_list")],None,["transform"])
p("C18","Feature scalers drop exactly the constant training features, consistently",
 "The feature scalers keep exactly the columns that vary on the data they were fitted on, and apply the same column selection and the training statistics to every later matrix, whatever its own values. Refitting replaces the selection completely.",
 ["inputs","histories"],"all small matrices over a small alphabet for fit and for transform, and all two-fit histories over a pool",
 NOTEST+" The scalers have no tests.",[T+"_input_transformers.py"],
 [("column selection","c_StandardScaler, c_MinMaxScaler")],[("usefull_atts","columns kept","fit")],["transform"])
p("C19","Interpretation tools agree with the model they explain",
 "For every fitted univariate shapelet and every series, the plotted distance vector has as minimum, first minimum position and number of values under the threshold the very features the transform returns, the plotted match lies at that best position with the shapelet's dilation (rescaled to the data when normalised), and the plotted values are the shapelet's own. The importance shown for a class, given by its label whatever the label set, assigns each ridge coefficient to the feature it belongs to (zero for dropped features), sign-flipped for the first of two classes, and the visualised shapelets are the most important ones, for same-length and variable-length series. Multivariate transformers, which are not supported, are rejected with NotImplementedError.",
 ["inputs","configurations"],"all series over a small alphabet, all shapelet shapes up to a bound, all normalise and phase combinations, all coefficient orders and dropped-feature subsets up to a bound",
 NOTEST+" Interpreters have no tests.",["convst/interpreters/rdst_interpreter.py",T+"_commons.py"],
 [("distance vectors and matches","Shapelet.plot_on_X, plot_distance_vector; compute_shapelet_dist_vector"),("importance","RDST_Ridge_interpreter._get_shp_importance, visualize_best_shapelets_one_class")],None,["RDST_interpreter","RDST_Ridge_interpreter"])
p("C20","Resampling keeps every sample once, with its label and class counts",
 "A resample of a train/test split, both parts of which have the same classes, is a redistribution of exactly the same (series, label) pairs, each used once, with the class counts of both parts unchanged, determined by its seed and leaving the originals untouched, for same-length, multivariate and variable-length data. Cross-validation evaluates the original split first and then one resample per fold seed, never lets a fold influence another (even when a pipeline modifies the data it is given), and scores each fold's predictions against that fold's test labels. Grid-search folds, for same-length data, give index sets that select exactly the fold's series.",
 ["inputs","histories","schedules"],"all label configurations up to a bound, all outcomes of the shuffles, the kinds of data, and all fold counts up to a bound",
 NOTEST+" Resampling is only reached through downloaded datasets.",["convst/utils/experiments_utils.py"],
 [("stratified resample","convst/utils/experiments_utils.py: _resample"),("folds","cross_validate_UCR_UEA.score, _sklearn_cv.split")],None,["cross_validate_UCR_UEA.score","_sklearn_cv.split"])
p("C21","Loaded datasets are consistent",
 "Loading a dataset returns the archive's train and test series in order, with labels encoded as 0..k-1 in sorted order by the same mapping for both parts, the minimum series length over both parts, and, when normalisation is asked, each channel of each series standardised on its own (as lists for both parts as soon as one has variable length). Loading a whole dataset returns train followed by test, aligned with the labels, for same-length and variable-length data. The dataset name lists contain no duplicates and partition into the four kinds: 112 univariate, 26 multivariate, 11 variable-length univariate and 7 variable-length multivariate datasets.",
 ["inputs","configurations"],"all archive answers from a bounded menu (shapes, kinds, label sets and orders), with and without normalisation",
 "The tests need two downloaded datasets and check only shapes.",["convst/utils/dataset_utils.py"],
 [("loading","load_UCR_UEA_dataset_split, load_UCR_UEA_dataset, z_norm_3D, z_norm_3D_list")],None,["load_UCR_UEA_dataset_split","load_UCR_UEA_dataset"])
p("C22","Model comparison statistics are right for every results table",
 "For every results table, pairwise tests compare the scores, paired by dataset, of every two models evaluated on all datasets, significance follows Holm's step-down procedure at the requested level (models with identical scores do not differ), average ranks are per-dataset ranks averaged per model (best score ranks first, ties averaged), and groups joined in the diagram are exactly the maximal sets of models with no significant difference. The pairwise plot shows every other model against the baseline on axes of its own, for any number of columns, with win, draw and loss counts that are right with respect to the margin and sum to the number of datasets. Nothing depends on the order of the table's rows.",
 ["inputs"],"all orderings of p-values relative to the Holm levels, all small score tables over a small alphabet, all row permutations",
 "The plotting module has no tests.",["convst/utils/plot_utils.py"],
 [("Holm procedure and ranks","_wilcoxon_holm"),("cliques","_form_cliques"),("win/draw/loss","pairwise_plot")],None,["draw_cd_diagram","pairwise_plot"])
p("C23","Sample subsampling restricts extraction to an aligned subset",
 "When only a proportion of the samples is used, shapelets are extracted, and thresholds computed, only from the drawn subset, whose size is that proportion of the number of samples, drawn without replacement for proportions below one, with each series keeping its own label and its own true length. Without subsampling every sample can be drawn.",
 ["inputs","schedules","configurations"],"all subsets the stratified draw can return and all outcomes of the sampling draws, for the four kinds of data and several proportions",
 NOTEST+" No test sets the proportion of samples.",[T+"rdst.py"],
 [("subsampling","R_DST.fit: resample")],None,["R_DST.shapelets_"])
p("C24","The shapelet search space is covered: no admissible candidate is unreachable",
 "Over all outcomes of the random draws, the set of shapelets that fit can extract is exactly the set of all admissible (series, start, length, dilation, normalisation[, channel set]) candidates: no admissible candidate is unreachable and no inadmissible one is reachable (univariate all-zero subsequences are not admissible; the very largest dilation a length allows may be left out unless prime dilations are requested). With prime dilations, every admissible prime dilation is reachable. Every length of the specification stays reachable whatever the others are, and the draws of one shapelet do not restrict the lengths and dilations of another.",
 ["inputs","schedules","configurations"],"all outcomes of every draw of a one-shapelet fit, for small datasets of the four kinds, with and without phase invariance and prime dilations",
 NOTEST+" Reachability cannot be tested by sampling.",ALLK+[T+"rdst.py"],
 [("sampling of parameters, samples, positions and channels","*_init_random_shapelet_params, *_generate_shapelet, choice_log")],None,["R_DST.shapelets_"])
p("C25","Output normalisation rescales positions and counts by series length",
 "With output normalisation on, the position and occurrence features are those obtained without it divided by the true length of the series they were computed on, and the minimum distances are unchanged; with it off the raw values are returned. The option acts identically in the transformer, the ridge classifier and the ensemble, for the four kinds of data.",
 ["inputs","configurations"],"all series lengths up to a bound, the four kinds of data, mixed lengths in one batch",
 NOTEST+" No test sets the option.",[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py"],
 [("normalize_output option","R_DST.transform")],None,["R_DST.transform"])
p("C26","Low-level helpers match their definitions on every input",
 "The row-unique helper returns, for every non-empty matrix, the sorted distinct rows (or columns), the first original index of each and its number of occurrences, and the all-reduction helper the conjunction along the axis; the prime helpers list exactly the primes up to n (counting 1 as an admissible dilation), and the pair-combination, weighted-choice and distance helpers match their definitions. The window generators and the extraction and distance-vector helpers agree with one another and with direct indexing for every shape. None of them ever indexes outside its input.",
 ["inputs"],"all small matrices over a small alphabet, all integers up to a bound, all shapes up to a bound",
 "The runnable tests do not import these helpers; the others check the first window of three shapes.",["convst/utils/numba_utils.py",T+"_commons.py"],
 [("helpers","nb_unique, np_all; is_prime, prime_up_to, choice_log; generate_strides_*; get_subsequence; compute_shapelet_dist_vector; euclidean, squared_euclidean, manhattan")],None,["nb_unique","generate_strides_1D","generate_strides_2D"])
p("C27","Compiled code stays within its arrays; unusable input is rejected",
 "The compiled functions run without bounds checks, so no fit, transform or predict may make them index outside an array or fail inside, whatever the kind of data, series lengths, number of series and channels, labels and parameters; every configuration that can be used is accepted and gives the features of its definition. What cannot be used is rejected with ValueError before the compiled code runs: in transform, a series shorter than the span (length-1)*dilation+1 of some shapelet when phase invariance is off, or with fewer channels than a shapelet uses; in fit, labels whose number differs from the number of series and a sample proportion that leaves no series; percentiles that are not an ordered pair between 0 and 100. A max_channels above the number of channels means all of them, and labels may be given as an array or a list of any type.",
 ["inputs","configurations"],"all shapelet shapes against all series lengths around their span and all channel sets against all channel counts, all label counts and forms, all pairs of fit options on data of every small size",
 NOTEST+" numba does not check bounds: such an access returns whatever lies in memory, so a test sees plausible numbers.",ALLK+[T+"rdst.py","convst/classifiers/rdst_ridge.py"],
 [("checks before the compiled functions","R_DST.fit, R_DST.transform, R_DST._check_shapelets_fit, R_DST._validate_percentiles"),("indexing","*_generate_shapelet, *_apply_all_shapelets, generate_strides_*")],None,["R_DST.fit","R_DST.transform"])
p("C28","A failed fit leaves no mixed model; shared parameters do not couple estimators",
 "When fit raises, whatever component raised (a draw, the extraction or application of the shapelets, an input transformer, the scaler, the linear model) or because the data are rejected, the estimator keeps its parameters and then either raises when it is used or answers as its previous model did (or as the new one if that was complete), never with parts of both; an estimator that was never fitted does not answer. Fitting it again gives the model of a new estimator, and a failed transform or predict changes nothing. Estimators that were given the same parameter objects (input transformers that learn from their data, lists, arrays, dictionaries, or the default values) answer, under every order of their operations, as each would alone, and never modify these objects.",
 ["crash_points","histories","fault_sequences"],"an exception at every random draw and at the start and end of every component of a fit, for all pairs of previous and new data; all orders of operations of two estimators up to a depth",
 NOTEST+" Tests fit once and never fail half-way.",[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py",T+"_input_transformers.py"],
 [("fit","R_DST.fit, R_DST_Ridge.fit and _init_components, R_DST_Ensemble.fit"),("shared parameters","constructors and default arguments of the estimators")],None,["R_DST.fit","R_DST_Ridge.fit","R_DST_Ensemble.fit"])
p("C29","The numba options are honoured and change no result",
 "Whatever the package options for caching, fast mathematics, releasing the lock and parallelism are set to before the package is used, the same data, parameters and random_state give the same shapelets, features, weights, predictions and helper results, for the four kinds of data. An option that is switched off is off for every compiled function of the package.",
 ["configurations","inputs"],"all sixteen values of the four options",
 NOTEST+" Tests run with the default options only.",["convst/__init__.py"]+ALLK+[T+"_input_transformers.py","convst/utils/numba_utils.py","convst/utils/dataset_utils.py"],
 [("options read when the modules are imported","decorators of the compiled functions")],[("options","package-level switches","convst/__init__.py")],["R_DST.fit","R_DST.transform"])
p("C30","Estimators can be used from several threads at once",
 "Several threads that transform or predict with the same fitted estimator (transformer, ridge classifier or ensemble) at the same time each get the result they get alone, whatever data each thread passes and however the threads interleave, and leave the fitted model unchanged. Threads that fit one estimator each at the same time obtain the models they obtain alone, for the same or different random states.",
 ["schedules","inputs"],"all schedules up to a preemption bound at the granularity of source lines, of the estimators, the input transformers and the compiled functions, for the four kinds of data",
 NOTEST+" Tests never use two threads, and a sampled schedule does not show a race.",[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py",T+"_input_transformers.py"]+ALLK,
 [("no state shared between calls","R_DST.transform and fit, R_DST_Ridge.predict and fit, R_DST_Ensemble.predict and fit, work arrays of the compiled functions")],
 [("fitted state","shapelets, linear models and weights read by every call","R_DST.shapelets_, R_DST_Ensemble.models")],["R_DST.transform","R_DST_Ridge.predict","R_DST_Ensemble.predict","R_DST.fit"])
p("C31","Class labels are names: their values, order and type do not matter",
 "Training with the classes renamed in any way (integers that are not consecutive or far apart, negative numbers, floats, booleans, strings, objects; in an array, list, column or read-only array) gives the same shapelets and thresholds for the same random_state, whatever the order of the names unless a stratified subset of the samples is drawn. The ridge classifier and the ensemble then predict the same classes under their new names, with the same member weights and the same score.",
 ["inputs","configurations"],"all splits of the training series in classes up to a bound, all assignments of a menu of label sets to the classes, all containers, for the four kinds of data",
 NOTEST+" Tests use one label set each.",[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py"]+ALLK[1:],
 [("encoding of the labels","R_DST.fit"),("series of the same class","generate_shapelet functions of the four transformer modules"),("classes of the votes and of the leave-one-out accuracy","R_DST_Ensemble.fit, _internalRidgeCV.get_loocv_train_acc")],None,["R_DST.fit","R_DST_Ridge.predict","R_DST_Ensemble.predict"])
p("C32","The unit of measurement does not matter",
 "Multiplying all series (training and test) by the same non-zero factor, also a negative, tiny or huge one, or adding the same constant, changes nothing but the unit: for the same draws the shapelets are the same subsequences in the new unit, thresholds and minimum distances are multiplied by the size of the factor, positions and counts are unchanged. Normalised shapelets change their sign at most, up to the documented epsilon of the deviation. The ridge classifier makes the same predictions, and so does the ensemble for factors.",
 ["inputs","configurations"],"all random draws of small fits, replayed with the same draws on the data in other units; powers of two and integers for which the relation is exact",
 NOTEST+" No test fits the same data twice.",ALLK+[T+"rdst.py","convst/classifiers/rdst_ridge.py","convst/classifiers/rdst_ensemble.py"],
 [("distances and comparisons without absolute tolerances","compute_shapelet_dist_vector, apply_one_shapelet_one_sample_*"),("null subsequences and thresholds","generate_shapelet functions of the four transformer modules")],None,["R_DST.fit","R_DST.transform","R_DST_Ridge.predict","R_DST_Ensemble.predict"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=d["statement"].replace("..k","").count(". ")+1
    if n>3: print(d["id"],n)
