"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Converted linear classifiers predict exactly what the source model predicts",
  "For every fitted LogisticRegression, RidgeClassifier, SGDClassifier, Perceptron, PassiveAggressiveClassifier or LinearSVC, any class labels and any dense or sparse records with the right number of features, the converted model's decision scores, predicted labels, and (where it offers them) probabilities and log-probabilities equal those of the source model up to floating-point rounding. This includes models without intercept, binary and multi-class models, one-vs-rest and multinomial probabilities, records that lie exactly on a decision boundary, and probabilities of either class however small. Probability methods are offered for LogisticRegression and for SGD with log loss.",
  ["inputs", "configurations"], "all coefficient matrices, intercepts, hyper-parameters, label sets and input records (dense lists and sparse_list)",
  "The tests compare one iris fit per configuration with integer labels 0..K-1, on the training records only: no boundary records, no string labels, no extreme scores, no fitted models with other shapes.",
  ["pure_sklearn/linear_model", "pure_sklearn/svm/_classes.py", "pure_sklearn/base.py"],
  [("decision scores and label choice", "LinearClassifierMixinPure.decision_function/predict"), ("ovr/softmax choice", "LogisticRegressionPure.predict_proba"), ("scalar kernels", "base.dot, expit, sfmax, safe_log")],
  ["convert_estimator(est).decision_function/predict/predict_proba/predict_log_proba"])

p("C02", "Converted trees, forests and bagging reproduce the source model's predictions",
  "For every fitted decision tree or extra-tree classifier or regressor, random forest, extra-trees or bagging classifier, and any finite records (dense or sparse), the converted model routes each record to the same leaves and therefore returns the same labels, probabilities, log-probabilities or regression values as the source model. This includes records lying exactly on, or within a rounding error of, a split threshold, ensembles whose members saw only a subset of the features or of the classes, and any class labels.",
  ["inputs", "configurations"], "all fitted tree structures, ensembles, feature/class subsets and input records, in particular records at split thresholds",
  "The tests predict the iris training records only, which never touch a threshold, and never use ensembles whose members see fewer classes, sparse bagging input or non-integer labels.",
  ["pure_sklearn/tree/_classes.py", "pure_sklearn/ensemble/_bagging.py", "pure_sklearn/ensemble/_forest.py"],
  [("tree traversal", "_DecisionTreeBase._get_leaf_node"), ("ensemble averaging", "_BaseBaggingPure.predict_proba"), ("feature subsets", "_feat_slice")],
  ["convert_estimator(est).predict/predict_proba/predict_log_proba"])

p("C03", "Converted gradient boosting reproduces the source model's predictions",
  "For every fitted GradientBoostingClassifier (deviance or exponential loss, binary or multi-class, prior, zero or supported-estimator initialisation, any learning rate and number of stages) and any finite dense records, the converted model's labels, probabilities and log-probabilities equal the source model's.",
  ["inputs", "configurations"], "all fitted boosting models, losses, initialisations, label sets and input records",
  "The tests intend to cover the exponential loss but never do, use the default initialisation only, and compare scores of one method per model on the training records.",
  ["pure_sklearn/ensemble/_gb.py", "pure_sklearn/ensemble/_gb_losses.py", "pure_sklearn/dummy.py"],
  [("stage summation", "GradientBoostingClassifierPure._raw_predict"), ("link functions", "_gb_losses: raw predictions to probabilities, initial raw predictions")],
  ["convert_estimator(est).predict/predict_proba/predict_log_proba"])

p("C04", "Converted XGBoost classifiers reproduce the source model's predictions",
  "For every fitted gbtree XGBClassifier with a logistic or softprob objective, and any dense records, the converted model's labels and probabilities equal the source model's up to single-precision rounding. This holds for any number of features, pruned trees, split values equal to the feature value, missing (NaN) values, any base score, named features and models stopped early.",
  ["inputs", "configurations"], "all fitted boosters (tree shapes, feature counts and names, base scores, early stopping) and input records including missing values",
  "The test trains on iris: four features, no missing value, default base score, no pruning, and predicts training records that never equal a split value.",
  ["pure_sklearn/xgboost/_classes.py", "pure_sklearn/tree/_classes.py"],
  [("booster parsing", "XGBClassifierPure._build_estimators"), ("tree table to arrays", "_DecisionTreeBase.__init__ (dict branch)"), ("margin and link", "XGBClassifierPure.predict_proba")],
  ["convert_estimator(est).predict/predict_proba"])

p("C05", "Converted naive Bayes and prior classifiers reproduce the source predictions",
  "For every fitted GaussianNB, MultinomialNB, ComplementNB or prior-strategy DummyClassifier, any class labels and any valid dense records, the converted model's labels, probabilities and log-probabilities equal the source model's. This holds for any magnitude of the joint likelihood, including records whose likelihood underflows double precision.",
  ["inputs", "configurations"], "all fitted class priors and feature distributions, label sets, and records of any size or count magnitude",
  "The tests use iris (four small features, labels 0..2), where likelihoods never underflow and class index equals class label.",
  ["pure_sklearn/naive_bayes.py", "pure_sklearn/dummy.py"],
  [("joint log likelihood and normalisation", "_BaseNBPure"), ("prior prediction", "DummyClassifierPure")],
  ["convert_estimator(est).predict/predict_proba/predict_log_proba"])

p("C06", "Scaling, normalisation and pairwise metrics equal their scikit-learn results",
  "For all fitted StandardScaler, MinMaxScaler, MaxAbsScaler and Normalizer objects, and for the normalize, cosine similarity, cosine distance and linear kernel functions, any finite dense input (and sparse input where supported) of any sign and magnitude is transformed to the same values as by scikit-learn. Constant features, all-zero rows, negative values and every norm, axis and option are included.",
  ["inputs", "configurations"], "all scaler parameters, norms, axes and matrices",
  "The tests use one 2x3 matrix with a positive row maximum and several of them drop the comparison result without asserting it.",
  ["pure_sklearn/preprocessing/_data.py", "pure_sklearn/metrics/pairwise.py", "pure_sklearn/base.py"],
  [("row norms and scaling", "normalize_pure"), ("scaler formulas", "StandardScalerPure/MinMaxScalerPure/MaxAbsScalerPure.transform"), ("similarities", "metrics.pairwise")],
  ["transform()", "normalize_pure", "cosine_similarity_pure/cosine_distances_pure/linear_kernel_pure"])

p("C07", "Categorical encoders and dict vectorizers equal their scikit-learn results",
  "For every fitted OneHotEncoder, OrdinalEncoder or DictVectorizer, with any number of columns, category types and options, the converted transformer returns the same matrix as the source for any records (for DictVectorizer any mappings, alone or in any iterable). Categories not seen in training are encoded as all zeros when ignoring is configured, unseen dictionary keys are ignored, and the output's width, dtype kind and sparse or dense form follow the source's configuration.",
  ["inputs", "configurations"], "all category sets, column counts, dictionary feature sets and records with seen and unseen values",
  "The tests encode two-column tables and one numeric dictionary list, always the training records: no third column, no unknown category, no string-valued dictionary feature.",
  ["pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/preprocessing/_label.py", "pure_sklearn/feature_extraction/_dict_vectorizer.py"],
  [("column offsets and masks", "OneHotEncoderPure.transform"), ("code lookup", "_label._encode"), ("vocabulary lookup", "DictVectorizerPure.transform")],
  ["transform()"])

p("C08", "Imputers fill and flag the same cells as the source imputers",
  "For every fitted SimpleImputer (mean, median, most_frequent, constant; with or without indicator; NaN, numeric, string or None as the missing marker) and MissingIndicator, the converted transformer leaves every present value unchanged, replaces every missing value by the fitted statistic of its own column, drops exactly the columns the source drops, and appends or returns the same missing-value mask. It raises for features newly missing at prediction time exactly when the source does.",
  ["inputs", "configurations"], "all fitted statistics, missing markers, strategies and missing patterns at fit and predict time",
  "The tests use iris with twenty random NaNs and no all-missing column, no string data, and disable the error on newly missing features.",
  ["pure_sklearn/impute/_base.py"],
  [("missing test", "_to_impute"), ("column removal and fill", "SimpleImputerPure.transform"), ("mask and new-feature check", "MissingIndicatorPure.transform")],
  ["transform()"])

p("C09", "Text vectorizers produce the source vectorizer's document-term matrix",
  "For every fitted CountVectorizer, TfidfVectorizer, TfidfTransformer or HashingVectorizer with built-in analyzers (word, char, char_wb; any n-gram range, accent stripping, case folding, stop list, token pattern, binary counts, norm, idf and sublinear options, hash size and sign) and any Unicode or encoded documents in any iterable, the converted vectorizer returns the same document-term matrix as the source. Repeated tokens, hash collisions, empty documents and documents without any known token are included.",
  ["inputs", "configurations"], "all option combinations, vocabularies and Unicode documents",
  "The tests vectorize six short ASCII sentences without repeated words, with default options and three norms.",
  ["pure_sklearn/feature_extraction/text.py", "pure_sklearn/feature_extraction/_hash.py"],
  [("analysis chain", "_VectorizerMixinPure.build_analyzer and n-gram functions"), ("hashing", "_hash._hash, _hashing_transform"), ("tf-idf weighting", "TfidfTransformerPure.transform")],
  ["transform()"])

p("C10", "Pipelines and feature unions compose exactly as in scikit-learn",
  "For every fitted Pipeline or FeatureUnion built from supported steps, nested to any depth, with or without transformer weights, skipped steps and mixed sparse and dense branches, the converted object's transform, predict, predict_proba and predict_log_proba results equal the source's for any valid input. Union outputs are concatenated in the declared order with each branch in its own column range, and only methods of the final step are offered.",
  ["inputs", "configurations", "programs"], "all compositions of supported transformers and a final estimator, and their inputs",
  "The tests build one two-step pipeline and two two-branch unions over iris; no weights, no text, no nesting, no dense/sparse mix.",
  ["pure_sklearn/pipeline.py", "pure_sklearn/map.py"],
  [("step chaining and delegation", "PipelinePure"), ("column concatenation, weights", "FeatureUnionPure.transform")],
  ["transform/predict/predict_proba/predict_log_proba of the converted pipeline"])

p("C11", "Converted fastText models embed and classify like the native library",
  "For every supervised softmax fastText model without n-grams or subwords, and every unsupervised model without subwords, the pure model returns the native word ids, word vectors, sentence vectors, and top-k labels with probabilities (for any k, threshold, single text or list of texts) up to single-precision rounding. Texts may contain any Unicode, any mix of separators, unknown words, label tokens, or nothing at all.",
  ["inputs", "configurations"], "all trained models within the supported class and all single-line texts, k and thresholds",
  "The tests query one tiny model with four short ASCII sentences made mostly of known words, one at a time, never a list, never an all-unknown text.",
  ["pure_fasttext/FastText.py"],
  [("tokenisation and averaging", "_FastText.get_sentence_vector"), ("softmax and ranking", "_FastText._predict"), ("dictionary", "_FastText.get_word_id")],
  ["FastText(model).get_word_id/get_word_vector/get_sentence_vector/predict"])

p("C12", "A converted model needs only the standard library to unpickle and predict",
  "Any model that converts successfully can be pickled with any protocol, unpickled in an interpreter that has only the standard library and this package, and used there: every prediction or transform call returns the same values as in the training environment. So do the package's matrix, pairwise, normalisation and text functions, and vectorizers that read files. Its state and its outputs consist of plain Python objects only, whatever numeric or string types the source model or its hyper-parameters held. Interpreter options (optimised mode with -OO, locale, UTF-8 mode) make no difference.",
  ["configurations", "inputs"], "all convertible models (including hyper-parameters given as numpy scalars) and pickle protocols",
  "The tests never pickle a model and run with numpy and scikit-learn importable, so a leaked numpy scalar or third-party import is invisible.",
  ["pure_sklearn/utils.py", "pure_sklearn/map.py", "pure_fasttext/FastText.py"],
  [("type audit at conversion", "utils.check_types, utils.convert_type"), ("absence of third-party imports", "all modules")],
  ["pickle.loads in a bare interpreter", "types reachable from results"])

p("C13", "Sparse and dense representations of the same data give the same results",
  "Converting a dense matrix to the sparse structure and back yields the same matrix, and every estimator, transformer or metric that accepts sparse input returns the same values for a sparse matrix as for its dense equivalent. A sparse structure that was copied or pickled is still the same matrix. This holds for empty rows, explicitly stored zeros, trailing all-zero columns, and integer or float data.",
  ["inputs", "configurations"], "all matrices, stored-zero patterns and sparse-capable estimators",
  "The tests convert one 2x2 matrix without zeros and use (dense-valued) iris as 'sparse' data, so missing keys are hardly ever read.",
  ["pure_sklearn/utils.py", "pure_sklearn/base.py", "pure_sklearn/tree/_classes.py", "pure_sklearn/linear_model/_base.py", "pure_sklearn/preprocessing/_data.py", "pure_sklearn/ensemble/_bagging.py"],
  [("sparse structure", "utils.sparse_list"), ("sparse branches of kernels and transforms", "base.py, _data.py, _classes.py")],
  ["tosparse/todense", "predict*/transform with sparse input"])

p("C14", "Each record's result is independent of the rest of the batch",
  "For every converted model and method, the result for a record is the same whether it is submitted alone or in any batch: the output has one entry per record, in input order, and permuting, duplicating or splitting the batch permutes, duplicates or splits the output. Results of different records are distinct objects, so changing one row of a result does not change another.",
  ["inputs", "configurations"], "all convertible models, batches, permutations and splits",
  "The tests always predict the full training set in its original order and never compare a batch with single-record calls.",
  ["pure_sklearn", "pure_fasttext/FastText.py"],
  [("per-row evaluation", "list comprehensions over records in every predict/transform")],
  ["predict*/transform on batches, single records and permutations"])

p("C15", "Predicting has no side effects: inputs, models and later results stay unchanged",
  "No sequence of prediction or transform calls (failing ones included), conversions of other models, pickling round trips, caller-side modification of returned results, or further training of the source model changes what a converted model returns for a given input. Calls never modify the input they are given, overlapping calls from several threads do not disturb each other, a caller may refill and submit the same container again, and conversion does not change the source model's behaviour. The package's matrix and pairwise functions, too, leave their arguments as they are and answer equal calls equally.",
  ["histories", "inputs"], "all interleavings of calls on one or more converted models, with mutation of results and refitting of sources in between",
  "The tests call each method once per model; a result that aliases model state or a call that edits its input is only visible on a later call.",
  ["pure_sklearn", "pure_fasttext/FastText.py"],
  [("no writes to self or X at prediction time", "all predict/transform methods"), ("copying of model attributes at conversion", "constructors (.tolist())")],
  ["results of repeated calls", "deep copies of inputs"])

p("C16", "Models that cannot be reproduced are rejected, supported ones are accepted",
  "Conversion never silently yields a model that predicts differently from its source: an unknown estimator class (also a user class derived from a supported one that changes its behaviour) or an unsupported option (encoder column dropping, dummy strategies other than prior, boosters or objectives other than the supported ones, callable tokenizers or analyzers, built-in stop lists, multi-output targets, subword or word-n-gram or non-softmax or quantized fastText models, unsupported losses) raises an error at conversion or at the first call. Every configuration documented as supported converts and agrees with its source.",
  ["configurations"], "all estimator classes and option values, supported and unsupported",
  "The tests convert supported configurations only; no test checks that an unsupported one is refused.",
  ["pure_sklearn/map.py", "pure_sklearn/utils.py", "pure_sklearn/dummy.py", "pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/xgboost/_classes.py", "pure_sklearn/ensemble/_gb.py", "pure_sklearn/tree/_classes.py", "pure_fasttext/FastText.py"],
  [("class mapping", "map.MAPPING/convert_estimator"), ("explicit refusals", "constructors"), ("type audit", "utils.check_types")],
  ["convert_estimator / FastText constructor raising or agreeing"])

p("C17", "Malformed prediction input is refused, not scored",
  "A call whose input breaks a documented requirement raises ValueError or TypeError instead of returning a result: a record width different from training (linear models, gradient boosting, imputers, encoders, tf-idf), sparse input where only dense is supported, centring sparse data, an unseen category when errors are configured, an empty or non-list batch, a bare string or a NaN document given to a vectorizer, an unsupported norm or axis, mismatched or sparse right-hand matrices in pairwise metrics, and a newline in, or prediction from an unsupervised, fastText model.",
  ["inputs", "configurations"], "all models with such a requirement and all inputs that break it",
  "Only one test feeds malformed input (sparse to the generic checker).",
  ["pure_sklearn/utils.py", "pure_sklearn/linear_model/_base.py", "pure_sklearn/impute/_base.py", "pure_sklearn/preprocessing", "pure_sklearn/feature_extraction/text.py", "pure_sklearn/metrics/pairwise.py", "pure_fasttext/FastText.py"],
  [("input audit", "utils.check_array"), ("explicit checks", "decision_function, _raw_predict_init, transform methods")],
  ["exception raised by predict*/transform"])

p("C18", "Probabilities are well formed for inputs of any magnitude",
  "For every probabilistic converted classifier and any finite records, however extreme the scores, each probability row has one entry per class, every entry lies in [0,1], the row sums to one, log-probabilities are the logarithms of the probabilities, and the predicted label has the maximal probability; columns are in the order of the model's classes_, which equal the source's; no overflow, division by zero or NaN occurs where the source model gives a finite answer. Top-k fastText results are sorted by probability, are at or above the threshold, and never exceed k entries.",
  ["inputs", "configurations"], "all probabilistic models and finite records, including score magnitudes beyond the range of exp",
  "The tests see iris-scale scores only, where naive exponentials neither overflow nor underflow.",
  ["pure_sklearn/base.py", "pure_sklearn/linear_model", "pure_sklearn/naive_bayes.py", "pure_sklearn/ensemble/_gb_losses.py", "pure_sklearn/xgboost/_classes.py", "pure_fasttext/FastText.py"],
  [("link functions", "base.sfmax, base.expit, safe_log, safe_exp"), ("normalisation", "_predict_proba_lr, _BaseNBPure.predict_log_proba")],
  ["predict, predict_proba, predict_log_proba"])

p("C19", "Matrix kernels agree with their linear-algebra definitions",
  "The public dense and sparse matrix helpers (dot products, elementwise products, transpose, flattening, cumulative sums, shapes, logistic function, softmax, elementwise and per-axis application, slicing by non-negative column indices, exponential and logarithm) return what the corresponding numpy operation returns on the same data, for any shape and finite values (and for infinities and NaN in the exponential and logarithm). Elementwise operations refuse operands of different shapes and mixed sparse and dense operands.",
  ["inputs"], "all matrix shapes, values, sparsity patterns and column selections",
  "The tests evaluate each helper on one 2x2 matrix without zeros; the logarithm test actually tests the exponential and the softmax test asserts nothing.",
  ["pure_sklearn/base.py", "pure_sklearn/utils.py"],
  [("kernels", "base.py")],
  ["pure_sklearn.base functions"])

p("C20", "Version gate: too-old source models are refused or warned about",
  "A gradient boosting model from scikit-learn older than 0.21 is refused; any other supported model from scikit-learn older than 0.20 converts with a warning, as does one that carries no version; models from 0.20 on convert without a version warning. Version strings are ordered numerically component by component, not as text.",
  ["configurations", "inputs"], "all version strings and supported estimator classes",
  "The tests run with one installed scikit-learn version, so neither the refusal nor the warning is ever reached.",
  ["pure_sklearn/utils.py", "pure_sklearn/ensemble/_gb.py"],
  [("version comparison", "utils.check_version")],
  ["exceptions and warnings of convert_estimator"])

p("C21", "A conversion reproduces the source however the source came to be fitted",
  "The converted model equals its source whichever way the source reached its fitted state: fitted once, fitted again on other data (other width, other classes), by several partial_fit calls, by warm starts with more stages or iterations, or from training data in any accepted representation (memory order, single precision, lists, DataFrame, strided or read-only views, sparse layouts, label lists or Series). The same holds for a source that was since pickled, deep-copied, saved and loaded by joblib or by the library's own model format, or already converted before.",
  ["histories", "configurations"], "all histories of fitting, refitting and storing a supported source model, and its inputs",
  "Every test converts a model freshly fitted once on one C-ordered float64 array; attributes left over from an earlier fit, or restored with another type, are never seen.",
  ["pure_sklearn/map.py", "pure_sklearn/linear_model", "pure_sklearn/ensemble", "pure_sklearn/naive_bayes.py", "pure_sklearn/xgboost/_classes.py", "pure_sklearn/preprocessing", "pure_sklearn/feature_extraction"],
  [("attributes read at conversion", "constructors of the pure classes"), ("booster parsing", "XGBClassifierPure._build_estimators")],
  ["convert_estimator(est).<every method>"])

p("C22", "The numeric type of the input does not change the result",
  "A numerical record means the same whether its values are given as ints, floats, bools, negative zeros or any mixture of them, dense or sparse (and with or without explicitly stored zeros): every model and pairwise function that accepts the record returns the same values for each form.",
  ["inputs"], "all models taking numerical records, and all mixtures of numeric Python types with equal values",
  "The tests always pass float values (or one-typed ints for counts), so integer division, boolean identity tests, type dispatch and truthiness of zero are never exercised.",
  ["pure_sklearn/base.py", "pure_sklearn/utils.py", "pure_sklearn/preprocessing/_data.py", "pure_sklearn/tree/_classes.py", "pure_sklearn/linear_model/_base.py", "pure_sklearn/naive_bayes.py", "pure_sklearn/impute/_base.py"],
  [("arithmetic on records", "all predict/transform methods"), ("element type tests", "utils.check_array, impute._to_impute, sparse_list")],
  ["predict*/transform"])

p("C23", "Text helper functions and public analyzers equal the source library's",
  "strip_accents_unicode, strip_accents_ascii and strip_tags, and the decode, build_preprocessor, build_tokenizer, build_analyzer and get_stop_words methods of converted vectorizers return for any text and any option combination what the functions and methods of the same name return in scikit-learn.",
  ["inputs", "configurations"], "all Unicode texts (combining marks, compatibility forms, tags, surrogate-free astral characters), byte strings and vectorizer options",
  "No test calls any of these; they are only run through transform on ASCII sentences with default options.",
  ["pure_sklearn/feature_extraction/text.py"],
  [("accent stripping and tags", "strip_accents_unicode, strip_accents_ascii, strip_tags"), ("analysis chain", "_VectorizerMixinPure.build_*")],
  ["the functions and methods named in the statement"])

p("C24", "Models stored by earlier supported releases convert alike",
  "A fitted model whose stored state has the layout of an earlier supported release of its library converts to a model that answers exactly as the conversion of the same state in the current layout: without the attributes and options that later releases added (for scikit-learn 0.20 to 0.22: n_features_in_, ccp_alpha, max_samples, the encoders' drop, the imputer's add_indicator, the prior classifier's resolved strategy, l1_ratio, verbose), and with that era's defaults ('warn' for multi_class, which means one versus the rest). The same holds for XGBoost boosters that lack the introspection methods of later releases (the configuration dump, the count of boosted rounds), wherever the model sits in a pipeline, union or ensemble.",
  ["configurations", "inputs"], "all supported estimator classes, supported source releases (from 0.20, gradient boosting from 0.21), options and inputs",
  "The tests convert models of the one installed release only, so the branches for state that lacks newer attributes are never executed.",
  ["pure_sklearn/impute/_base.py", "pure_sklearn/dummy.py", "pure_sklearn/preprocessing/_encoders.py", "pure_sklearn/linear_model/_logistic.py", "pure_sklearn/tree/_classes.py", "pure_sklearn/ensemble", "pure_sklearn/pipeline.py", "pure_sklearn/xgboost/_classes.py"],
  [("optional attributes", "hasattr/getattr branches in the constructors of the pure classes"), ("'warn' as one versus the rest", "LogisticRegressionPure.predict_proba"), ("booster fallbacks", "XGBClassifierPure._get_base_score, _get_n_rounds")],
  ["convert_estimator(est).<every method>"])

p("C25", "The performance comparison reports what it measured",
  "For any source model with a predict method, its conversion and any non-empty array or list of records, performance_comparison prints, in the documented order, the exact pickled size in bytes of the source and of the conversion, the time each takes to unpickle, the time each takes to predict the first record, and after each pair the ratio of the conversion's figure to the source's. Each duration covers all the work of its own model and none of the other's; the conversion is given one plain Python record. The models and the records are left as they were.",
  ["inputs", "configurations"], "all supported models that predict, arrays and lists of numeric or text records, models that are slow to load or to predict",
  "No test calls the function.",
  ["pure_sklearn/utils.py"],
  [("report", "performance_comparison")],
  ["pure_sklearn.utils.performance_comparison(source, converted, X) (standard output)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
