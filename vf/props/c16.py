"""Unsupported models are refused, supported ones are accepted, unusual ones are one or the other."""
import copy
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import cmp, compose, ft, gen, generic, kinds
from ..core import Discard, Prop, Suite, Violation
from ..kinds import KINDS

from pure_sklearn.map import convert_estimator

warnings.simplefilter("ignore")


# ------------------------------------------------------------------ unknown estimators

def _unknown():
    from sklearn import (cluster, decomposition, discriminant_analysis, dummy, ensemble, feature_extraction,
                         feature_selection, gaussian_process, kernel_approximation, linear_model, multiclass,
                         naive_bayes, neighbors, neural_network, preprocessing, semi_supervised, svm, tree, impute,
                         compose as skc, isotonic, calibration)
    C = {
        "svc": lambda: svm.SVC(), "nusvc": lambda: svm.NuSVC(nu=0.1), "svr": lambda: svm.SVR(), "linearsvr": lambda: svm.LinearSVR(),
        "knn": lambda: neighbors.KNeighborsClassifier(2), "centroid": lambda: neighbors.NearestCentroid(),
        "lr": lambda: linear_model.LinearRegression(), "ridge": lambda: linear_model.Ridge(),
        "lasso": lambda: linear_model.Lasso(), "sgdr": lambda: linear_model.SGDRegressor(max_iter=5, tol=None),
        "par": lambda: linear_model.PassiveAggressiveRegressor(max_iter=5, tol=None),
        "ridgecv": lambda: linear_model.RidgeClassifierCV(), "elastic": lambda: linear_model.ElasticNet(),
        "rfr": lambda: ensemble.RandomForestRegressor(2), "etsr": lambda: ensemble.ExtraTreesRegressor(2),
        "gbr": lambda: ensemble.GradientBoostingRegressor(n_estimators=2), "ada": lambda: ensemble.AdaBoostClassifier(n_estimators=2),
        "bagr": lambda: ensemble.BaggingRegressor(n_estimators=2), "rte": lambda: ensemble.RandomTreesEmbedding(2, max_depth=2),
        "iso": lambda: ensemble.IsolationForest(n_estimators=2),
        "bnb": lambda: naive_bayes.BernoulliNB(), "lda": lambda: discriminant_analysis.LinearDiscriminantAnalysis(),
        "dummyr": lambda: dummy.DummyRegressor(), "ovr": lambda: multiclass.OneVsRestClassifier(linear_model.LogisticRegression()),
        "kmeans": lambda: cluster.KMeans(2, n_init=1), "pca": lambda: decomposition.PCA(1), "svd": lambda: decomposition.TruncatedSVD(1),
        "binarizer": lambda: preprocessing.Binarizer(), "robust": lambda: preprocessing.RobustScaler(),
        "power": lambda: preprocessing.PowerTransformer(), "quantile": lambda: preprocessing.QuantileTransformer(n_quantiles=3),
        "poly": lambda: preprocessing.PolynomialFeatures(), "kbins": lambda: preprocessing.KBinsDiscretizer(2),
        "func": lambda: preprocessing.FunctionTransformer(np.abs), "knnimp": lambda: impute.KNNImputer(n_neighbors=1),
        "var": lambda: feature_selection.VarianceThreshold(), "kbest": lambda: feature_selection.SelectKBest(k=1),
        "nys": lambda: kernel_approximation.Nystroem(n_components=2), "rbf": lambda: kernel_approximation.RBFSampler(n_components=2),
        "qda": lambda: discriminant_analysis.QuadraticDiscriminantAnalysis(reg_param=0.5),
    }
    return C


UNK = None
TRANSFORMERS = ["binarizer", "robust", "power", "quantile", "poly", "kbins", "func", "knnimp", "var", "pca", "svd", "nys", "rbf"]
PREDICTORS = ["svc", "nusvc", "knn", "centroid", "ridgecv", "ada", "bnb", "lda", "ovr", "lr", "ridge", "rfr", "etsr", "gbr",
              "bagr", "svr", "linearsvr", "lasso", "sgdr", "par", "elastic", "dummyr", "kmeans", "qda"]


@st.composite
def unknown_case(draw):
    n, d = gen.draw_int(draw, 5, 9), gen.draw_int(draw, 2, 3)
    X = gen.rows(draw, n, d, "float")
    y = [i % 2 for i in range(n)]
    where = gen.pick(draw, ["alone", "alone", "last", "first", "union", "nested", "bagging", "init"])
    pool = {"alone": TRANSFORMERS + PREDICTORS, "last": PREDICTORS, "first": TRANSFORMERS, "union": TRANSFORMERS,
            "nested": TRANSFORMERS, "bagging": ["svc", "knn", "bnb", "lda", "ada", "qda", "centroid"],
            "init": ["knn", "bnb", "lda", "ada", "qda"]}[where]
    return {"X": X, "y": y, "where": where, "name": gen.pick(draw, pool)}


def unknown_check(case, ctx):
    global UNK
    from sklearn.ensemble import BaggingClassifier, GradientBoostingClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import MaxAbsScaler, StandardScaler
    UNK = UNK or _unknown()
    e = UNK[case["name"]]()
    est = {"alone": lambda: e, "last": lambda: Pipeline([("a", StandardScaler()), ("b", e)]),
           "first": lambda: Pipeline([("a", e), ("b", LogisticRegression())]),
           "union": lambda: FeatureUnion([("a", MaxAbsScaler()), ("b", e)]),
           "nested": lambda: Pipeline([("u", FeatureUnion([("p", Pipeline([("q", e)])), ("s", MaxAbsScaler())])), ("c", LogisticRegression())]),
           "bagging": lambda: BaggingClassifier(e, n_estimators=2, random_state=0),
           "init": lambda: GradientBoostingClassifier(init=e, n_estimators=1)}[case["where"]]()
    X, y = np.array(case["X"]), np.array(case["y"])
    cmp.call_ref("fit", est.fit, X, y)
    must_reject(ctx, "%s (%s)" % (case["name"], case["where"]), est, case["X"])
    ctx.event("where:" + case["where"])


def must_reject(ctx, what, est, rows, convert=None):
    try:
        pure = (convert or convert_estimator)(est)
    except Exception:
        ctx.nt("refused at conversion")
        return
    called = False
    for m in ("predict", "transform", "predict_proba", "decision_function"):
        if hasattr(pure, m) and hasattr(est, m):
            called = True
            try:
                r = getattr(pure, m)(copy.deepcopy(rows))
            except Exception:
                continue
            try:
                want = cmp.brief(getattr(est, m)(np.array(rows) if not isinstance(rows[0], (str, dict)) else rows))
            except Exception as e:
                want = repr(e)
            ctx.fail("%s: converted, and %s returns %s (source: %s)" % (what, m, cmp.brief(r), want))
    ctx.require(called, lambda: "%s: converted to an object without any method" % what)
    ctx.nt("refused at the first call")


# ------------------------------------------------------------------ derived classes

class _Twist:
    """Mixed into a class derived from a supported one, which then predicts differently."""

    def predict(self, X):
        return super().predict(X)[::-1]

    def predict_proba(self, X):
        return super().predict_proba(X)[:, ::-1]

    def transform(self, X):
        return super().transform(X) * 2


@st.composite
def derived_case(draw):
    c = generic.gen_case(draw, [k for k in generic.LIGHT if k != "compose"] + ["xgb"])
    return {"c": c, "name": gen.pick(draw, ["My%s", "%sCV", "%sX", "Tuned%s"]), "where": gen.pick(draw, ["alone", "alone", "step"])}


def derived_check(case, ctx):
    from sklearn.pipeline import Pipeline
    c = case["c"]
    k, est = kinds.fitted(c)
    base = type(est)
    rows = k.rows(c, est)
    est.__class__ = type(case["name"] % base.__name__, (_Twist, base), {})
    what = "%s derived from %s" % (type(est).__name__, base.__name__)
    if case["where"] == "step":
        est = Pipeline([("only", est)])
    must_reject(ctx, what, est, rows)
    ctx.event("derived:" + base.__name__)


# ------------------------------------------------------------------ unsupported options

def _tok(s):
    return s.split("a")


def _pre(s):
    return s[::-1]


def _ana(s):
    return [s[:1], s[-1:]]


def _acc(s):
    return s.replace("c", "k")


VECS = ["count", "tfidfvec", "hashing"]
REJECT = {
    "drop_first": (["onehot"], lambda: {"drop": "first", "handle_unknown": "error"}),
    "drop_binary": (["onehot"], lambda: {"drop": "if_binary", "handle_unknown": "error"}),
    "drop_listed": (["onehot"], lambda c: {"drop": list(c["X"][0]), "handle_unknown": "error"}),
    "drop_listed_array": (["onehot"], lambda c: {"drop": np.array(c["X"][-1], dtype=object), "handle_unknown": "error"}),
    "most_frequent": (["dummy"], lambda: {"strategy": "most_frequent"}),
    "stratified": (["dummy"], lambda: {"strategy": "stratified", "random_state": 0}),
    "uniform": (["dummy"], lambda: {"strategy": "uniform", "random_state": 0}),
    "tokenizer": (VECS, lambda: {"tokenizer": _tok, "analyzer": "word", "token_pattern": r"\w+"}),
    "preprocessor": (VECS, lambda: {"preprocessor": _pre}),
    "analyzer": (VECS, lambda: {"analyzer": _ana}),
    "english": (VECS, lambda: {"stop_words": "english", "analyzer": "word"}),
    "gblinear": (["xgb"], lambda: {"booster": "gblinear", "gamma": None, "max_depth": None, "min_child_weight": None,
                                   "subsample": None, "tree_method": None, "num_parallel_tree": None}),
    "dart": (["xgb"], lambda: {"booster": "dart", "rate_drop": 0.5}),
    "logitraw": (["xgb"], lambda: {"objective": "binary:logitraw"}),
    "hinge": (["xgb"], lambda: {"objective": "binary:hinge"}),
    "softmax": (["xgb"], lambda: {"objective": "multi:softmax"}),
    "squarederror": (["xgb"], lambda: {"objective": "reg:squarederror"}),
    "poisson": (["xgb"], lambda: {"objective": "count:poisson"}),
}


@st.composite
def option_case(draw):
    o = gen.pick(draw, sorted(REJECT))
    k = gen.pick(draw, REJECT[o][0])
    c = KINDS[k].gen(draw)
    c["k"] = k
    if k == "onehot":
        c.pop("cats", None)
        c["T"] = [list(r) for r in c["X"]]
    if k == "xgb":
        c["early"] = False
        c["names"] = False
        c["p"]["base_score"] = 0.5
    if k in VECS:
        c.pop("enc", None)
    return {"c": c, "opt": o}


def with_odd(kind, settings, fn):
    kinds.ODD.update(kind=kind, set=settings)
    try:
        return fn()
    finally:
        kinds.ODD.clear()


def option_check(case, ctx):
    c, o = case["c"], case["opt"]
    k = KINDS[c["k"]]
    settings = REJECT[o][1]
    if o.startswith("drop_listed"):
        settings = lambda: REJECT[o][1](c)
    est = with_odd(c["k"], settings, lambda: cmp.call_ref("fit", k.fit, c))
    if c["k"] == "xgb" and getattr(est, "objective", "") in ("binary:logistic", "multi:softprob") and o not in ("gblinear", "dart"):
        raise Discard("the library replaced the objective")
    if c["k"] == "onehot" and all(v is None for v in (est.drop_idx_ if est.drop_idx_ is not None else [])):
        raise Discard("nothing dropped")
    must_reject(ctx, "%s(%s)" % (c["k"], o), est, c["T"])
    ctx.event("option:" + o)


# ------------------------------------------------------------------ multi-output targets

@st.composite
def multi_case(draw):
    n, d = gen.draw_int(draw, 5, 10), gen.draw_int(draw, 1, 3)
    return {"X": gen.rows(draw, n, d, "float"), "bits": gen.raw_bytes(draw, 2 * n), "outs": gen.draw_int(draw, 2, 3),
            "cls": gen.pick(draw, ["dtc", "etc", "dtr", "etr", "rf", "extratrees", "dummy", "ridge", "pipe"])}


def multi_check(case, ctx):
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import ExtraTreesClassifier, RandomForestClassifier
    from sklearn.linear_model import RidgeClassifier
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor
    n = len(case["X"])
    y = np.array([[(case["bits"][(i + 3 * j) % len(case["bits"])] >> j) & 1 for j in range(case["outs"])] for i in range(n)])
    y[0], y[-1] = 0, 1
    est = {"dtc": lambda: DecisionTreeClassifier(random_state=0), "etc": lambda: ExtraTreeClassifier(random_state=0),
           "dtr": lambda: DecisionTreeRegressor(random_state=0), "etr": lambda: ExtraTreeRegressor(random_state=0),
           "rf": lambda: RandomForestClassifier(2, random_state=0), "extratrees": lambda: ExtraTreesClassifier(2, random_state=0),
           "dummy": lambda: DummyClassifier(strategy="prior"), "ridge": lambda: RidgeClassifier(),
           "pipe": lambda: make_pipeline(StandardScaler(), DecisionTreeClassifier(random_state=0))}[case["cls"]]()
    X = np.array(case["X"])
    cmp.call_ref("fit", est.fit, X, y)
    must_reject(ctx, "%s with %d outputs" % (case["cls"], case["outs"]), est, case["X"])
    ctx.event("multi-output " + case["cls"])


# ------------------------------------------------------------------ fastText

@st.composite
def ft_case(draw):
    o = gen.pick(draw, ["ngrams", "subwords_sup", "subwords_unsup", "hs", "ns", "ova", "quantized"])
    m = ft.gen_file(draw, "supervised" if o != "subwords_unsup" else gen.pick(draw, ["cbow", "skipgram"]), min_labels=2)
    if ft.EOS not in m["words"]:
        m["words"].append(ft.EOS)
        m["inp"].append([0.5] * m["dim"])
    if o == "ngrams":
        m.update(wordNgrams=gen.pick(draw, [2, 3, 5]), bucket=gen.pick(draw, [7, 50]))
    elif o.startswith("subwords"):
        m.update(minn=gen.pick(draw, [0, 1, 2, 3]), bucket=gen.pick(draw, [7, 50]))
        m["maxn"] = m["minn"] + gen.pick(draw, [0, 1, 3] if m["minn"] else [1, 3])
    elif o in ("hs", "ns", "ova"):
        m["loss"] = o
    return {"opt": o, "m": m, "texts": ft.texts(draw, m, 1, 3)}


def ft_check(case, ctx):
    from pure_fasttext import FastText
    o = case["opt"]
    if o == "quantized":
        s = dict(case["m"])
        s["words"] = s["words"] + ["w%d" % i for i in range(300)]
        m = ft.build(s)
        try:
            m.quantize(verbose=0, thread=1, dsub=1)
        except (ValueError, RuntimeError) as e:
            raise Discard("ref-quantize:" + type(e).__name__)
        if not m.is_quantized():
            raise Discard("not quantized")
    else:
        m = ft.build(case["m"])
    try:
        pure = FastText(m)
    except Exception:
        ctx.nt("refused at conversion")
        ctx.event("fastText " + o)
        return
    calls = ["get_sentence_vector"] if case["m"]["model"] != "supervised" else ["predict"]
    for c in calls:
        for t in case["texts"]:
            try:
                r = getattr(pure, c)(t)
            except Exception:
                ctx.nt("refused at the first call")
                ctx.event("fastText " + o)
                continue
            ctx.fail("fastText %s model: converted, and %s(%r) returns %s" % (o, c, t, cmp.brief(r)))


# ------------------------------------------------------------------ unusual options: refused, or faithful

def _svc():
    from sklearn.svm import SVC
    return SVC(probability=False)


def _ridge():
    from sklearn.linear_model import RidgeClassifier
    return RidgeClassifier()


def _rf2():
    from sklearn.ensemble import RandomForestClassifier
    return RandomForestClassifier(2, random_state=0)


def _gb2():
    from sklearn.ensemble import GradientBoostingClassifier
    return GradientBoostingClassifier(n_estimators=2, random_state=0)


def _bag2():
    from sklearn.ensemble import BaggingClassifier
    return BaggingClassifier(n_estimators=2, random_state=0)


def _lr():
    from sklearn.linear_model import LogisticRegression
    return LogisticRegression(max_iter=20)


def _sgd():
    from sklearn.linear_model import SGDClassifier
    return SGDClassifier(loss="log", max_iter=5, tol=None, random_state=0)


def _mh():
    from sklearn.linear_model import SGDClassifier
    return SGDClassifier(loss="modified_huber", max_iter=5, tol=None, random_state=0)


def _xgb():
    from xgboost import XGBClassifier
    return XGBClassifier(booster="gbtree", n_estimators=2, max_depth=2, verbosity=0, n_jobs=1)


UNUSUAL = {
    "logreg": {"l1": lambda: {"penalty": "l1", "solver": "liblinear", "multi_class": "auto"}, "none": lambda: {"penalty": "none", "solver": "lbfgs"},
               "balanced": lambda: {"class_weight": "balanced"}, "saga": lambda: {"solver": "saga", "penalty": "elasticnet", "l1_ratio": 0.5},
               "scaling": lambda: {"intercept_scaling": 10.0}, "warm": lambda: {"warm_start": True},
               "dual": lambda: {"solver": "liblinear", "dual": True, "multi_class": "auto"}},
    "ridge": {"balanced": lambda: {"class_weight": "balanced"}, "sag": lambda: {"solver": "sag", "normalize": False},
              "lsqr": lambda: {"solver": "lsqr"}, "copy": lambda: {"copy_X": False}},
    "sgd": {"huber": lambda: {"loss": "huber"}, "sq": lambda: {"loss": "squared_loss", "alpha": 1.0}, "eps": lambda: {"loss": "epsilon_insensitive"},
            "sqeps": lambda: {"loss": "squared_epsilon_insensitive", "alpha": 1.0}, "balanced": lambda: {"class_weight": "balanced"},
            "adaptive": lambda: {"learning_rate": "adaptive", "eta0": 0.1}, "avg": lambda: {"average": 3}, "noshuffle": lambda: {"shuffle": False}},
    "perceptron": {"balanced": lambda: {"class_weight": "balanced"}, "l1": lambda: {"penalty": "l1"}, "eta": lambda: {"eta0": 0.1}},
    "passive": {"avg": lambda: {"average": True}, "balanced": lambda: {"class_weight": "balanced"}},
    "linearsvc": {"l1": lambda: {"penalty": "l1", "dual": False, "loss": "squared_hinge", "multi_class": "ovr"},
                  "scaling": lambda: {"intercept_scaling": 5.0}, "balanced": lambda: {"class_weight": "balanced"}},
    "dtc": {"random": lambda: {"splitter": "random"}, "feat": lambda: {"max_features": 1}, "impurity": lambda: {"min_impurity_decrease": 0.1},
            "leaf": lambda: {"min_weight_fraction_leaf": 0.2}},
    "dtr": {"mae": lambda: {"criterion": "mae"}, "random": lambda: {"splitter": "random"}, "leaves": lambda: {"max_leaf_nodes": 3}},
    "rf": {"oob": lambda: {"oob_score": True, "bootstrap": True}, "warm": lambda: {"warm_start": True}, "samples": lambda: {"max_samples": 0.5, "bootstrap": True},
           "jobs": lambda: {"n_jobs": 2}, "entropy": lambda: {"criterion": "entropy"}},
    "extratrees": {"warm": lambda: {"warm_start": True}, "entropy": lambda: {"criterion": "entropy", "max_features": None}},
    "bagging": {"svc": lambda: {"base_estimator": _svc()}, "ridge": lambda: {"base_estimator": _ridge()}, "rf": lambda: {"base_estimator": _rf2()},
                "gb": lambda: {"base_estimator": _gb2()}, "bagging": lambda: {"base_estimator": _bag2()}, "oob": lambda: {"oob_score": True, "bootstrap": True},
                "sgd": lambda: {"base_estimator": _sgd()}, "huber": lambda: {"base_estimator": _mh()}, "warm": lambda: {"warm_start": True}},
    "gb": {"mae": lambda: {"criterion": "mae"}, "mse": lambda: {"criterion": "mse"}, "feat": lambda: {"max_features": 1}, "warm": lambda: {"warm_start": True},
           "initrf": lambda: {"init": _rf2()}, "initsgd": lambda: {"init": _sgd()}, "initgb": lambda: {"init": _gb2()},
           "leaves": lambda: {"max_leaf_nodes": 3}, "impurity": lambda: {"min_impurity_decrease": 0.1}, "ccp": lambda: {"ccp_alpha": 0.05}},
    "xgb": {"none": lambda: {"booster": None}, "missing0": lambda: {"missing": 0.0}, "missing1": lambda: {"missing": 1.0}, "missinghalf": lambda: {"missing": 0.5},
            "lossguide": lambda: {"tree_method": "hist", "grow_policy": "lossguide", "max_leaves": 4, "max_depth": 0}, "exact": lambda: {"tree_method": "exact"},
            "approx": lambda: {"tree_method": "approx"}, "alpha": lambda: {"reg_alpha": 1.0, "reg_lambda": 0.0}, "cols": lambda: {"colsample_bytree": 0.5},
            "delta": lambda: {"max_delta_step": 1.0}, "weight": lambda: {"scale_pos_weight": 5.0}, "mono": lambda: {"monotone_constraints": {0: 1}},
            "softprob": lambda: {"objective": "multi:softprob"}, "zero": lambda: {"n_estimators": 1, "gamma": 1000.0},
            "base": lambda: {"base_score": 0.9}},
    "gnb": {}, "mnb": {}, "cnb": {},
    "onehot": {"dropnone": lambda: {"drop": None}}, "ordinal": {},
    "count": {"set": lambda: {"stop_words": {"the", "cat"}}, "tuple": lambda: {"stop_words": ("the", "cat")}, "frozen": lambda: {"stop_words": frozenset(["a", "cat"])},
              "accents": lambda: {"strip_accents": _acc}, "mindf": lambda: {"min_df": 2, "max_df": 1.0}, "maxdf": lambda: {"max_df": 0.6},
              "vocset": lambda: {"vocabulary": {"cat", "the", "sat"}}, "vocdict": lambda: {"vocabulary": {"cat": 0, "the": 2, "sat": 1}},
              "group": lambda: {"token_pattern": r"(\w)(\w)", "analyzer": "word"}, "int8": lambda: {"dtype": np.int8}, "bool": lambda: {"dtype": bool}},
    "tfidfvec": {"set": lambda: {"stop_words": {"the", "cat"}}, "accents": lambda: {"strip_accents": _acc}, "vocset": lambda: {"vocabulary": {"cat", "the", "sat"}},
                 "vocdict": lambda: {"vocabulary": {"cat": 0, "the": 2, "sat": 1}}},
    "hashing": {"set": lambda: {"stop_words": {"the", "cat"}}, "accents": lambda: {"strip_accents": _acc}, "tuple": lambda: {"stop_words": ("the", "cat")}},
    "imputer": {"nocopy": lambda: {"copy": False}, "verbose": lambda: {"verbose": 1}},
    "indicator": {"sparse": lambda: {"sparse": True}, "auto": lambda: {"sparse": "auto"}},
    "dictvec": {"sep": lambda: {"separator": "=="}, "int32": lambda: {"dtype": np.int32}},
    "std": {"nocopy": lambda: {"copy": False}}, "minmax": {"nocopy": lambda: {"copy": False}}, "maxabs": {"nocopy": lambda: {"copy": False}},
    "normalizer": {"nocopy": lambda: {"copy": False}}, "dummy": {"const": lambda: {"strategy": "constant", "constant": None}},
    "tfidftr": {},
}
UNUSUAL_LIST = sorted((k, o) for k in UNUSUAL for o in UNUSUAL[k])


@st.composite
def unusual_case(draw, names):
    k, o = gen.pick(draw, [x for x in UNUSUAL_LIST if x[0] in names])
    c = KINDS[k].gen(draw)
    c["k"] = k
    if k == "xgb":
        c["pr"] = c["pr"][:2]
        if o in ("approx", "exact", "lossguide"):
            c["p"]["tree_method"] = None
            c["p"].pop("num_parallel_tree", None)
        if o == "missing0" or o.startswith("missing"):
            for rows in (c["X"], c["T"]):
                for r in rows:
                    for j, v in enumerate(r):
                        if v != v:
                            r[j] = {"missing0": 0.0, "missing1": 1.0, "missinghalf": 0.5}[o]
    if k == "bagging":
        c["xs"] = c["ts"] = False
        c["p"]["base"] = "gnb" if o in ("sgd", "huber", "gb") else c["p"]["base"]
    if k == "gb" and o == "initsgd":
        c["p"]["init"] = "logreg"
    return {"c": c, "opt": o}


def unusual_check(case, ctx):
    c, o = case["c"], case["opt"]
    k = KINDS[c["k"]]
    settings = UNUSUAL[c["k"]][o]
    est = with_odd(c["k"], settings, lambda: cmp.call_ref("fit", k.fit, c))
    if c["k"] in ("gb", "bagging") and "initsgd" == o:
        pass
    ctx.event("option:%s/%s" % (c["k"], o))
    try:
        pure = kinds.convert(est)
    except cmp.PureRaised:
        ctx.event("refused at conversion")
        ctx.nt()
        return
    rows = k.rows(c, est)
    try:
        k.compare(ctx, c, est, pure, rows)
    except cmp.PureRaised:
        ctx.event("refused at the call")
        ctx.nt()
        return
    ctx.event("faithful")
    ctx.nt()


# ------------------------------------------------------------------ documented configurations convert and agree

def accept_check(case, ctx):
    if case["k"] == "fasttext":
        m = generic.Model(case)
        for meth in m.methods:
            cmp.call_pure(meth, m.call, meth, m.rows)
        ctx.nt("kind:fasttext")
        return
    kinds.differential(case, ctx)
    ctx.events = {"kind:" + case["k"]}


PROP = Prop("C16", [
    Suite("unknown_estimators", unknown_case, unknown_check, 1500),
    Suite("derived_classes", derived_case, derived_check, 800),
    Suite("unsupported_options", option_case, option_check, 3000),
    Suite("multi_output", multi_case, multi_check, 1200),
    Suite("fasttext", ft_case, ft_check, 1500),
    Suite("unusual_options", lambda: unusual_case([k for k in UNUSUAL if k != "xgb"]), unusual_check, 6000),
    Suite("unusual_xgb", lambda: unusual_case(["xgb"]), unusual_check, 800),
    Suite("accepted", lambda: generic.cases(generic.ALL), accept_check, 2500),
])
