"""However a source model came to its fitted state, its conversion reproduces it."""
import copy
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import big, cmp, compose, gen, generic, kinds
from ..core import Discard, Prop, Suite
from ..kinds import KINDS, convert

PARTIAL = ("sgd", "perceptron", "passive", "gnb", "mnb", "cnb", "std", "minmax", "maxabs")
WARM = ("rf", "extratrees", "bagging", "gb", "logreg", "sgd", "perceptron", "passive")
FORMS = ("fortran", "float32", "lists", "frame", "sliced", "ylist", "yseries", "csc", "readonly")
NUMERIC = ("logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "dtr", "etr", "rf", "extratrees",
           "bagging", "gb", "gnb", "mnb", "cnb", "dummy", "std", "minmax", "maxabs", "normalizer", "tfidftr")
SPARSE_FIT = ("logreg", "sgd", "perceptron", "passive", "linearsvc", "dtc", "rf", "tfidftr", "maxabs", "normalizer")


@st.composite
def case_s(draw, names):
    n = gen.pick(draw, names)
    c = kinds.generate(draw, n)
    if gen.pick(draw, [0, 0, 1]):
        c["np"] = True
    how = ["plain", "refit", "refit"]
    if n in PARTIAL:
        how += ["partial"] * 4
    if n in WARM:
        how += ["warm"] * 4
    out = {"c": c, "how": gen.pick(draw, how), "cut": gen.draw_int(draw, 1, 6),
           "after": [gen.pick(draw, ["pickle", "deepcopy", "joblib", "native", "state", "again", "set", "set"]) for _ in range(gen.draw_int(draw, 0, 2))],
           "set": gen.draw_int(draw, 0, 40), "proto": gen.draw_int(draw, 0, 5), "ext": gen.pick(draw, ["json", "ubj", "bin"])}
    if n in NUMERIC:
        out["form"] = gen.pick(draw, ["as is"] + list(FORMS))
    return out


def shaped(form, k, X, y):
    """The same training data in another representation."""
    import pandas as pd
    if form == "fortran" and not sp.issparse(X):
        X = np.asfortranarray(X)
    elif form == "float32" and not sp.issparse(X):
        if k == "maxabs":                            # the source would scale sparse records by single precision reciprocals
            return X, y
        if not np.array_equal(X.astype(np.float32).astype(float), X):
            return X, y                              # keep the problem the same one
        X = X.astype(np.float32)
    elif form == "lists" and not sp.issparse(X):
        X = X.tolist()
    elif form == "frame" and not sp.issparse(X):
        X = pd.DataFrame(X, columns=["c%d" % (len(X[0]) - i) for i in range(len(X[0]))])
    elif form == "sliced" and not sp.issparse(X):
        wide = np.zeros((2 * X.shape[0], 2 * X.shape[1]))
        wide[::2, ::2] = X
        X = wide[::2, ::2]
    elif form == "csc" and k in SPARSE_FIT:
        X = sp.csc_matrix(X)
    elif form == "readonly" and not sp.issparse(X):
        X = X.copy()
        X.setflags(write=False)
    elif form == "ylist" and y is not None:
        y = y.tolist()
    elif form == "yseries" and y is not None:
        y = pd.Series(y, index=range(5, 5 + len(y)))
    return X, y


class Patched:
    """The kind's own fitting code, run on a given estimator object and training data."""

    def __init__(self, k, est=None, form=None):
        self.k, self.est, self.form = k, est, form

    def __enter__(self):
        if self.est is not None:
            self.k.make = lambda p: self.est
        if self.form:
            orig = type(self.k).train
            self.k.train = lambda case: shaped(self.form, case["k"], *orig(self.k, case))

    def __exit__(self, *a):
        self.k.__dict__.pop("make", None)
        self.k.__dict__.pop("train", None)


def other_data(c):
    """Another training set for the same estimator object: other width, other rows, fewer classes."""
    n = c["k"]
    o = dict(c)
    o["X"] = list(c["X"])[::-1]
    if n in NUMERIC + ("xgb", "imputer", "indicator") and c.get("X") and not c.get("cats"):
        o = big.enlarge(o, "wide", 2)
    elif n in ("onehot", "ordinal") and not c.get("cats"):
        o["X"] = [r + r[:1] for r in o["X"][:-1] or o["X"]]
    elif n == "dictvec":
        o["X"] = [{"other": 1, "a": "q"}] + o["X"][:1]
    elif n in ("count", "tfidfvec", "hashing"):
        o["X"] = ["zebra cat the other words", "zebra"] + o["X"][-1:]
    o.pop("sw", None)
    return o


def fit_on(k, est, case):
    X, y = k.train(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(X) if y is None else est.fit(X, y, **k.fit_params(case))


def build(case, ctx):
    c, how = case["c"], case["how"]
    k = KINDS[c["k"]]
    form = case.get("form")
    form = None if form == "as is" else form
    if how == "plain" or (how == "refit" and c["k"] == "compose"):
        with Patched(k, form=form):
            est = k.fit(c)
            if how == "refit":
                X, y = k.train(c)
                est.fit(X) if y is None else est.fit(X, y)
    elif how == "refit":
        with Patched(k):
            est = k.fit(other_data(c))
        if c["k"] == "xgb":
            est.set_params(early_stopping_rounds=None)
        if "warm_start" in est.get_params(deep=False):
            est.set_params(warm_start=False)         # the other data has another width
        with Patched(k, est, form):
            est = k.fit(c)
    elif how == "partial":
        est = k.make(k.params(c))
        with Patched(k, form=form):
            X, y = k.train(c)
        if not hasattr(X, "__getitem__") or isinstance(X, list) or sp.issparse(X) or hasattr(X, "iloc"):
            X, y = type(k).train(k, c)
        n = X.shape[0]
        h = max(1, case["cut"] * n // 7)
        kw = {} if y is None else {"classes": np.unique(y)}
        for i, (a, b) in enumerate([(0, h), (h, n)]):
            if b > a:
                if y is None:
                    est.partial_fit(X[a:b])
                else:
                    est.partial_fit(X[a:b], y[a:b], **(kw if i == 0 else {}))
        ctx.event("partial_fit")
    else:
        est = k.make(k.params(c))
        p = est.get_params()
        est.set_params(warm_start=True)
        if "n_estimators" in p and "n_iter_no_change" not in c["p"]:
            est.set_params(n_estimators=max(1, c["p"].get("n_estimators", 3) // 2))
            with Patched(k, est, form):
                est = k.fit(c)
            est.set_params(n_estimators=c["p"].get("n_estimators", 3) + case["cut"])
        elif "max_iter" in p:
            with Patched(k, est, form):
                est = k.fit(c)
            est.set_params(max_iter=p["max_iter"] + 2)
        with Patched(k, est, form):
            est = k.fit(c)
        ctx.event("warm start")
    return k, est


# parameters that only reach training: changing them on a fitted object says nothing about the model it holds
AFTER_FIT = {"n_estimators": [1, 2, 50], "max_depth": [1, 9], "max_iter": [1], "C": [7.5], "alpha": [3.0], "random_state": [5], "tol": [0.5],
             "max_features": [0.5], "min_samples_leaf": [3], "criterion": ["mae"], "class_weight": [None, "balanced"], "fit_intercept": [True, False],
             "warm_start": [True, False], "bootstrap": [True, False], "base_estimator": [None], "subsample": [0.3], "learning_rate": [9.0],
             "penalty": ["l1", "none"], "solver": ["saga"], "var_smoothing": [1.0], "fit_prior": [True, False], "priors": [None, "new"],
             "class_prior": [None, "new"], "n_jobs": [1], "copy": [True], "min_df": [4], "max_df": [0.1], "strategy": ["prior", "constant", "most_frequent"],
             "feature_range": [(3, 4)], "init": ["zero"], "n_iter_no_change": [1], "max_leaf_nodes": [2], "sort": [True, False]}
# what an estimator reads again when it predicts
LIVE = {"logreg": ("solver", "multi_class", "penalty"), "bagging": ("n_estimators",), "dummy": ("strategy", "constant", "random_state"),
        "imputer": ("missing_values", "strategy"), "indicator": ("missing_values",), "std": ("with_mean", "with_std"),
        "gb": ("init",), "compose": tuple(AFTER_FIT), "xgb": ("n_estimators", "n_jobs"), "minmax": ("feature_range",),
        "tfidftr": (), "mnb": ("alpha",), "cnb": ("alpha", "norm")}


def retuned(est, case, ctx):
    k = case["c"]["k"]
    names = sorted(n for n in est.get_params(deep=False) if n in AFTER_FIT and n not in LIVE.get(k, ()))
    if names:
        a = case.get("set", 0)
        names += [n for n in names if n in ("n_estimators", "learning_rate", "fit_intercept")] * 3
        n = names[a % len(names)]
        old = est.get_params(deep=False)[n]
        v = AFTER_FIT[n][a // 7 % len(AFTER_FIT[n])]
        if v == "new":
            v = [(i + 1) / sum(range(1, len(est.classes_) + 1)) for i in range(len(est.classes_))]
        try:
            est.set_params(**{n: v})
        except ValueError:                           # some check the value at once, after setting it
            setattr(est, n, old)
            return est
        ctx.event("set after the fit:" + n)
    return est


def stored(est, case, ctx):
    for op in case["after"]:
        tmp = tempfile.mkdtemp(prefix="vfst")
        try:
            if op == "pickle":
                est = pickle.loads(pickle.dumps(est, protocol=case["proto"]))
            elif op == "deepcopy":
                est = copy.deepcopy(est)
            elif op == "joblib":
                import joblib
                f = os.path.join(tmp, "m.joblib")
                joblib.dump(est, f, compress=case["proto"])
                est = joblib.load(f)
            elif op == "state":
                new = type(est).__new__(type(est))
                if hasattr(new, "__setstate__") and hasattr(est, "__getstate__"):
                    new.__setstate__(est.__getstate__())
                    est = new
            elif op == "native" and case["c"]["k"] == "xgb":
                f = os.path.join(tmp, "m." + case["ext"])
                est.save_model(f)
                new = type(est)()
                new.load_model(f)
                ctx.event("saved and loaded by the library")
                est = new
            elif op == "set":
                est = retuned(est, case, ctx)
            elif op == "again":
                convert(est)                         # converting reads the source, it does not use it up
            ctx.event("after:" + op)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return est


def check(case, ctx):
    c = case["c"]
    if c["k"] == "xgb":
        c = dict(c, names=False) if "native" in case["after"] else c
        case = dict(case, c=c)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            k, est = build(case, ctx)
    except Discard:
        raise
    except Exception as e:
        raise Discard("ref-fit:" + type(e).__name__)
    try:
        est = stored(est, case, ctx)
    except Discard:
        raise
    pure = convert(est)
    rows = k.rows(c, est)
    k.compare(ctx, c, est, pure, rows)
    ctx.event("how:" + case["how"])
    ctx.event("form:" + str(case.get("form")))
    if case["how"] != "plain" or case["after"] or case.get("form") not in (None, "as is"):
        if not ctx.nontrivial and len(rows) > 0:
            k.nontrivial(ctx, c, est, rows)
    else:
        ctx.nontrivial = False


OTHER = ["onehot", "ordinal", "dictvec", "imputer", "indicator", "count", "tfidfvec", "hashing", "compose", "compose"]
PROP = Prop("C21", [
    Suite("numeric", lambda: case_s(list(NUMERIC)), check, 8000),
    Suite("other", lambda: case_s(OTHER), check, 3000),
    Suite("xgb", lambda: case_s(["xgb"]), check, 500),
])
