"""Registry of model kinds: how to generate, fit, convert, feed and compare each of them.

A case is {"k": kind, "p": params, "X": rows, "y": labels|None, "T": test rows, ...}; everything
else (fitted source model, converted model, numpy inputs) is derived from it deterministically.
"""
import collections
import collections.abc
import copy
import math
import types
import warnings

import numpy as np
import scipy.sparse as sp

from . import cmp, gen
from .gen import draw_int
from .core import Discard, Violation

warnings.simplefilter("ignore")

from pure_sklearn.map import convert_estimator  # noqa: E402
from pure_sklearn.utils import issparse, sparse_list, tosparse  # noqa: E402,F401

KINDS = {}
DTYPES = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32,
          "float": float, "int": int, "uint8": np.uint8, "int16": np.int16, "bool": np.bool_, "pybool": bool}
# widths and kinds less used than the first three
DT = ["float64", "int64", "float32"] * 3 + ["float", "int", "int32", "uint8", "int16", "bool", "pybool"]


ODD = {}         # set while a case with unusual hyper-parameters is run: {"set": {...}}


def kind(cls):
    make = cls.make

    def made(self, p, make=make):
        est = make(self, p)
        if ODD.get("kind") == self.name:
            est.set_params(**ODD["set"]())
        return est

    cls.make = made
    KINDS[cls.name] = cls()
    return cls


def convert(est):
    return cmp.call_pure("convert_estimator(%s)" % type(est).__name__, convert_estimator, est)


def np_objects(a):
    """An object array whose elements are numpy scalars."""
    flat = a.ravel().tolist()
    for i, v in enumerate(flat):
        t = {str: np.str_, float: np.float64, int: np.int64, bool: np.bool_}.get(type(v))
        if t:
            flat[i] = t(v)
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = v
    return out.reshape(a.shape)


def npify(params):
    """The same hyper-parameters held as numpy scalars (numpy containers are left alone)."""
    out = {}
    for k, v in params.items():
        if isinstance(v, bool) or v is None:
            out[k] = v
        elif isinstance(v, float):
            out[k] = np.float64(v)
        elif isinstance(v, str):
            out[k] = np.str_(v)
        elif isinstance(v, tuple) and v and all(isinstance(t, float) for t in v):
            out[k] = tuple(np.float64(t) for t in v)
        elif isinstance(v, list) and v and all(isinstance(t, str) for t in v):
            out[k] = [np.str_(t) for t in v]
        else:
            out[k] = v
    return out


class Kind:
    name = None
    family = "numeric"          # input type: numeric | dict | text | cat
    methods = ("predict",)
    sparse_ok = False
    proba = False

    def gen(self, draw):
        raise NotImplementedError

    def make(self, p):
        raise NotImplementedError

    def params(self, case):
        return npify(case["p"]) if case.get("np") else case["p"]

    def fit(self, case):
        est = self.make(self.params(case))
        X, y = self.train(case)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if y is None:
                est.fit(X)
            else:
                est.fit(X, y, **self.fit_params(case))
        return est

    def fit_params(self, case):
        if case.get("sw"):
            return {"sample_weight": np.array(case["sw"], dtype=float)}
        return {}

    def train(self, case):
        X = np.array(case["X"], dtype=float)
        if case.get("xs"):
            X = sp.csr_matrix(X)
        y = case.get("y")
        if y is not None:
            y = np.array(y, dtype=object) if case.get("pool") == "obj" else np.array(y)
            if case.get("np") and y.dtype == object:
                y = np_objects(y)
        return X, y

    def rows(self, case, est):
        """Test rows as the pure model receives them (lists of plain values)."""
        return case["T"]

    def ref(self, rows):
        return np.array(rows, dtype=float)

    def ref_sparse(self, rows):
        return sp.csr_matrix(np.array(rows, dtype=float))

    def offered(self, case, est):
        """Methods the converted model must offer."""
        return list(self.methods)

    def compare(self, ctx, case, est, pure, rows):
        raise NotImplementedError

    def strat(self):
        from hypothesis import strategies as st

        @st.composite
        def s(draw):
            return generate(draw, self.name, self)

        return s()


OPTIONS = {
    "logreg": [{"penalty": "none"}, {"penalty": "l1", "solver": "liblinear", "multi_class": "ovr"}, {"penalty": "l1", "solver": "saga"},
               {"penalty": "elasticnet", "solver": "saga", "l1_ratio": 0.5}, {"dual": True, "solver": "liblinear", "multi_class": "auto"},
               {"class_weight": "balanced"}, {"intercept_scaling": 10.0, "solver": "liblinear", "multi_class": "ovr"}, {"tol": 0.1},
               {"warm_start": True}, {"random_state": 1}],
    "ridge": [{"class_weight": "balanced"}, {"solver": "svd"}, {"solver": "lsqr"}, {"solver": "sparse_cg"}, {"solver": "sag"}, {"solver": "saga"},
              {"tol": 0.1}, {"copy_X": False}, {"max_iter": 3}],
    "sgd": [{"class_weight": "balanced"}, {"learning_rate": "constant", "eta0": 0.5}, {"learning_rate": "invscaling", "eta0": 1.0, "power_t": 0.2},
            {"learning_rate": "adaptive", "eta0": 0.3}, {"l1_ratio": 0.9, "penalty": "elasticnet"}, {"shuffle": False},
            {"early_stopping": True, "validation_fraction": 0.4}, {"tol": 0.01, "n_iter_no_change": 1}, {"epsilon": 0.5}, {"warm_start": True}],
    "perceptron": [{"alpha": 0.01}, {"class_weight": "balanced"}, {"eta0": 0.1}, {"shuffle": False}, {"tol": 0.01}, {"penalty": "l1"}],
    "passive": [{"average": True}, {"average": 3}, {"class_weight": "balanced"}, {"shuffle": False}, {"tol": 0.01}],
    "linearsvc": [{"dual": False, "loss": "squared_hinge"}, {"penalty": "l1", "dual": False, "loss": "squared_hinge"}, {"class_weight": "balanced"},
                  {"intercept_scaling": 5.0}, {"multi_class": "crammer_singer"}, {"tol": 0.1}],
    "dtc": [{"max_features": "sqrt"}, {"max_features": 1}, {"max_features": 0.5}, {"min_impurity_decrease": 0.1}, {"min_samples_split": 4},
            {"min_weight_fraction_leaf": 0.2}, {"splitter": "random"}, {"min_impurity_split": 0.2}],
    "dtr": [{"max_features": 1}, {"ccp_alpha": 0.1}, {"max_leaf_nodes": 3}, {"min_samples_leaf": 2}, {"min_samples_split": 4}, {"criterion": "mae"},
            {"splitter": "random"}, {"min_impurity_decrease": 0.1}],
    "rf": [{"criterion": "entropy"}, {"ccp_alpha": 0.02}, {"max_leaf_nodes": 3}, {"max_samples": 0.5, "bootstrap": True}, {"min_samples_leaf": 2},
           {"min_samples_split": 5}, {"oob_score": True, "bootstrap": True}, {"warm_start": True}, {"min_weight_fraction_leaf": 0.1}],
    "bagging": [{"oob_score": True, "bootstrap": True}, {"warm_start": True}, {"max_samples": 2}, {"max_features": 1}],
    "gb": [{"ccp_alpha": 0.02}, {"criterion": "mse"}, {"criterion": "mae"}, {"max_features": 1}, {"max_leaf_nodes": 3}, {"min_samples_leaf": 2},
           {"min_samples_split": 5}, {"warm_start": True}, {"min_impurity_decrease": 0.05}, {"tol": 0.1}],
    "std": [{"copy": False}], "maxabs": [{"copy": False}], "minmax": [{"copy": False}], "normalizer": [{"copy": False}], "imputer": [{"copy": False}],
    "count": [{"max_df": 0.7}, {"min_df": 2}, {"max_features": 3}, {"max_df": 2}],
    "tfidfvec": [{"max_df": 0.7}, {"min_df": 2}, {"max_features": 3}, {"vocabulary": ["a", "cat", "the cat", "zz", "ca"]}],
    "xgb": [{"max_bin": 3}, {"reg_alpha": 1.0}, {"colsample_bylevel": 0.5}, {"importance_type": "gain"}, {"validate_parameters": True},
            {"max_delta_step": 1}],
}
for _a, _b in (("etc", "dtc"), ("etr", "dtr"), ("extratrees", "rf")):
    OPTIONS[_a] = OPTIONS[_b]


def generate(draw, name, kind=None):
    """A case of one kind; a share of them with options that only reach training (or that name what is the default)."""
    case = (kind or KINDS[name]).gen(draw)
    case["k"] = name
    if name in OPTIONS and gen.pick(draw, [0, 0, 0, 1]):
        more = gen.pick(draw, OPTIONS[name])
        if not (name == "logreg" and case["p"].get("multi_class") == "multinomial" and more.get("solver") == "liblinear"):
            case["p"].update(more)
    return case


def fitted(case):
    k = KINDS[case["k"]]
    est = cmp.call_ref("fit", k.fit, case)
    return k, est


def differential(case, ctx):
    """The generic differential check: fit the source, convert, compare every method."""
    k, est = fitted(case)
    pure = convert(est)
    rows = k.rows(case, est)
    k.compare(ctx, case, est, pure, rows)
    if not ctx.nontrivial and len(rows) > 0:
        k.nontrivial(ctx, case, est, rows)


def _nontrivial(self, ctx, case, est, rows):
    ctx.nt()


Kind.nontrivial = _nontrivial


# ------------------------------------------------------------------ classifiers, generic

def finite_or_discard(*arrays):
    for a in arrays:
        a = cmp.ref_dense(a)
        if a.dtype.kind == "f" and not np.isfinite(a).all():
            raise Discard("ref-not-finite")


class Classifier(Kind):
    methods = ("predict", "predict_proba", "predict_log_proba")
    proba = True
    prt, pat = 1e-9, 1e-15       # tolerance on probabilities

    def compare(self, ctx, case, est, pure, rows, sparse=None):
        R = self.ref(rows)
        forms = [("dense", rows)]
        if self.sparse_ok and sparse is not False and case.get("ts"):
            forms.append(("sparse", tosparse(rows)))
        rp = cmp.call_ref("proba", est.predict_proba, R)
        rl = cmp.call_ref("predict", est.predict, R)
        if np.isnan(rp).any():
            raise Discard("ref-nan")
        indicator = rl.ndim == 2     # two-class softprob boosters: the source answers with 0/1 rows, not labels
        if indicator:
            rl = np.asarray(est.classes_)[np.argmax(rp, axis=1)]
        for form, rows_ in forms:
            pp = cmp.call_pure("%s.predict_proba(%s)" % (self.name, form), pure.predict_proba, rows_)
            cmp.matrix(ctx, "%s.predict_proba(%s)" % (self.name, form), rp, pp, self.prt, self.tol(est, R, rp))
            pl = cmp.call_pure("%s.predict(%s)" % (self.name, form), pure.predict, rows_)
            allowed = self.allowed(case, est, R, rp, pp, rl)
            if indicator:
                allowed = [[cmp.plain(c) for c, v in zip(est.classes_, r) if v >= max(r) - 1e-6] for r in rp]
            cmp.labels(ctx, "%s.predict(%s)" % (self.name, form), rl, pl, allowed)
            if "predict_log_proba" in self.methods:
                lp = cmp.call_pure("predict_log_proba", pure.predict_log_proba, rows_)
                cmp.log_consistent(ctx, "%s.predict_log_proba(%s)" % (self.name, form), pp, lp)
                self.compare_log(ctx, case, est, R, rp, pp, lp)
        if len(set(map(str, rl.tolist()))) > 1:
            ctx.event("several labels predicted")

    def tol(self, est, R, rp):
        return self.pat

    def allowed(self, case, est, R, rp, pp, rl):
        return cmp.allowed_by_scores(est.classes_, rp, pp, self.prt + np.max(self.tol(est, R, rp)))

    def compare_log(self, ctx, case, est, R, rp, pp, lp):
        pass

    def nontrivial(self, ctx, case, est, rows):
        if len({tuple(map(str, r)) if isinstance(r, (list, tuple)) else str(r) for r in rows}) >= 1 \
                and any(v for r in rows for v in r):
            ctx.nt()


def gen_xy(draw, profiles, nmin=4, nmax=12, dmin=1, dmax=4, pools=None, kmax=4, kmin=2, other=None, tmax=7):
    prof = gen.pick(draw, profiles)
    n = gen.draw_int(draw, nmin, nmax)
    d = gen.draw_int(draw, dmin, dmax)
    many = pools is None and kmax >= 3 and nmax >= 10 and draw_int(draw, 0, 19) == 19
    if many:                                         # more classes than digits
        n = draw_int(draw, 14, 18)
    X = gen.rows(draw, n, d, prof)
    if many:
        pool, y = gen.labels(draw, n, kind="many", kmin=11, kmax=13)
    else:
        pool, y = gen.labels(draw, n, kmin=kmin, kmax=kmax, pools=pools)
    oth = other or gen.pick(draw, profiles)
    T = gen.test_rows(draw, X, prof, d, nmax=tmax, other=oth)
    return {"X": X, "y": y, "pool": pool, "T": T, "prof": prof}


# ------------------------------------------------------------------ linear

def softmax_rows(s):
    s = s - s.max(axis=1, keepdims=True)
    e = np.exp(s)
    return e / e.sum(axis=1, keepdims=True)


class Linear(Kind):
    sparse_ok = True
    methods = ("decision_function", "predict")

    def gen(self, draw):
        c = gen_xy(draw, ["smallint", "half", "tenth", "float", "sparse"], other=gen.pick(
            draw, ["smallint", "half", "float", "wide"]))
        c["p"] = self.gen_params(draw, c)
        c["ts"] = gen.flag(draw)
        c["xs"] = gen.flag(draw)
        return c

    def gen_params(self, draw, c):
        raise NotImplementedError

    def scale(self, est, R):
        W = np.abs(np.atleast_2d(est.coef_))
        b = np.abs(np.atleast_1d(getattr(est, "intercept_", 0.0)))
        return np.abs(R) @ W.T + b

    def compare(self, ctx, case, est, pure, rows):
        R = self.ref(rows)
        d = cmp.call_ref("decision", est.decision_function, R)
        finite_or_discard(d)
        with np.errstate(all="ignore"):
            sc = self.scale(est, R)
        if not np.isfinite(sc).all():
            raise Discard("ref-overflow")
        tol = 1e-13 * sc
        if d.ndim == 1:
            tol = tol[:, 0]
        rl = est.predict(R)
        forms = [("dense", rows)]
        if case.get("ts"):
            forms.append(("sparse", tosparse(rows)))
        for form, X in forms:
            w = "%s(%s)" % (self.name, form)
            pd_ = cmp.call_pure(w + ".decision_function", pure.decision_function, X)
            cmp.matrix(ctx, w + ".decision_function", d, pd_, 0.0, tol)
            pl = cmp.call_pure(w + ".predict", pure.predict, X)
            cmp.labels(ctx, w + ".predict", rl, pl, cmp.allowed_by_scores(est.classes_, d, pd_, tol))
            self.compare_proba(ctx, w, case, est, pure, R, X, d, tol)
        dd = d if d.ndim == 2 else d[:, None]
        if (dd == 0).any():
            ctx.event("score exactly zero")
        if d.ndim == 2 and any(np.sum(r == r.max()) > 1 for r in d):
            ctx.event("exact tie of scores")
        if np.abs(d).max() > 700:
            ctx.event("scores beyond exp range")
        ctx.event("classes:%d" % len(est.classes_))

    def offers_proba(self, est):
        return False

    def compare_proba(self, ctx, w, case, est, pure, R, X, d, tol):
        offers = self.offers_proba(est)
        for m in ("predict_proba", "predict_log_proba"):
            ctx.require(hasattr(pure, m) == offers,
                        lambda: "%s.%s offered: %s, expected %s" % (w, m, hasattr(pure, m), offers))
        if not offers:
            return
        rp = cmp.call_ref("proba", est.predict_proba, R)
        pp = cmp.call_pure(w + ".predict_proba", pure.predict_proba, X)
        lp = cmp.call_pure(w + ".predict_log_proba", pure.predict_log_proba, X)
        cmp.shape_is(ctx, w + ".predict_proba", pp, rp.shape)
        cmp.shape_is(ctx, w + ".predict_log_proba", lp, rp.shape)
        t2 = tol if tol.ndim == 2 else tol[:, None]
        tt = 4 * np.broadcast_to(t2.max(axis=1, keepdims=True), rp.shape) + 1e-12
        # no class has any probability: the source divides zero by zero (scores well below the range of exp)
        d2 = d if d.ndim == 2 else d[:, None]
        lost = np.isnan(rp).any(axis=1)
        for i in np.flatnonzero(lost):
            if d2[i].max() < -760:
                ctx.event("no class has any probability")
                ctx.require(all(v != v for v in pp[i]), lambda: "%s.predict_proba[%d]: pure %r, source %r" % (w, i, pp[i], rp[i].tolist()))
        # rounding to a multiple of 2**-1074, and scores so close to the end of exp's range that one implementation may pass it
        edge = ((np.abs(d2) > 709.5) & (np.abs(d2) < 710.2)).any(axis=1)
        with np.errstate(all="ignore"):
            e = 1.0 / (1.0 + np.exp(-d2))
            low = np.where(e > 0, e, 1.0).min(axis=1, keepdims=True)
            small = np.minimum(np.where(rp > 0, rp, 1.0), low if d.ndim == 2 and not self.softmax(est) else 1.0)
            coarse = np.where(small < 1e-290, 4e-323 / small, 0.0)
        # some classes beyond and all others close to that end: the ratios depend on where exactly it lies
        faint = (e.max(axis=1) < 1e-6) & ((d2 < -709.5) & (d2 > -746)).any(axis=1) if d.ndim == 2 and not self.softmax(est) else np.zeros(len(rp), bool)
        keep = [i for i in range(len(rp)) if not lost[i] and not faint[i]]
        if not keep:
            return
        binary_ovr = self.binary_ovr(est)
        atol = np.where((rp == 0) | edge[:, None], 1e-300, 1e-322)
        if binary_ovr:                      # column 0 is computed as 1 - p
            atol[:, 0] = tt[:, 0] + 1e-15
        cmp.matrix(ctx, w + ".predict_proba", rp[keep], [pp[i] for i in keep], np.minimum(tt + coarse, np.where(edge[:, None], 1.0, 0.5))[keep], atol[keep])
        # logarithms: exact reference, strict on directly computed columns
        with np.errstate(all="ignore"):
            rl = np.log(rp)
        for i in keep:
            for j in range(rp.shape[1]):
                if binary_ovr and j == 0 and rp[i, j] < 1e-3:
                    continue
                if rp[i, j] < 1e-290 and (edge[i] or rp[i, j] < 1e-320):
                    continue
                a, b = lp[i][j], rl[i, j]
                ctx.checks += 1
                if not cmp.isclose(a, b, 1e-12, tt[i, j] + 1e-12 + 2 * coarse[i, j]):
                    raise Violation("%s.predict_log_proba[%d][%d]: pure %r, source %r" % (w, i, j, a, b))
        if (rp[keep] < 1e-300).any() and (rp[keep][rp[keep] < 1e-300] > 0).any():
            ctx.event("probability near the end of double precision")
        cmp.shape_is(ctx, w + ".predict_log_proba", lp, rp.shape)
        cmp.log_consistent(ctx, w + ".predict_log_proba", pp, lp)
        ctx.event("probabilities compared")
        if (rp[rp > 0] < 1e-12).any():
            ctx.event("tiny probability")

    def binary_ovr(self, est):
        return len(est.classes_) == 2

    def softmax(self, est):
        mc = getattr(est, "multi_class", "ovr")
        return mc == "multinomial" or (mc == "auto" and len(est.classes_) > 2 and est.solver != "liblinear")


@kind
class LogReg(Linear):
    name = "logreg"

    def gen_params(self, draw, c):
        solver = gen.pick(draw, ["lbfgs", "liblinear", "newton-cg"])
        mc = gen.pick(draw, ["auto", "ovr"] if solver == "liblinear" else ["auto", "ovr", "multinomial"])
        return {"solver": solver, "multi_class": mc, "C": gen.pick(draw, [1.0, 0.01, 100.0, 1e6]),
                "fit_intercept": gen.flag(draw), "max_iter": 30}

    def make(self, p):
        from sklearn.linear_model import LogisticRegression
        return LogisticRegression(**p)

    def offers_proba(self, est):
        return True

    def binary_ovr(self, est):
        return len(est.classes_) == 2 and est.multi_class != "multinomial"

    def offered(self, case, est):
        return ["decision_function", "predict", "predict_proba", "predict_log_proba"]


@kind
class Ridge(Linear):
    name = "ridge"

    def gen_params(self, draw, c):
        return {"alpha": gen.pick(draw, [1.0, 0.0, 1e-3, 50.0]), "fit_intercept": gen.flag(draw),
                "normalize": gen.flag(draw)}

    def make(self, p):
        from sklearn.linear_model import RidgeClassifier
        return RidgeClassifier(**p)


@kind
class SGD(Linear):
    name = "sgd"

    def gen_params(self, draw, c):
        return {"loss": gen.pick(draw, ["log", "hinge", "modified_huber", "squared_hinge", "perceptron", "log"]),
                "max_iter": 5, "tol": None, "fit_intercept": gen.flag(draw),
                "alpha": gen.pick(draw, [1e-4, 0.1]), "penalty": gen.pick(draw, ["l2", "l1", "elasticnet"]),
                "average": gen.flag(draw), "random_state": 0}

    def make(self, p):
        from sklearn.linear_model import SGDClassifier
        return SGDClassifier(**p)

    def offers_proba(self, est):
        return est.loss == "log"

    def offered(self, case, est):
        m = ["decision_function", "predict"]
        return m + (["predict_proba", "predict_log_proba"] if est.loss == "log" else [])


@kind
class Perc(Linear):
    name = "perceptron"

    def gen_params(self, draw, c):
        return {"max_iter": 5, "tol": None, "fit_intercept": gen.flag(draw), "random_state": 0,
                "penalty": gen.pick(draw, [None, "l2"])}

    def make(self, p):
        from sklearn.linear_model import Perceptron
        return Perceptron(**p)


@kind
class PA(Linear):
    name = "passive"

    def gen_params(self, draw, c):
        return {"max_iter": 5, "tol": None, "fit_intercept": gen.flag(draw), "random_state": 0,
                "loss": gen.pick(draw, ["hinge", "squared_hinge"]), "C": gen.pick(draw, [1.0, 0.1])}

    def make(self, p):
        from sklearn.linear_model import PassiveAggressiveClassifier
        return PassiveAggressiveClassifier(**p)


@kind
class SVC(Linear):
    name = "linearsvc"

    def gen_params(self, draw, c):
        p = {"C": gen.pick(draw, [1.0, 0.01, 10.0]), "fit_intercept": gen.flag(draw), "max_iter": 100,
             "random_state": 0, "multi_class": gen.pick(draw, ["ovr", "ovr", "crammer_singer"])}
        p["loss"] = gen.pick(draw, ["hinge", "squared_hinge"])
        return p

    def make(self, p):
        from sklearn.svm import LinearSVC
        return LinearSVC(**p)


# ------------------------------------------------------------------ trees

def tree_probes(draw, n):
    return [[gen.idx(draw, 50), gen.idx(draw, 64), gen.idx(draw, 9)] for _ in range(draw_int(draw, 0, n))]


def nodes_of(est):
    """(feature, threshold) of every split of a fitted tree ensemble."""
    out = []

    def walk(e, feats=None):
        if hasattr(e, "tree_") and hasattr(e.tree_, "node_count"):
            t = e.tree_
            for i in range(t.node_count):
                if t.children_left[i] != t.children_right[i]:
                    f = int(t.feature[i])
                    out.append((f if feats is None else int(feats[f]), float(t.threshold[i])))
        elif hasattr(e, "estimators_"):
            ef = getattr(e, "estimators_features_", None)
            members = []
            for s in e.estimators_:
                members.extend(list(s) if isinstance(s, np.ndarray) else [s])
            for i, s in enumerate(members):
                walk(s.steps[-1][1] if hasattr(s, "steps") else s, ef[i] if ef is not None else None)

    walk(est)
    return out


class TreeLike:
    def rows(self, case, est):
        rows = [list(r) for r in case["T"]]
        nodes = nodes_of(est)
        base = rows + [list(r) for r in case["X"]]
        for b, nd, mode in case.get("pr", []):
            if not nodes:
                break
            f, t = nodes[nd % len(nodes)]
            r = list(base[b % len(base)])
            r[f] = gen.probe_value(t, mode)
            rows.append(r)
        return rows

    def nontrivial(self, ctx, case, est, rows):
        n = nodes_of(est)
        if n:
            ctx.nt()
            if case.get("pr"):
                ctx.event("threshold probes")
        else:
            ctx.event("no split")


TREE_PROFILES = ["tenth", "float", "smallint", "sparse", "near", "half", "wide"]


def weights(draw, c):
    """Sample weights for a share of the cases, zeros included."""
    if gen.pick(draw, [0, 0, 0, 1]):
        bs = gen.raw_bytes(draw, len(c["X"]))
        c["sw"] = [[0, 0, 1, 1, 2, 0.5, 3, 0.1][b % 8] for b in bs]
        if not any(c["sw"]):
            c["sw"][0] = 1
    return c


class TreeClf(TreeLike, Classifier):
    sparse_ok = True
    prt, pat = 1e-12, 1e-15

    def gen(self, draw):
        c = gen_xy(draw, TREE_PROFILES, nmin=4, nmax=14, dmax=5, other="float")
        c["p"] = self.gen_params(draw, c)
        c["pr"] = tree_probes(draw, 8)
        c["ts"] = gen.flag(draw)
        c["xs"] = gen.pick(draw, [False, False, True])
        weights(draw, c)
        return c

    def gen_params(self, draw, c):
        p = {"random_state": draw_int(draw, 0, 3), "max_depth": gen.pick(draw, [None, 1, 2, 3]),
             "min_samples_leaf": gen.pick(draw, [1, 1, 2])}
        k = gen.pick(draw, ["plain", "plain", "balanced", "leafnodes", "prune"])
        if k == "balanced":
            p["class_weight"] = "balanced"
        elif k == "leafnodes":
            p["max_leaf_nodes"] = gen.pick(draw, [2, 3, 5])
        elif k == "prune":
            p["ccp_alpha"] = gen.pick(draw, [0.01, 0.05])
        p["criterion"] = gen.pick(draw, ["gini", "entropy"])
        return p


@kind
class DTC(TreeClf):
    name = "dtc"

    def make(self, p):
        from sklearn.tree import DecisionTreeClassifier
        return DecisionTreeClassifier(**p)


@kind
class ETC(TreeClf):
    name = "etc"

    def make(self, p):
        from sklearn.tree import ExtraTreeClassifier
        return ExtraTreeClassifier(**p)


class TreeReg(TreeLike, Kind):
    sparse_ok = True

    def gen(self, draw):
        prof = gen.pick(draw, TREE_PROFILES)
        n, d = draw_int(draw, 3, 14), draw_int(draw, 1, 5)
        X = gen.rows(draw, n, d, prof)
        y = [r[0] for r in gen.rows(draw, n, 1, gen.pick(draw, ["float", "smallint", "wide"]))]
        return weights(draw, {"X": X, "y": y, "T": gen.test_rows(draw, X, prof, d, other="float"), "prof": prof,
                              "pr": tree_probes(draw, 8), "ts": gen.flag(draw), "xs": False,
                              "p": {"random_state": draw_int(draw, 0, 3), "max_depth": gen.pick(draw, [None, 1, 2, 3]),
                                    "criterion": gen.pick(draw, ["mse", "friedman_mse"])}})

    def compare(self, ctx, case, est, pure, rows):
        R = self.ref(rows)
        rv = cmp.call_ref("predict", est.predict, R)
        forms = [("dense", rows)] + ([("sparse", tosparse(rows))] if case.get("ts") else [])
        for form, X in forms:
            pv = cmp.call_pure("%s.predict(%s)" % (self.name, form), pure.predict, X)
            cmp.matrix(ctx, "%s.predict(%s)" % (self.name, form), rv, pv, 1e-14)
        ctx.require(not hasattr(pure, "predict_proba"), "a regressor offers predict_proba")


@kind
class DTR(TreeReg):
    name = "dtr"

    def make(self, p):
        from sklearn.tree import DecisionTreeRegressor
        return DecisionTreeRegressor(**p)


@kind
class ETR(TreeReg):
    name = "etr"

    def make(self, p):
        from sklearn.tree import ExtraTreeRegressor
        return ExtraTreeRegressor(**p)


class ForestClf(TreeClf):
    def gen_params(self, draw, c):
        p = {"n_estimators": draw_int(draw, 1, 5), "random_state": draw_int(draw, 0, 3),
             "max_depth": gen.pick(draw, [None, 1, 3]), "bootstrap": gen.flag(draw),
             "max_features": gen.pick(draw, ["auto", None, 1])}
        if gen.pick(draw, [0, 0, 1]):
            p["class_weight"] = gen.pick(draw, ["balanced", "balanced_subsample"])
        return p


@kind
class RF(ForestClf):
    name = "rf"

    def make(self, p):
        from sklearn.ensemble import RandomForestClassifier
        return RandomForestClassifier(**p)


@kind
class ETS(ForestClf):
    name = "extratrees"

    def make(self, p):
        from sklearn.ensemble import ExtraTreesClassifier
        return ExtraTreesClassifier(**p)


@kind
class Bagging(TreeClf):
    name = "bagging"
    prt = 1e-9

    def gen_params(self, draw, c):
        base = gen.pick(draw, ["tree", "tree", "tree", "tree", "logreg", "gnb", "pipetree", "pipelr",
                               "forest", "bag", "boost", "sgd", "prior"])
        p = {"base": base, "n_estimators": draw_int(draw, 1, 5), "random_state": draw_int(draw, 0, 5),
             "bootstrap": gen.flag(draw), "bootstrap_features": gen.flag(draw),
             "max_features": gen.pick(draw, [1.0, 1.0, 0.5, 0.75]),
             "max_samples": gen.pick(draw, [1.0, 0.5, 0.8])}
        return p

    def gen(self, draw):
        c = super().gen(draw)
        if c["p"]["base"] != "tree":
            c["xs"] = False
        if c["p"]["base"] in ("pipetree", "pipelr", "gnb"):
            c.pop("sw", None)
        if c["p"]["base"] in ("gnb", "pipetree", "pipelr", "boost"):
            c["ts"] = False
        return c

    def make(self, p):
        from sklearn.dummy import DummyClassifier
        from sklearn.ensemble import BaggingClassifier, GradientBoostingClassifier, RandomForestClassifier
        from sklearn.linear_model import LogisticRegression, SGDClassifier
        from sklearn.naive_bayes import GaussianNB
        from sklearn.pipeline import make_pipeline
        from sklearn.preprocessing import StandardScaler
        from sklearn.tree import DecisionTreeClassifier
        p = dict(p)
        base = p.pop("base")
        b = {"tree": None, "logreg": LogisticRegression(max_iter=20), "gnb": GaussianNB(),
             "pipetree": make_pipeline(StandardScaler(with_mean=False, with_std=False),
                                       DecisionTreeClassifier(max_depth=2, random_state=0)),
             "pipelr": make_pipeline(StandardScaler(), LogisticRegression(max_iter=20)),
             "forest": RandomForestClassifier(2, max_depth=2, random_state=0),
             "bag": BaggingClassifier(n_estimators=2, max_features=0.6, random_state=1),
             "boost": GradientBoostingClassifier(n_estimators=2, max_depth=1, random_state=0),
             "sgd": SGDClassifier("log", max_iter=5, tol=None, random_state=0),
             "prior": DummyClassifier("prior")}[base]
        return BaggingClassifier(b, **p)

    def compare(self, ctx, case, est, pure, rows):
        if case["p"]["base"] in ("gnb", "pipelr", "logreg", "sgd", "boost"):
            # smooth members: their own rounding is bounded by C01/C05; use plain rows
            big = max([abs(v) for r in rows for v in r] + [0])
            self_tol = 1e-7
            if big > 1e6:
                raise Discard("magnitude")
        else:
            self_tol = self.pat
        sub = [len(getattr(e, "classes_", [])) for e in est.estimators_]
        if any(s and s < len(est.classes_) for s in sub):
            ctx.event("member saw fewer classes")
        ctx.event("members:" + case["p"]["base"])
        self_ = self
        old = self.tol
        try:
            self_.tol = lambda est, R, rp: self_tol
            super().compare(ctx, case, est, pure, rows)
        finally:
            self_.tol = old

    def nontrivial(self, ctx, case, est, rows):
        if case["p"]["base"] not in ("tree",):
            ctx.nt("smooth member")
        else:
            super().nontrivial(ctx, case, est, rows)


# ------------------------------------------------------------------ gradient boosting

class RowWise:
    """scikit-learn 0.23 adds the stages of a multi-class model to the wrong cells when the init
    estimator returns a Fortran-ordered matrix of more than one row (GaussianNB does): its own
    answer for a record then depends on the batch. Single rows are free of that, so they are the
    reference."""

    def __init__(self, est):
        self.est = est
        self.classes_, self.init_, self.estimators_ = est.classes_, est.init_, est.estimators_

    def _each(self, f, R):
        return np.concatenate([f(R[i:i + 1]) for i in range(len(R))])

    def decision_function(self, R):
        return self._each(self.est.decision_function, R)

    def predict_proba(self, R):
        return self._each(self.est.predict_proba, R)

    def predict(self, R):
        return self._each(self.est.predict, R)


@kind
class GB(TreeLike, Classifier):
    name = "gb"
    prt, pat = 1e-9, 1e-12

    def gen(self, draw):
        loss = gen.pick(draw, ["deviance", "deviance", "exponential"])
        init = gen.pick(draw, [None, None, "zero", "tree", "logreg", "dummy", "gnb"])
        prof = ["tenth", "float", "smallint", "near", "half"]
        if init in (None, "zero", "tree", "dummy"):
            prof.append("wide")
        c = gen_xy(draw, prof, nmin=5, nmax=14, dmax=4, kmax=2 if loss == "exponential" else 4,
                   other="float")
        c["p"] = {"loss": loss, "init": init, "n_estimators": draw_int(draw, 1, 5),
                  "learning_rate": gen.pick(draw, [0.1, 1.0, 0.5, 10.0]),
                  "max_depth": draw_int(draw, 1, 3), "random_state": draw_int(draw, 0, 3),
                  "subsample": gen.pick(draw, [1.0, 1.0, 0.7])}
        if gen.pick(draw, [0, 0, 0, 1]):
            c["p"]["n_iter_no_change"] = 1
            c["p"]["validation_fraction"] = 0.4
        c["pr"] = tree_probes(draw, 8)
        weights(draw, c)
        return c

    def make(self, p):
        from sklearn.dummy import DummyClassifier
        from sklearn.ensemble import GradientBoostingClassifier
        from sklearn.linear_model import LogisticRegression
        from sklearn.naive_bayes import GaussianNB
        from sklearn.tree import DecisionTreeClassifier
        p = dict(p)
        i = p["init"]
        p["init"] = {None: None, "zero": "zero", "tree": DecisionTreeClassifier(max_depth=1, random_state=0),
                     "logreg": LogisticRegression(max_iter=20), "gnb": GaussianNB(),
                     "dummy": DummyClassifier(strategy="prior")}[i if i is None else str(i)]
        return GradientBoostingClassifier(**p)

    def tol(self, est, R, rp):
        init = getattr(est, "init_", None)
        if type(init).__name__ in ("LogisticRegression", "GaussianNB"):
            return 3e-4 if np.abs(R).max() > 50 else 3e-5
        if not isinstance(init, str) and not type(init).__name__.startswith("Dummy"):
            return 1e-9
        return self.pat

    def compare(self, ctx, case, est, pure, rows):
        init = case["p"]["init"]
        ctx.event("init:%s" % init)
        ctx.event("loss:%s/%d" % (case["p"]["loss"], len(est.classes_)))
        if init in ("logreg", "gnb"):
            # the source feeds float32 rows to the init estimator: use float32 rows on both sides
            rows = [[float(np.float32(v)) for v in r] for r in rows]
            big = max(abs(v) for r in rows for v in r)
            if big > 1e4:
                raise Discard("magnitude")
        R = self.ref(rows)
        if init == "gnb":
            est = RowWise(est)
        d = cmp.call_ref("decision", est.decision_function, R)
        finite_or_discard(d)
        super().compare(ctx, case, est, pure, rows)
        # exact ties: without an initial prediction and with all leaf contributions exactly zero
        if isinstance(est.init_, str) and est.init_ == "zero":
            contrib = self.contributions(est, R)
            rl = est.predict(R)
            pl = pure.predict(rows)
            for i in range(len(rows)):
                if not contrib[i]:
                    ctx.event("raw score exactly zero")
                    cmp.labels(ctx, "gb.predict(raw 0)[%d]" % i, [cmp.plain(rl[i])], [pl[i]])

    def contributions(self, est, R):
        F = R.astype(np.float32)
        out = [False] * len(R)
        for stage in est.estimators_:
            for t in stage:
                v = t.tree_.predict(F)
                for i in range(len(R)):
                    out[i] = out[i] or bool(np.any(v[i] != 0))
        return out

    def allowed(self, case, est, R, rp, pp, rl):
        t = max(self.tol(est, R, rp), 1e-12)
        classes = [cmp.plain(c) for c in est.classes_.tolist()]
        out = []
        for i in range(len(rp)):
            best = rp[i].max()
            out.append([c for c, v in zip(classes, rp[i]) if v >= best - 4 * t - 1e-9 * best])
        return out


# ------------------------------------------------------------------ xgboost

@kind
class XGB(Classifier):
    name = "xgb"
    methods = ("predict", "predict_proba")
    prt, pat = 3e-5, 1e-7

    def gen(self, draw):
        prof = gen.pick(draw, ["smallint", "half", "tenth", "float", "near", "wide"])
        n = draw_int(draw, 8, 30)
        d = gen.pick(draw, [1, 2, 3, 4, 11, 13])
        k = gen.pick(draw, [2, 2, 3, 4, 2, 3, 2, 3, 2, 4, 12])
        n = max(n, 2 * k)
        X = gen.rows(draw, n, d, prof)
        _, y = gen.labels(draw, n, kind="many" if k > 4 else "int", kmin=k, kmax=k)
        T = gen.test_rows(draw, X, prof, d, other="float")
        missing = gen.pick(draw, ["nan", "nan", None])
        if missing:
            self.poke_nan(draw, X)
            self.poke_nan(draw, T)
        p = {"n_estimators": draw_int(draw, 1, 5), "max_depth": draw_int(draw, 1, 4),
             "learning_rate": gen.pick(draw, [0.3, 1.0, 0.1]), "base_score": gen.pick(draw, [None, 0.5, 0.2, 0.9]),
             "gamma": gen.pick(draw, [0.0, 0.0, 0.3, 1.0]), "min_child_weight": gen.pick(draw, [0.0, 1.0]),
             "subsample": gen.pick(draw, [1.0, 1.0, 0.7]), "random_state": draw_int(draw, 0, 3),
             "tree_method": gen.pick(draw, [None, None, "hist", "approx"])}
        if gen.pick(draw, [0, 0, 1]):
            p.update(gen.pick(draw, [{"colsample_bytree": 0.5}, {"reg_lambda": 0.0}, {"scale_pos_weight": 3.0}, {"max_delta_step": 0.5},
                                     {"reg_alpha": 0.5}, {"grow_policy": "lossguide", "max_leaves": 3, "tree_method": "hist"},
                                     {"missing": 0.0}, {"missing": -1.0}, {"colsample_bynode": 0.5, "subsample": 0.6}]))
        c = {"X": X, "y": y, "T": T, "p": p, "pr": tree_probes(draw, 6), "prof": prof}
        c["names"] = gen.pick(draw, [False, False, True, True])
        if c["names"] and gen.flag(draw):
            c["ct"] = gen.raw_bytes(draw, d)       # column types of the training frame
        c["early"] = gen.pick(draw, [False, False, False, True])
        if c["early"]:
            p["n_estimators"] = 8
        if gen.pick(draw, [0, 0, 0, 1]):
            p["num_parallel_tree"] = 2
            p["subsample"] = 0.7
        return c

    def poke_nan(self, draw, rows):
        from hypothesis import strategies as st
        bs = draw(st.binary(min_size=0, max_size=6))
        for b in bs:
            r = rows[b % len(rows)]
            r[b // 7 % len(r)] = math.nan

    COLS = ["x12", "f3", "age", "f0", "Leaf", "f1", "10", "zz9", "f2", "q", "w7", "e", "r5"] + ["c%d" % (i * 7 % 1009) for i in range(600)]

    def frame(self, rows, types=()):
        import pandas as pd
        d = len(rows[0])
        f = pd.DataFrame(np.array(rows, dtype=float), columns=self.COLS[:d])
        for j, b in enumerate(types):
            col = f[self.COLS[j]]
            if b % 2 and not col.isna().any() and (abs(col) < 100).all():
                f[self.COLS[j]] = (col > 0) if b % 3 == 0 else col.round().astype("int8" if b % 5 == 0 else "int64")
        return f

    def make(self, p):
        from xgboost import XGBClassifier
        p = {k: v for k, v in p.items() if v is not None}
        return XGBClassifier(booster="gbtree", verbosity=0, n_jobs=1, **p)

    def fit(self, case):
        est = self.make(self.params(case))
        X = self.frame(case["X"], case.get("ct", ())) if case.get("names") else np.array(case["X"], dtype=float)
        y = np.array(case["y"])
        k = len(set(case["y"]))
        kw = {}
        if case.get("early"):
            est.set_params(early_stopping_rounds=1)
            kw = {"eval_set": [(X, (y + (np.arange(len(y)) % 3 == 0)) % k)], "verbose": False}
        est.fit(X, y, **kw)
        return est

    def rows(self, case, est):
        rows = [list(r) for r in case["T"]]
        b = est.get_booster().copy()
        if b.feature_types is not None:
            b.feature_types = ["float"] * len(b.feature_types)
        df = b.trees_to_dataframe()
        nodes = [(f, s) for f, s in zip(df["Feature"], df["Split"]) if s == s]
        cols = self.COLS if case.get("names") else ["f%d" % i for i in range(2000)]
        base = rows + [list(r) for r in case["X"]]
        for b, nd, mode in case.get("pr", []):
            if not nodes:
                break
            f, t = nodes[nd % len(nodes)]
            r = list(base[b % len(base)])
            r[cols.index(f)] = gen.probe_value(float(np.float32(t)), mode)
            rows.append(r)
        self._nodes = len(nodes)
        big = df.loc[df["Feature"] == "Leaf", "Gain"].abs().max()
        self._noise = float(big) * len(df["Tree"].unique()) * 2.0 ** -23    # rounding of single precision margins in the source
        if not self._noise < 1e-2:
            raise Discard("ref-ill-conditioned")
        if df.groupby("Tree")["Node"].apply(lambda s: s.max() + 1 != len(s)).any():
            case["_gap"] = True
        return rows

    def ref(self, rows):
        return np.array(rows, dtype=float)

    def tol(self, est, R, rp):
        return max(self.pat, self._noise if self._noise > 1e-4 else 0.0)

    def compare(self, ctx, case, est, pure, rows):
        case.pop("_gap", None) and ctx.event("gap in node ids")
        ctx.event("early stop" if case.get("early") else "full")
        if any(v != v for r in rows for v in r):
            ctx.event("missing value at prediction")
        if case.get("names"):
            me = self

            class Wrap:
                classes_ = est.classes_

                def predict(self, R):
                    return est.predict(me.frame(R.tolist()))

                def predict_proba(self, R):
                    return est.predict_proba(me.frame(R.tolist()))

            ctx.event("named features")
            if est.get_booster().feature_types is not None and set(est.get_booster().feature_types) - {"float", "q"}:
                ctx.event("integer or boolean training columns")
            return super().compare(ctx, case, Wrap(), pure, rows)
        return super().compare(ctx, case, est, pure, rows)

    def nontrivial(self, ctx, case, est, rows):
        if self._nodes:
            ctx.nt()


# ------------------------------------------------------------------ naive Bayes, dummy

class NB(Classifier):
    prt, pat = 1e-9, 0.0
    count = True

    def gen(self, draw):
        profs = ["count", "pos", "sparsecount", "count"] if self.count else ["smallint", "half", "tenth", "float", "wide"]
        c = gen_xy(draw, profs, nmin=3, nmax=12, dmax=6)
        big = gen.pick(draw, [1, 1, 1, 50, 1000, 100000])
        if big > 1:
            c["T"] = [[v * big for v in r] for r in c["T"]]
            if gen.flag(draw):
                c["X"] = [[v * big for v in r] for r in c["X"]]
        c["p"] = self.gen_params(draw, c)
        if gen.pick(draw, [0, 0, 1]):
            bs = gen.rows(draw, 1, len(c["X"]), "pos")[0]
            c["sw"] = [b + 0.5 for b in bs]
        else:
            weights(draw, c)
        return c

    def compare(self, ctx, case, est, pure, rows):
        R = self.ref(rows)
        rlp = cmp.call_ref("logproba", est.predict_log_proba, R)
        rl = cmp.call_ref("predict", est.predict, R)
        if rlp.shape[1] != len(est.classes_):
            raise Discard("ref-single-class")
        with np.errstate(all="ignore"):
            jll = est._joint_log_likelihood(R)
        if np.isnan(jll).any():
            raise Discard("ref-nan")
        # a record too far away for any likelihood has a label, but no probabilities
        far = np.isnan(rlp).any(axis=1)
        mag = self.magnitude(est, R, jll)
        tol = 1e-12 * mag + 1e-11
        plp = cmp.call_pure(self.name + ".predict_log_proba", pure.predict_log_proba, rows)
        pp = cmp.call_pure(self.name + ".predict_proba", pure.predict_proba, rows)
        pl = cmp.call_pure(self.name + ".predict", pure.predict, rows)
        if far.any():
            ctx.event("no likelihood at all")
            ctx.require(len(plp) == len(pp) == len(rows), lambda: self.name + ": %d and %d rows of probabilities for %d records" % (
                len(plp), len(pp), len(rows)))
        near = [i for i in range(len(rows)) if not far[i]]
        qlp, qp, rp = [plp[i] for i in near], [pp[i] for i in near], np.exp(rlp[near])
        if near:
            cmp.matrix(ctx, self.name + ".predict_log_proba", rlp[near], qlp, 1e-9, tol[near, None])
            cmp.matrix(ctx, self.name + ".predict_proba", rp, qp, 1e-9 + np.minimum(2 * tol[near], 1.0)[:, None] + 0 * rp, 1e-300)
            cmp.log_consistent(ctx, self.name + ".predict_log_proba", qp, qlp, 1e-9, 1e-9)
        allowed = None
        classes = [cmp.plain(c) for c in est.classes_.tolist()]
        pj = None
        if hasattr(pure, "_joint_log_likelihood"):
            try:
                pj = pure._joint_log_likelihood(rows)
                if len(pj) != len(rows):
                    pj = None
            except Exception:
                pj = None
        allowed = []
        for i in range(len(rows)):
            if pj is not None and len(pj[i]) == jll.shape[1] and cmp.bitwise(jll[i], pj[i]):
                allowed.append(None)
                if np.sum(jll[i] == jll[i].max()) > 1:
                    ctx.event("exact tie of likelihoods")
            else:
                best = jll[i].max()
                allowed.append([c for c, v in zip(classes, jll[i]) if v >= best - 2 * tol[i]])
        cmp.labels(ctx, self.name + ".predict", rl, pl, allowed)
        if (jll.max(axis=1) < -745).any():
            ctx.event("likelihood underflows")

    def magnitude(self, est, R, jll):
        with np.errstate(all="ignore"):
            m = np.where(np.isfinite(jll), np.abs(jll), 0).max(axis=1)
            if hasattr(est, "feature_log_prob_"):
                f = np.where(np.isfinite(est.feature_log_prob_), np.abs(est.feature_log_prob_), 0)
                m = np.maximum(m, (np.abs(R) @ f.T).max(axis=1))
        return m + 1.0


def prior_list(draw, k):
    """Class priors: even ones, and ones so lopsided that they matter only in the logarithm."""
    if k < 2 or k > 4:
        return None
    mild = {2: [0.25, 0.75], 3: [0.5, 0.25, 0.25], 4: [0.25] * 4}[k]
    e = gen.pick(draw, [None, 0.0, 1e-3, 1e-9, 1e-12, 1e-30, 1e-200, 1e-300])
    if e is None:
        return mild
    i = draw_int(draw, 0, k - 1)
    out = [(1.0 - e) / (k - 1)] * k
    out[i] = e
    return out


@kind
class GNB(NB):
    name = "gnb"
    count = False

    def gen_params(self, draw, c):
        p = {"var_smoothing": gen.pick(draw, [1e-9, 1e-3, 0.1])}
        if gen.pick(draw, [0, 0, 1]):
            p["priors"] = prior_list(draw, len(set(map(str, c["y"]))))
        return p

    def make(self, p):
        from sklearn.naive_bayes import GaussianNB
        return GaussianNB(**p)

    def gen(self, draw):
        c = super().gen(draw)
        far = gen.pick(draw, [None] * 7 + [1e120, 1e154, 1e200, 1e300])
        if far and c["T"]:
            i = draw_int(draw, 0, len(c["T"]) - 1)
            c["T"][i] = [v * far for v in c["T"][i]]
        return c

    def magnitude(self, est, R, jll):
        # (x - theta)^2 / sigma is sensitive to cancellation in x - theta
        base = super().magnitude(est, R, jll)
        with np.errstate(all="ignore"):
            t = 0
            for i in range(len(est.classes_)):
                dd = np.abs(R - est.theta_[i])
                t = t + np.sum(dd * (np.abs(R) + np.abs(est.theta_[i])) / est.sigma_[i], axis=1)
        return base + np.where(np.isfinite(t), t, 0)


@kind
class MNB(NB):
    name = "mnb"

    def gen_params(self, draw, c):
        p = {"alpha": gen.pick(draw, [1.0, 0.5, 1e-3, 0.0]), "fit_prior": gen.flag(draw)}
        if gen.pick(draw, [0, 0, 1]):
            p["class_prior"] = prior_list(draw, len(set(map(str, c["y"]))))
        return p

    def make(self, p):
        from sklearn.naive_bayes import MultinomialNB
        return MultinomialNB(**p)


@kind
class CNB(NB):
    name = "cnb"

    def gen_params(self, draw, c):
        return {"alpha": gen.pick(draw, [1.0, 0.5, 1e-3]), "fit_prior": gen.flag(draw), "norm": gen.flag(draw)}

    def make(self, p):
        from sklearn.naive_bayes import ComplementNB
        return ComplementNB(**p)


@kind
class Dummy(Classifier):
    name = "dummy"
    sparse_ok = True
    prt, pat = 1e-15, 0.0

    def gen(self, draw):
        c = gen_xy(draw, ["smallint"], nmin=1, nmax=10, kmin=1)
        c["p"] = {"strategy": "prior"}
        c["ts"] = gen.flag(draw)
        if gen.flag(draw):
            bs = gen.rows(draw, 1, len(c["X"]), "pos")[0]
            c["sw"] = [b + 0.5 for b in bs]
        else:
            weights(draw, c)
        return c

    def make(self, p):
        from sklearn.dummy import DummyClassifier
        return DummyClassifier(**p)

    def allowed(self, case, est, R, rp, pp, rl):
        return [None] * len(rp)

    def nontrivial(self, ctx, case, est, rows):
        if len(est.classes_) > 1:
            ctx.nt()


# ------------------------------------------------------------------ transformers

def copying(est):
    """The source model, working on copies of what it is given."""
    if getattr(est, "copy", True) is False:
        est = copy.copy(est)
        est.copy = True
    return est


class Transformer(Kind):
    methods = ("transform",)
    rt = 1e-13

    def gen_data(self, draw, profs=None):
        prof = gen.pick(draw, profs or ["smallint", "half", "tenth", "float", "sparse", "wide", "huge"])
        n, d = draw_int(draw, 1, 8), draw_int(draw, 1, 5)
        X = gen.rows(draw, n, d, prof)
        if gen.pick(draw, [0, 0, 1]) and n > 1:      # a constant column
            j = draw_int(draw, 0, d - 1)
            for r in X:
                r[j] = X[0][j]
        T = gen.test_rows(draw, X, prof, d, other=gen.pick(draw, ["float", "wide", "smallint"]))
        return {"X": X, "T": T, "ts": gen.flag(draw), "prof": prof}

    def forms(self, case, est, rows):
        f = [("dense", rows, self.ref(rows))]
        if self.sparse_ok and case.get("ts") and self.sparse_now(case, est):
            f.append(("sparse", tosparse(rows), self.ref_sparse(rows)))
        return f

    def sparse_now(self, case, est):
        return True

    def atol(self, case, est, R):
        return 0.0

    def compare(self, ctx, case, est, pure, rows):
        est = copying(est)
        for form, X, R in self.forms(case, est, rows):
            with np.errstate(all="ignore"):
                r = cmp.call_ref("transform", est.transform, R)
            rd = cmp.ref_dense(r)
            if rd.dtype.kind == "f" and not np.isfinite(rd).all():
                raise Discard("ref-not-finite")
            w = "%s.transform(%s)" % (self.name, form)
            p = cmp.call_pure(w, pure.transform, X)
            if form == "sparse":
                ctx.require(issparse(p), lambda: w + " of a sparse structure is not sparse")
            cmp.matrix(ctx, w, r, p, self.rt, self.atol(case, est, cmp.ref_dense(R)))
            ctx.event(form)

    def nontrivial(self, ctx, case, est, rows):
        if any(v for r in rows for v in r):
            ctx.nt()


@kind
class Std(Transformer):
    name = "std"
    sparse_ok = True

    def gen(self, draw):
        c = self.gen_data(draw)
        c["p"] = {"with_mean": gen.flag(draw), "with_std": gen.flag(draw)}
        return c

    def sparse_now(self, case, est):
        return not est.with_mean

    def make(self, p):
        from sklearn.preprocessing import StandardScaler
        return StandardScaler(**p)


@kind
class MinMax(Transformer):
    name = "minmax"

    def gen(self, draw):
        c = self.gen_data(draw)
        c["p"] = {"feature_range": gen.pick(draw, [(0, 1), (-1.0, 1.0), (0.25, 4.0), (5, 7)])}
        return c

    def make(self, p):
        from sklearn.preprocessing import MinMaxScaler
        return MinMaxScaler(**p)

    def atol(self, case, est, R):
        return 1e-15 * (np.abs(R * est.scale_) + np.abs(est.min_))


@kind
class MaxAbs(Transformer):
    name = "maxabs"
    sparse_ok = True

    def gen(self, draw):
        c = self.gen_data(draw)
        c["p"] = {}
        return c

    def make(self, p):
        from sklearn.preprocessing import MaxAbsScaler
        return MaxAbsScaler(**p)


@kind
class Norm(Transformer):
    name = "normalizer"
    sparse_ok = True

    def gen(self, draw):
        c = self.gen_data(draw)
        c["p"] = {"norm": gen.pick(draw, ["l1", "l2", "max"])}
        return c

    def make(self, p):
        from sklearn.preprocessing import Normalizer
        return Normalizer(**p)


# --- encoders

CATS = {"int": [0, 1, 2, 5, -3, 100, 7], "str": ["a", "b", "", "zz", "\u00e9", "A", "aa"],
        "float": [0.5, 0.0, -1.25, 3.0, 1e9, 2.0, 0.1], "bool": [False, True]}


def equal_value(v, b):
    """The same number written as another type (1, 1.0 and True are one category)."""
    if isinstance(v, str):
        return v
    forms = [float(v)]
    if float(v).is_integer():
        forms.append(int(v))
        if v in (0, 1):
            forms.append(bool(v))
    return forms[b % len(forms)]


class Encoder(Kind):
    family = "cat"
    methods = ("transform",)

    def gen(self, draw):
        from hypothesis import strategies as st
        d = draw_int(draw, 1, 5)
        mode = gen.pick(draw, ["int", "str", "float", "mixed", "mixed", "bool"])
        kinds = [gen.pick(draw, ["int", "str", "float", "bool"]) if mode == "mixed" else mode for _ in range(d)]
        n, m = draw_int(draw, 1, 7), draw_int(draw, 1, 6)
        bs = gen.raw_bytes(draw, n * d)
        span = draw_int(draw, 1, 7)
        X = [[CATS[kinds[j]][bs[i * d + j] % min(span, len(CATS[kinds[j]]))] for j in range(d)] for i in range(n)]
        bt = gen.raw_bytes(draw, m * d)
        unseen = gen.flag(draw)
        alias = mode in ("mixed", "int", "float") and gen.flag(draw)
        T = []
        for i in range(m):
            row = []
            for j in range(d):
                b = bt[i * d + j]
                if unseen and b % 4 == 3:
                    row.append(CATS[kinds[j]][b // 4 % len(CATS[kinds[j]])])
                else:
                    row.append(X[b // 4 % n][j])
                if alias and b % 8 < 3:
                    row[-1] = equal_value(row[-1], b // 8)
            T.append(row)
        c = {"X": X, "T": T, "obj": mode == "mixed" or gen.pick(draw, [0, 0, 1]) == 1, "mode": mode}
        c["p"] = self.gen_params(draw)
        if mode != "mixed" and not c["obj"] and gen.pick(draw, [0, 0, 0, 1]):
            c["cats"] = [sorted(CATS[k]) for k in kinds]
            if mode in ("str", "bool"):
                c["obj"] = True
        return c

    def arr(self, case, rows):
        if case["obj"]:
            a = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    a[i, j] = v
            return a
        return np.array(rows)

    def fit(self, case):
        p = dict(self.params(case))
        if case.get("cats"):
            p["categories"] = [np.array(c, dtype=object if case["obj"] else None) for c in case["cats"]]
        est = self.make(p)
        X = self.arr(case, case["X"])
        est.fit(np_objects(X) if case.get("np") and case["obj"] else X)
        return est

    def ref(self, rows):
        raise NotImplementedError

    def refx(self, case, rows):
        return self.arr(case, rows)

    def compare(self, ctx, case, est, pure, rows):
        R = self.arr(case, rows)
        try:
            r, err = est.transform(R), None
        except ValueError as e:
            r, err = None, e
        except Exception as e:
            raise Discard("ref:" + type(e).__name__)
        if err is not None:
            ctx.event("source refuses unseen category")
            try:
                pure.transform(rows)
            except (ValueError, TypeError):
                return
            except Exception as e:
                raise Violation("%s.transform raised %s where the source raises ValueError" % (self.name, type(e).__name__))
            raise Violation("%s.transform accepted rows the source refuses (%s)" % (self.name, err))
        p = cmp.call_pure(self.name + ".transform", pure.transform, rows)
        ctx.require(issparse(p) == sp.issparse(r), lambda: self.name + ": sparse form differs from source")
        if issparse(p):
            ctx.require(p.size == r.shape[1], lambda: "width %r, source %r" % (p.size, r.shape[1]))
        d = cmp.matrix(ctx, self.name + ".transform", r, p, 1e-7 if r.dtype == np.float32 else 0.0)
        want = {"f": float, "i": int, "u": int, "b": bool}[cmp.ref_dense(r).dtype.kind]
        for row in d:
            for v in row:
                ctx.require(type(v) is want, lambda: "%s: value %r instead of %s" % (self.name, v, want.__name__))
        if cmp.ref_dense(r).size and (cmp.ref_dense(r).sum(axis=1) < len(rows[0])).any() and self.name == "onehot":
            ctx.event("unseen category encoded as zeros")
        ctx.event("columns:%d" % len(rows[0]))


@kind
class OneHot(Encoder):
    name = "onehot"

    def gen_params(self, draw):
        return {"handle_unknown": gen.pick(draw, ["error", "ignore", "ignore"]), "sparse": gen.flag(draw),
                "dtype": gen.pick(draw, DT)}

    def make(self, p):
        from sklearn.preprocessing import OneHotEncoder
        p = dict(p, dtype=DTYPES[p["dtype"]])
        return OneHotEncoder(**p)


@kind
class Ordinal(Encoder):
    name = "ordinal"

    def gen_params(self, draw):
        return {"dtype": gen.pick(draw, DT)}

    def make(self, p):
        from sklearn.preprocessing import OrdinalEncoder
        p = dict(p, dtype=DTYPES[p["dtype"]])
        return OrdinalEncoder(**p)


class Frozen(collections.abc.Mapping):
    """A mapping that is neither a dict nor in collections."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


MAPPINGS = {"dict": lambda d: d, "ordered": collections.OrderedDict, "proxy": types.MappingProxyType, "user": collections.UserDict,
            "default": lambda d: collections.defaultdict(int, d), "chain": lambda d: collections.ChainMap({}, d), "frozen": Frozen}
ITERABLES = {"list": lambda r: r, "tuple": tuple, "generator": lambda r: (x for x in r), "iterator": iter,
             "dict values": lambda r: dict(enumerate(r)).values(), "deque": collections.deque}


@kind
class DictVec(Kind):
    name = "dictvec"
    family = "dict"
    methods = ("transform",)
    KEYS = ["a", "b", "city", "a=x", "temp", "", "\u00e9", "a=y"]
    VALS = [1, 0, 2, 2.5, -1.0, "x", "y", "", "b", True, 0.1, "z=w", " x", "y\t", "X", False, "\u00c9", "e\u0301", 300, -0.0]

    def gen(self, draw):
        def dct():
            bs = gen.raw_bytes(draw, 0, 8)
            return {self.KEYS[bs[i] % len(self.KEYS)]: self.VALS[bs[i + 1] % len(self.VALS)]
                    for i in range(0, len(bs) - 1, 2)}
        X = [dct() for _ in range(draw_int(draw, 1, 5))]
        if not any(X):
            X[0] = {"a": 1}
        T = [dct() for _ in range(draw_int(draw, 1, 4))]
        return {"X": X, "T": T, "p": {"sparse": gen.flag(draw), "sort": gen.flag(draw),
                                      "separator": gen.pick(draw, ["=", "=", ":", ""]),
                                      "dtype": gen.pick(draw, [x for x in DT if x != "uint8"])},
                "single": gen.pick(draw, [0, 0, 0, 1]), "map": gen.pick(draw, ["dict"] * 4 + sorted(MAPPINGS)),
                "it": gen.pick(draw, ["list"] * 4 + sorted(ITERABLES))}

    def make(self, p):
        from sklearn.feature_extraction import DictVectorizer
        p = dict(p, dtype=DTYPES[p["dtype"]])
        return DictVectorizer(**p)

    def fit(self, case):
        X = case["X"]
        if case.get("np"):
            X = [{np.str_(k): v for k, v in d.items()} for d in X]
        return self.make(self.params(case)).fit(X)

    def ref(self, rows):
        return rows

    def compare(self, ctx, case, est, pure, rows):
        r = cmp.call_ref("transform", est.transform, rows)
        view, it = MAPPINGS[case.get("map", "dict")], ITERABLES[case.get("it", "list")]
        p = cmp.call_pure("dictvec.transform", pure.transform, it([view(d) for d in rows]))
        ctx.require(issparse(p) == sp.issparse(r), lambda: "dictvec: sparse form differs from source")
        if issparse(p):
            ctx.require(p.size == r.shape[1], lambda: "width %r, source %r" % (p.size, r.shape[1]))
        cmp.matrix(ctx, "dictvec.transform", r, p, 1e-6 if est.dtype == np.float32 else 0.0)
        if case.get("single"):
            r1 = est.transform(rows[0])
            cmp.matrix(ctx, "dictvec.transform(mapping)", r1, cmp.call_pure("dictvec.transform(mapping)", pure.transform, view(rows[0])),
                       1e-6 if est.dtype == np.float32 else 0.0)
        keys = set()
        for d in rows:
            for k, v in d.items():
                keys.add(k if not isinstance(v, str) else k + case["p"]["separator"] + v)
        if keys - set(est.vocabulary_):
            ctx.event("unseen key")
        for d in rows:
            ks = [k if not isinstance(v, str) else k + case["p"]["separator"] + v for k, v in d.items()]
            if len(ks) != len(set(ks)):
                ctx.event("two keys of one record share a column")

    def nontrivial(self, ctx, case, est, rows):
        if any(rows):
            ctx.nt()


# --- imputers

MARK = {"nan": math.nan, "zero": 0, "minus": -1, "str": "?", "none": None, "float": 0.5}


class Imp(Kind):
    methods = ("transform",)
    family = "imp"

    def gen_table(self, draw, mark, alpha):
        from hypothesis import strategies as st
        n, d = draw_int(draw, 1, 7), draw_int(draw, 1, 5)
        m = draw_int(draw, 1, 6)
        vals = {"num": [1.0, 2.0, -3.5, 0.0, 4.0, 0.1, 2.0, 7.25], "int": [1, 2, 0, 3, 2, 5, -1, 2],
                "str": ["a", "b", "c", "", "a", "b", "\u00e9", None if mark == "?" else "zz"]}[alpha]

        def tab(r):
            bs = gen.raw_bytes(draw, r * d)
            dens = draw_int(draw, 0, 8)
            return [[mark if bs[i * d + j] % 9 < dens else vals[bs[i * d + j] // 9 % 8] for j in range(d)]
                    for i in range(r)]
        X, T = tab(n), tab(m)
        if gen.pick(draw, [0, 0, 1]):                 # an all-missing column at fit time
            j = draw_int(draw, 0, d - 1)
            for r in X:
                r[j] = mark
        if gen.pick(draw, [0, 1]):                    # test pattern copied from training
            T = [list(r) for r in X][:m] or T
        return X, T

    def gen_base(self, draw):
        alpha = gen.pick(draw, ["num", "num", "int", "str"])
        mk = gen.pick(draw, {"num": ["nan", "nan", "nan", "zero", "float"], "int": ["zero", "minus", "nan"],
                             "str": ["str", "none"]}[alpha])
        X, T = self.gen_table(draw, MARK[mk], alpha)
        return {"X": X, "T": T, "alpha": alpha, "mark": mk}

    def arr(self, case, rows):
        if case["alpha"] == "str":
            a = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    a[i, j] = v
            return a
        if case["alpha"] == "int" and case["mark"] != "nan":
            return np.array(rows, dtype=np.int64)
        return np.array(rows, dtype=float)

    def fit(self, case):
        p = dict(self.params(case))
        p["missing_values"] = MARK[case["mark"]]
        if case["mark"] == "nan" and case["alpha"] != "str" and case.get("npnan"):
            p["missing_values"] = np.nan
        est = self.make(p)
        X = self.arr(case, case["X"])
        est.fit(np_objects(X) if case.get("np") and X.dtype == object else X)
        return est

    def nontrivial(self, ctx, case, est, rows):
        mark = MARK[case["mark"]]
        if any(v == mark or (v != v and mark != mark) for r in rows for v in r if v is not None or mark is None):
            ctx.nt()


@kind
class SImp(Imp):
    name = "imputer"

    def gen(self, draw):
        c = self.gen_base(draw)
        s = ["most_frequent", "constant"] if c["alpha"] == "str" else ["mean", "median", "most_frequent", "constant"]
        p = {"strategy": gen.pick(draw, s), "add_indicator": gen.flag(draw)}
        if p["strategy"] == "constant":
            p["fill_value"] = gen.pick(draw, [None, "FILL"] if c["alpha"] == "str" else [None, 7.5, -2])
            if c["alpha"] == "int" and p["fill_value"] == 7.5:
                p["fill_value"] = 7
        c["p"] = p
        return c

    def make(self, p):
        from sklearn.impute import SimpleImputer
        return SimpleImputer(**p)

    def compare(self, ctx, case, est, pure, rows):
        r = cmp.call_ref("transform", copying(est).transform, self.arr(case, rows))
        p = cmp.call_pure("imputer.transform", pure.transform, rows)
        if case["alpha"] == "str":
            cmp.cells(ctx, "imputer.transform", r, p)
        else:
            cmp.matrix(ctx, "imputer.transform", r, p, 1e-14)
        if r.shape[1] < len(rows[0]):
            ctx.event("columns dropped")
        if case["p"]["add_indicator"]:
            ctx.event("indicator appended")
        ctx.event("strategy:" + case["p"]["strategy"])


@kind
class MInd(Imp):
    name = "indicator"

    def gen(self, draw):
        c = self.gen_base(draw)
        c["p"] = {"features": gen.pick(draw, ["missing-only", "all"]), "error_on_new": gen.flag(draw), "sparse": False}
        return c

    def make(self, p):
        from sklearn.impute import MissingIndicator
        return MissingIndicator(**p)

    def compare(self, ctx, case, est, pure, rows):
        R = self.arr(case, rows)
        try:
            r, err = est.transform(R), None
        except ValueError as e:
            r, err = None, e
        if err is not None:
            ctx.event("newly missing feature refused")
            try:
                pure.transform(rows)
            except ValueError:
                return
            except Exception as e:
                raise Violation("indicator raised %s where the source raises ValueError" % type(e).__name__)
            raise Violation("indicator accepted rows the source refuses (%s)" % err)
        p = cmp.call_pure("indicator.transform", pure.transform, rows)
        cmp.matrix(ctx, "indicator.transform", r, p, 0.0)


# --- text

class Vec(Kind):
    family = "text"
    methods = ("transform",)
    PATTERNS = [r"(?u)\b\w\w+\b", r"(?u)\b\w+\b", r"\S+", r"[a-z]+", r"(?i)c(a)t|dog", r"(\w)\w*"]

    def gen_params(self, draw):
        an = gen.pick(draw, ["word", "word", "word", "char", "char_wb"])
        lo = draw_int(draw, 1, 3)
        hi = draw_int(draw, lo, min(4, lo + 2))
        if gen.pick(draw, [0, 0, 0, 0, 0, 1]):
            lo, hi = gen.pick(draw, [(1, 6), (4, 7), (2, 9), (5, 5), (6, 6), (1, 12)])
        p = {"analyzer": an, "ngram_range": (lo, hi) if gen.flag(draw) else (1, 1),
             "lowercase": gen.flag(draw), "strip_accents": gen.pick(draw, [None, None, "ascii", "unicode"]),
             "binary": gen.pick(draw, [False, False, True])}
        if an == "word":
            if gen.flag(draw):
                p["token_pattern"] = gen.pick(draw, self.PATTERNS[:5])
            if gen.pick(draw, [0, 0, 1]):
                p["stop_words"] = gen.pick(draw, [["the", "cat"], ["a"], ["The", "i", "x1"], []])
        return p

    def gen_docs(self, draw, words=None):
        X = gen.docs(draw, 0, 4, words=words) + ["the cat sat on the Cat caf\u00e9 na\u00efve x1 foo_bar"]
        T = gen.docs(draw, 1, 4, words=words)
        if gen.flag(draw):
            T.append(X[0] + " " + X[-1] + " " + X[0])
        c = {"X": X, "T": T, "it": gen.pick(draw, ["list"] * 6 + sorted(ITERABLES))}
        enc = gen.pick(draw, [None, None, None, "utf-8", "latin-1"])
        if enc:
            c["enc"] = enc
            c["dec_err"] = gen.pick(draw, ["strict", "ignore", "replace"])
            c["dec_as"] = gen.pick(draw, [enc, "utf-8", "ascii"]) if c["dec_err"] != "strict" else enc
        return c

    def params(self, case):
        p = dict(case["p"])
        if case.get("enc"):
            p["encoding"] = case["dec_as"]
            p["decode_error"] = case["dec_err"]
        if "dtype" in p:
            p["dtype"] = DTYPES[p["dtype"]]
        if case.get("np"):
            p = npify(p)
        return p

    def encode(self, case, docs):
        if case.get("enc"):
            return [d.encode(case["enc"], "replace") for d in docs]
        return docs

    def fit(self, case):
        est = self.make(self.params(case))
        return est.fit(self.encode(case, case["X"]))

    def rows(self, case, est):
        return self.encode(case, case["T"])

    def ref(self, rows):
        return rows

    rt = 1e-12

    def compare(self, ctx, case, est, pure, rows):
        r = cmp.call_ref("transform", est.transform, rows)
        it = case.get("it", "list")
        if it != "list":
            ctx.event("documents in a " + it)
        p = cmp.call_pure(self.name + ".transform", pure.transform, ITERABLES[it](rows))
        ctx.require(issparse(p), lambda: "%s.transform returned %s, not a sparse structure" % (self.name, type(p).__name__))
        ctx.require(p.size == r.shape[1] and len(p) == r.shape[0],
                    lambda: "shape (%r, %r), source %r" % (len(p), p.size, r.shape))
        f32 = r.dtype == np.float32
        if r.shape[1] > 5000:
            for i in range(len(p)):
                row = r[i].tocsr()
                d = {}
                for j, v in zip(row.indices.tolist(), row.data.tolist()):
                    if v:
                        d[j] = d.get(j, 0) + v
                q = {k: v for k, v in p[i].items() if v}
                ctx.require(set(d) == set(q), lambda: "%s row %d: columns %s, source %s" % (self.name, i, sorted(q), sorted(d)))
                for k in d:
                    ctx.require(cmp.isclose(float(q[k]), float(d[k]), 1e-5 if f32 else self.rt, 0),
                                lambda: "%s[%d][%d]: %r, source %r" % (self.name, i, k, q[k], d[k]))
            dense = None
        else:
            if not np.isfinite(r.toarray()).all():
                raise Discard("ref-not-finite")
            cmp.matrix(ctx, self.name + ".transform", r, p, 1e-5 if f32 else self.rt, 0.0)
        for i in range(len(p)):
            for k in p[i]:
                ctx.require(type(k) is int and 0 <= k < r.shape[1], lambda: "column index %r of %d" % (k, r.shape[1]))
        rs = r.getnnz(axis=1)
        if (rs == 0).any():
            ctx.event("document without known token")
        if rs.max() > 0:
            ctx.nt()
        ctx.event("analyzer:" + case["p"]["analyzer"])

    def nontrivial(self, ctx, case, est, rows):
        pass


@kind
class Count(Vec):
    name = "count"

    def gen(self, draw):
        c = self.gen_docs(draw)
        c["p"] = self.gen_params(draw)
        c["p"]["dtype"] = gen.pick(draw, ["int64"] * 6 + [x for x in DT if x != "uint8"])
        if gen.pick(draw, [0, 0, 0, 1]):
            c["p"]["max_features"] = draw_int(draw, 1, 5)
        if gen.pick(draw, [0, 0, 0, 1]):
            c["p"]["vocabulary"] = gen.pick(draw, [["cat", "the", "dog"], ["a", "cat", "the cat", "zz", "ca"]])
        return c

    def make(self, p):
        from sklearn.feature_extraction.text import CountVectorizer
        return CountVectorizer(**p)


@kind
class TfVec(Vec):
    name = "tfidfvec"

    def gen(self, draw):
        c = self.gen_docs(draw)
        c["p"] = self.gen_params(draw)
        c["p"].update(norm=gen.pick(draw, ["l2", "l2", "l1", None, "max"]), use_idf=gen.pick(draw, [True, True, False]),
                      smooth_idf=gen.flag(draw), sublinear_tf=gen.flag(draw),
                      dtype=gen.pick(draw, ["float64"] * 5 + DT))
        return c

    def make(self, p):
        from sklearn.feature_extraction.text import TfidfVectorizer
        return TfidfVectorizer(**p)


@kind
class HashVec(Vec):
    name = "hashing"
    # tokens whose hash is the smallest, the largest, zero or next to one of these
    EXTREME = ["aivlts3m", "akqlrggi", "acdia99h", "acqerwwr", "aaum2erp", "aeexo5ku", "abxnxwpw"]

    def gen(self, draw):
        n = gen.pick(draw, [1, 2, 3, 8, 16, 100, 1000, 2 ** 20])
        # the source takes abs() of -2**31 in 32 bits: without a power of two it computes a negative column
        extra = self.EXTREME if n & (n - 1) == 0 else self.EXTREME[2:]
        c = self.gen_docs(draw, words=gen.pick(draw, [None, None, gen.WORDS + extra]))
        c["p"] = self.gen_params(draw)
        c["p"].update(norm=gen.pick(draw, ["l2", "l2", "l1", None, "max"]), alternate_sign=gen.flag(draw),
                      n_features=n,
                      dtype=gen.pick(draw, ["float64"] * 5 + [x for x in DT if x not in ("uint8", "bool", "pybool")]))
        return c

    def make(self, p):
        from sklearn.feature_extraction.text import HashingVectorizer
        return HashingVectorizer(**p)

    def compare(self, ctx, case, est, pure, rows):
        super().compare(ctx, case, est, pure, rows)
        an = est.build_analyzer()
        if any(len(an(d)) != len(set(an(d))) for d in rows):
            ctx.event("repeated token")


@kind
class TfTr(Transformer):
    name = "tfidftr"
    sparse_ok = True
    rt = 1e-12

    def gen(self, draw):
        prof = gen.pick(draw, ["count", "pos", "sparsecount"])
        n, d = draw_int(draw, 1, 6), draw_int(draw, 1, 5)
        X = gen.rows(draw, n, d, prof)
        T = gen.test_rows(draw, X, prof, d, other="count")
        return {"X": X, "T": T, "p": {"norm": gen.pick(draw, ["l2", "l2", "l1", None, "max"]), "use_idf": gen.pick(draw, [True, True, False]),
                                      "smooth_idf": gen.flag(draw), "sublinear_tf": gen.flag(draw)}}

    def make(self, p):
        from sklearn.feature_extraction.text import TfidfTransformer
        return TfidfTransformer(**p)

    def forms(self, case, est, rows):
        return [("sparse", tosparse(rows), self.ref_sparse(rows))]
