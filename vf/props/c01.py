"""Linear classifiers: fitted models and models with injected coefficients."""
import numpy as np

from .. import gen, kinds
from ..core import Prop, Suite
from ..big import big_suite
from .common import kind_suite


class Injected(kinds.Linear):
    """Any coefficient matrix a fit could produce, set directly on the source model."""

    def gen(self, draw):
        cls = gen.pick(draw, ["logreg", "sgd", "ridge", "perceptron", "passive", "linearsvc", "logreg", "sgd"])
        k = gen.pick(draw, [2, 2, 3, 4])
        pool = gen.pick(draw, [p for p in gen.POOLS if len(gen.POOLS[p]) >= k])
        d = gen.draw_int(draw, 1, 6)
        rowsn = 1 if k == 2 else k
        prof = gen.pick(draw, ["smallint", "half", "float", "sparse", "wide", "tenth"])
        W = gen.rows(draw, rowsn, d, prof)
        b = [r[0] for r in gen.rows(draw, rowsn, 1, gen.pick(draw, ["smallint", "float", "half"]))]
        if gen.pick(draw, [0, 0, 1]):
            b = [0.0] * rowsn
        shift = gen.pick(draw, [0] * 12 + [300, 600, 690, 700, 705, 708, 760, 800, -710])
        b = [v - shift for v in b]
        p = {}
        if cls == "logreg":
            p = {"multi_class": gen.pick(draw, ["auto", "ovr", "multinomial"]),
                 "solver": gen.pick(draw, ["lbfgs", "liblinear", "saga"])}
        elif cls == "sgd":
            p = {"loss": gen.pick(draw, ["log", "log", "hinge", "modified_huber"])}
        X = gen.rows(draw, gen.draw_int(draw, 1, 4), d, gen.pick(draw, ["smallint", "half", "float"]))
        T = gen.test_rows(draw, X, prof, d, other=gen.pick(draw, ["smallint", "half", "wide"]))
        return {"cls": cls, "classes": sorted(gen.POOLS[pool][:k]) if pool != "obj" else sorted(gen.POOLS[pool][:k]),
                "pool": pool, "W": W, "b": b, "p": p, "T": T, "ts": gen.flag(draw),
                "scalar_b": gen.pick(draw, [0, 0, 1])}

    name = "injected"

    def fit(self, case):
        est = kinds.KINDS[case["cls"]].make(case["p"])
        y = np.array(case["classes"], dtype=object) if case["pool"] == "obj" else np.array(case["classes"])
        W = np.array(case["W"], dtype=float)
        if case["cls"] == "ridge":
            est.fit(np.zeros((len(y), W.shape[1])), y)
        else:
            est.classes_ = np.unique(y)
        est.coef_ = W
        est.intercept_ = np.array(case["b"], dtype=float)
        if case["scalar_b"] and case["cls"] in ("ridge", "linearsvc"):
            est.intercept_ = 0.0          # what fit_intercept=False leaves behind
        return est

    def offers_proba(self, est):
        n = type(est).__name__
        return n == "LogisticRegression" or (n == "SGDClassifier" and est.loss == "log")

    def binary_ovr(self, est):
        return len(est.classes_) == 2 and getattr(est, "multi_class", "ovr") != "multinomial"


kinds.kind(Injected)

PROP = Prop("C01", [
    kind_suite("injected", 6000),
    kind_suite("logreg", 2400),
    kind_suite("ridge", 2000),
    kind_suite("sgd", 3000),
    kind_suite("perceptron", 1200),
    kind_suite("passive", 1200),
    kind_suite("linearsvc", 2000),
    big_suite(["logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc"], 160),
])
