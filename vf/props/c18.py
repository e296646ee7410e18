"""Probability rows are well formed at any magnitude."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import cmp, compose, ft, gen, generic, kinds  # noqa: F401
from ..core import Discard, Prop, Suite
from ..generic import Model

PROB = ["logreg", "logreg", "logreg", "sgd", "sgd", "dtc", "etc", "rf", "extratrees", "bagging", "gb", "gb", "gnb", "gnb",
        "mnb", "mnb", "cnb", "dummy"]
EPS = 2.3e-16


@st.composite
def case_s(draw, names):
    c = generic.gen_case(draw, names)
    k = c["k"]
    p = c["p"]
    if k == "sgd":
        p["loss"] = "log"
    if k in ("gb", "xgb"):
        p["learning_rate"] = gen.pick(draw, [p["learning_rate"], 10.0, 100.0, 1000.0])
        if k == "xgb":
            p["reg_lambda"] = gen.pick(draw, [None, 0.0, 1e-3])
            p["min_child_weight"] = gen.pick(draw, [0.0, 0.0, 1e-9, 1.0])
    big = {"gb": 36, "xgb": 36, "dtc": 36, "etc": 36, "rf": 36, "extratrees": 36, "bagging": 36}.get(k, 300)
    rows = [list(r) for r in c["T"]]
    if k != "compose" and rows and gen.pick(draw, [0, 1, 1, 1]):
        mags = [0, 0, 1, 3, 7, 12, 17, 30, 36] if big == 36 else [0, 0, 3, 9, 17, 40, 100, 154, 200, 300]
        sel = gen.raw_bytes(draw, len(rows))
        out = []
        for r, s in zip(rows, sel):
            m = 10.0 ** mags[s % len(mags)]
            if (s // 16) % 2:
                out.append([float(v) * m for v in r])
            else:      # one extreme entry
                q = list(r)
                q[(s // 32) % len(q)] = float(q[(s // 32) % len(q)]) * m
                out.append(q)
        rows = out
    return {"c": c, "rows": rows, "coef": gen.pick(draw, [0, 0, 0, 3, 100, -100]) if k in ("logreg", "sgd") else 0,
            "shift": gen.pick(draw, [0, 0, 0, 20, 340, 350, 365, 600, 700, 740, -400]) if k in ("logreg", "sgd") else 0,
            "sparse": gen.flag(draw)}


def likelihood_error(est, R):
    """Rounding of a probability taken from joint likelihoods of this magnitude, here or in a member of the ensemble."""
    t = 0.0
    if hasattr(est, "_joint_log_likelihood"):
        j = np.asarray(est._joint_log_likelihood(R), dtype=float)
        j = np.abs(j[np.isfinite(j)])
        t += 64 * EPS * (float(j.max()) if j.size else 0.0)
        if hasattr(est, "feature_log_prob_"):
            t += 64 * EPS * float((np.abs(R) @ np.abs(np.where(np.isfinite(est.feature_log_prob_), est.feature_log_prob_, 0)).T).max())
    if hasattr(est, "estimators_features_"):
        R = np.asarray(R.toarray() if hasattr(R, "toarray") else R)
        t += max(likelihood_error(e, R[:, f]) for e, f in zip(est.estimators_, est.estimators_features_))
    if hasattr(getattr(est, "init_", None), "_joint_log_likelihood"):
        t += likelihood_error(est.init_, R)
    return t


class Case:
    """The source's answer, one record at a time."""

    def __init__(self, ref, est, rows, name, up=None):
        self.rp, self.rl, self.tol = [], [], []
        for r in rows:
            try:
                with np.errstate(all="ignore"):
                    R = ref([r])
                    p = np.asarray(est.predict_proba(R), dtype=float)[0]
                    self.rl.append(cmp.plain(np.asarray(est.predict(R)).tolist()[0]))
                    self.rp.append(p)
                    t = 1e-9
                    if hasattr(est, "steps"):
                        last, R = est.steps[-1][1], up(R)
                    else:
                        last = est
                    t += likelihood_error(last, R)
                    if name == "xgb":
                        t = 1e-6
                    self.tol.append(t)
            except Exception:
                self.rp.append(None)
                self.rl.append(None)
                self.tol.append(None)

    def ok(self, i, nclass):
        p = self.rp[i]
        if p is None or not np.isfinite(p).all() or len(p) != nclass or (p < 0).any() or (p > 1).any() or abs(p.sum() - 1) > 1e-6:
            return False
        return self.tol[i] is not None and self.tol[i] < 1e-2


def row_ok(ctx, what, p, lp, label, classes, tol, fitted_single=False):
    ctx.require(isinstance(p, list) and len(p) == len(classes), lambda: "%s: %r, classes %r" % (what, p, classes))
    for v in p:
        ctx.require(isinstance(v, float) and -tol <= v <= 1 + tol, lambda: "%s: probabilities %r" % (what, p))
        ctx.require(tol > 1e-8 or 0.0 <= v <= 1.0 + 1e-12, lambda: "%s: probabilities %r" % (what, p))
    ctx.require(abs(sum(p) - 1) <= len(p) * tol + 1e-9, lambda: "%s: probabilities %r sum to %r" % (what, p, sum(p)))
    if lp is not None:
        ctx.require(isinstance(lp, list) and len(lp) == len(p), lambda: "%s: log-probabilities %r of %r" % (what, lp, p))
        for v, l in zip(p, lp):
            good = isinstance(l, float) and l <= tol and (
                l < -745 if v == 0 else cmp.isclose(l, math.log(v), 1e-9, 1e-11 if v > 1e-300 else 1e-9 + 5e-324 / v))
            ctx.require(good, lambda: "%s: log-probabilities %r of %r" % (what, lp, p))
    if label is not None:
        j = next((j for j, c in enumerate(classes) if c == label[0] and type(c) is type(label[0])), None)
        ctx.require(j is not None, lambda: "%s: predicted label %r is not one of %r" % (what, label[0], classes))
        ctx.require(p[j] >= max(p) - 1e-9 - tol, lambda: "%s: predicted label %r, probabilities %r of %r" % (what, label[0], p, classes))


def check(case, ctx):
    m = Model(case["c"], need_rows=case["c"]["k"] == "compose")
    k = case["c"]["k"]
    est, pure = m.est, m.pure
    if case["coef"]:
        est.coef_ = est.coef_ * 10.0 ** case["coef"]
    if case["shift"]:                                # one-vs-rest scores that are all far below (or above) zero
        est.intercept_ = np.zeros(len(est.coef_)) + est.intercept_ - case["shift"]
    if case["coef"] or case["shift"]:
        pure = kinds.convert(est)
        ctx.event("shifted scores" if case["shift"] else "scaled coefficients")
    if k == "compose":
        rows = m.rows
        if "predict_proba" not in m.methods:
            raise Discard("no probabilities")
    else:
        rows = case["rows"]
    if k == "compose":
        ref = lambda R: m.kind.arr(case["c"], R)
    else:
        ref = (lambda R: m.kind.frame(R)) if case["c"].get("names") else m.kind.ref
    if not hasattr(est, "predict_proba") or not hasattr(pure, "predict_proba"):
        raise Discard("no probabilities")
    classes = [cmp.plain(c) for c in est.classes_.tolist()]
    if hasattr(pure, "classes_"):
        ctx.require(cmp.plain(list(pure.classes_)) == classes, lambda: "%s.classes_ %r, source's %r" % (k, pure.classes_, classes))
    src = Case(ref, est, rows, k, (lambda R: m.kind.upto(est, R)) if k == "compose" else None)
    good = [i for i in range(len(rows)) if src.ok(i, len(classes)) and bounded(case, est, rows[i])]
    ctx.event("kind:" + k)
    if not good:
        raise Discard("ref-not-well-formed")
    if len(good) < len(rows):
        ctx.event("some records without a well-formed source answer")
    forms = ["plain"] + (["sparse"] if case["sparse"] and k != "compose" and m.accepts_sparse() else [])
    for form in forms:
        X = [rows[i] for i in good]
        P = cmp.call_pure(k + ".predict_proba", pure.predict_proba, m.batch(X, form, len(X[0]) if form == "sparse" else None))
        L = cmp.call_pure(k + ".predict", pure.predict, m.batch(X, form, len(X[0]) if form == "sparse" else None))
        LP = None
        if hasattr(pure, "predict_log_proba"):
            LP = cmp.call_pure(k + ".predict_log_proba", pure.predict_log_proba, m.batch(X, form, len(X[0]) if form == "sparse" else None))
            ctx.require(len(LP) == len(X), "predict_log_proba: wrong number of rows")
        ctx.require(len(P) == len(L) == len(X), "wrong number of rows")
        for a, i in enumerate(good):
            what = "%s(%s) of %r" % (k, form, rows[i])
            row_ok(ctx, what, P[a], LP[a] if LP is not None else None, (L[a],), classes, src.tol[i])
            if max(P[a]) == 1.0:
                ctx.event("saturated")
            if 0 < min(P[a]) < 1e-200:
                ctx.event("extremely small probability")
            if case["c"]["k"] != "compose" and max(abs(v) for v in rows[i]) > 1e12:
                ctx.event("extreme record")
    if len(classes) > 1:
        ctx.nt()
    ctx.event("classes:%d" % len(classes))


def bounded(case, est, row):
    """Finite whatever the order in which the products are summed."""
    if not hasattr(est, "coef_"):
        return True
    with np.errstate(all="ignore"):
        s = np.abs(np.array(row, dtype=float)) @ np.abs(est.coef_).T + np.abs(np.atleast_1d(getattr(est, "intercept_", 0.0)))
    return bool(np.isfinite(s).all() and s.max() < 1e307)


# ------------------------------------------------------------------ fastText

@st.composite
def ft_case(draw):
    m = ft.gen_file(draw, "supervised")
    scale = gen.pick(draw, [1, 1, 30, 1000, 1e6])
    m["out"] = [[float(np.float32(v * scale)) for v in r] for r in m["out"]]
    return {"m": m, "T": ft.texts(draw, m, 1, 4), "k": gen.pick(draw, [1, 2, 3, 7, -1]),
            "thr": gen.pick(draw, [0.0, 0.0, 0.1, 0.3, 0.5, 0.9, 1.0])}


def ft_check(case, ctx):
    from pure_fasttext import FastText
    m = ft.build(case["m"])
    pure = cmp.call_pure("FastText", FastText, m)
    names = list(m.get_labels())
    for t in case["T"]:
        try:
            nl, nprob = m.predict([t], k=-1)
        except Exception as e:
            raise Discard("ref-predict:" + type(e).__name__)
        if not np.isfinite(np.asarray(nprob[0], dtype=float)).all():
            raise Discard("ref-not-finite")
        labels, probs = cmp.call_pure("predict", pure.predict, t, -1, 0.0)
        labels, probs = list(labels), list(probs)
        if len(nl[0]) == 0:
            ctx.event("no known word")
            continue
        what = "predict(%r)" % t
        ctx.require(sorted(labels) == sorted(names), lambda: "%s: labels %r, model has %r" % (what, labels, names))
        ctx.require(all(isinstance(p, float) and 0 <= p <= 1 + 1e-9 for p in probs) and abs(sum(probs) - 1) < 1e-6,
                    lambda: "%s: probabilities %r" % (what, probs))
        ctx.require(all(a >= b for a, b in zip(probs, probs[1:])), lambda: "%s: not sorted: %r" % (what, probs))
        full = dict(zip(labels, probs))
        for k, thr in {(case["k"], case["thr"]), (case["k"], 0.0), (1, case["thr"]), (case["k"], probs[len(probs) // 2])}:
            l, p = cmp.call_pure("predict", pure.predict, t, k, thr)
            what = "predict(%r, k=%d, threshold=%r)" % (t, k, thr)
            ctx.require(len(l) == len(p) and (k == -1 or len(l) <= k), lambda: "%s: %r %r" % (what, l, p))
            ctx.require(all(v >= thr for v in p), lambda: "%s: %r" % (what, p))
            ctx.require(all(a >= b for a, b in zip(p, list(p)[1:])), lambda: "%s: not sorted: %r" % (what, p))
            ctx.require(all(cmp.isclose(full[a], b, 1e-12, 0.0) for a, b in zip(l, p)), lambda: "%s: %r %r of %r" % (what, l, p, full))
            want = [v for v in probs if v >= thr]
            want = want if k == -1 else want[:k]
            ctx.require(len(p) == len(want) and all(cmp.isclose(a, b, 1e-12, 0.0) for a, b in zip(p, want)),
                        lambda: "%s: %r of %r" % (what, p, full))
        if len(set(probs)) > 1:
            ctx.nt()
        if probs[0] > 1 - 1e-15:
            ctx.event("saturated")
    ctx.event("labels:%d" % len(names))


PROP = Prop("C18", [
    Suite("models", lambda: case_s(PROB), check, 8000),
    Suite("pipelines", lambda: case_s(["compose"]), check, 2400),
    Suite("xgb", lambda: case_s(["xgb"]), check, 600),
    Suite("fasttext", ft_case, ft_check, 1200),
])
