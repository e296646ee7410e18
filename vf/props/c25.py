"""The performance report of a source model and its conversion."""
import contextlib
import io
import pickle
import time

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, generic
from ..core import Discard, Prop, Suite
from ..generic import Model, same

from pure_sklearn.utils import performance_comparison

LABELS = ["Pickle Size sklearn", "Pickle Size pure-predict", "Difference",
          "Unpickle time sklearn", "Unpickle time pure-predict", "Difference",
          "Predict 1 record sklearn", "Predict 1 record pure-predict", "Difference"]
NAMES = ["logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etr", "rf", "extratrees", "bagging", "gb", "gnb", "mnb", "cnb",
         "dummy", "compose", "compose", "compose"]


def report(ctx, what, source, pure, X):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = performance_comparison(source, pure, X)
    ctx.require(r is None, lambda: "%s: returns %r" % (what, r))
    lines = [l for l in out.getvalue().split("\n") if l.strip()]
    ctx.require([l.split(":")[0] for l in lines] == LABELS, lambda: "%s: report %r" % (what, lines))
    v = [l.split(":", 1)[1].strip() for l in lines]
    sizes = [int(v[0]), int(v[1])]
    n = [float(x) for x in v]
    for a, b, d in ((0, 1, 2), (3, 4, 5), (6, 7, 8)):
        ctx.require(n[a] > 0 and n[b] > 0, lambda: "%s: %s: %r, %s: %r" % (what, LABELS[a], v[a], LABELS[b], v[b]))
        ctx.require(cmp.isclose(n[d], n[b] / n[a], 1e-9, 0.0), lambda: "%s: difference %r of %r to %r" % (what, v[d], v[b], v[a]))
    return sizes, n


# ---------------------------------------------------------------- real models

@st.composite
def real_case(draw):
    return {"c": generic.gen_case(draw, NAMES), "form": gen.pick(draw, ["array", "array", "F", "list"])}


def real_check(case, ctx):
    m = Model(case["c"])
    if "predict" not in m.methods or not m.rows:
        raise Discard("no-predict")
    rows = [r for r in m.rows]
    form = case["form"]
    numeric = all(isinstance(r, (list, tuple)) and all(isinstance(v, (int, float)) for v in r) for r in rows)
    if not numeric:
        form = "list"
    X = list(rows) if form == "list" else np.array(rows, dtype=float, order="F" if form == "F" else "C")
    try:
        m.est.predict(X[:1])
        m.pure.predict(X[:1] if form == "list" else X[:1].tolist())
    except Exception:
        raise Discard("not-scorable")           # other properties judge that
    keep = m.batch(rows)
    before = m.call("predict", rows)
    a, b = len(pickle.dumps(m.est)), len(pickle.dumps(m.pure))
    what = "%s, X as %s" % (case["c"]["k"], form)
    sizes, n = report(ctx, what, m.est, m.pure, X)
    a2, b2 = len(pickle.dumps(m.est)), len(pickle.dumps(m.pure))
    ctx.require(a == a2 and b == b2, lambda: "%s: pickled sizes before %r, after %r" % (what, (a, b), (a2, b2)))
    ctx.require(sizes == [a, b], lambda: "%s: reports sizes %r instead of %r" % (what, sizes, [a, b]))
    ctx.require(same(m.call("predict", rows), before), lambda: what + ": the converted model predicts otherwise afterwards")
    ctx.require(same(list(X) if form == "list" else X.tolist(), keep if form == "list" else np.array(keep, dtype=float).tolist()),
                lambda: what + ": the records were changed")
    ctx.event("kind:" + case["c"]["k"])
    ctx.event("X as " + form)
    ctx.nt()


# ---------------------------------------------------------------- stand-ins that record what they are given

LOG = []


def busy(s):
    a, b = time.perf_counter(), time.time()
    while s and (time.perf_counter() - a < s or time.time() - b < s):
        pass


class Stand:
    """Counts its calls; loading and predicting take the given times (seconds)."""

    def __init__(self, name, payload, load, run):
        self.name, self.payload, self.load, self.run = name, payload, load, run

    def __setstate__(self, state):
        self.__dict__.update(state)
        a = time.perf_counter()
        busy(self.load)
        LOG.append((self.name, "load", a, time.perf_counter()))

    def predict(self, X):
        a = time.perf_counter()
        busy(self.run)
        LOG.append((self.name, type(X).__name__, a, time.perf_counter(), X.tolist() if isinstance(X, np.ndarray) else list(X)))
        return [0] * len(X)


TIMES = [0.0, 0.0, 0.004, 0.012]


@st.composite
def stand_case(draw):
    kind = gen.pick(draw, ["float", "int", "text", "lists", "tuple-rows"])
    n, w = gen.draw_int(draw, 1, 4), gen.draw_int(draw, 1, 3)
    if kind == "text":
        X = [gen.pick(draw, ["a b", "", "x\u00e9", "one"]) for _ in range(n)]
    elif kind == "int":
        X = [[gen.draw_int(draw, -5, 5) for _ in range(w)] for _ in range(n)]
    else:
        X = gen.rows(draw, n, w, "smallint")
    return {"kind": kind, "X": X, "pay": [gen.draw_int(draw, 0, 300), gen.draw_int(draw, 0, 300)],
            "t": [gen.pick(draw, TIMES) for _ in range(4)]}


def stand_check(case, ctx):
    X, kind = case["X"], case["kind"]
    if kind in ("float", "int"):
        arg = np.array(X)
    else:
        arg = [tuple(r) for r in X] if kind == "tuple-rows" else list(X)
    t = case["t"]
    s = Stand("source", "x" * case["pay"][0], t[0], t[2])
    p = Stand("pure", "y" * case["pay"][1], t[1], t[3])
    del LOG[:]
    begun = time.perf_counter()
    sizes, n = report(ctx, "stand-ins", s, p, arg)
    done = time.perf_counter()
    log = list(LOG)
    want = [len(pickle.dumps(s)), len(pickle.dumps(p))]
    ctx.require(sizes == want, lambda: "sizes %r instead of %r" % (sizes, want))
    calls = {nm: [e for e in log if e[0] == nm and e[1] != "load"] for nm in ("source", "pure")}
    first = X[0] if kind == "text" else list(X[0])
    for nm in calls:
        ctx.require(calls[nm], lambda: "%s is never asked to predict" % nm)
        for e in calls[nm]:
            got = [e[4][0] if kind == "text" else list(e[4][0])] if e[4] else []
            ctx.require(len(e[4]) == 1 and got[0] == first, lambda: "%s is given %r instead of the first record %r" % (nm, e[4], first))
            if nm == "pure":
                ctx.require(e[1] == "list" and (kind == "text" or type(e[4][0]) in (list, tuple)), lambda: "pure is given a %s" % e[1])
        ctx.require((nm, "load") in [e[:2] for e in log], lambda: "%s is never loaded" % nm)
    # each duration covers the work of its own model
    for i, j in ((3, 0), (4, 1), (6, 2), (7, 3)):
        ctx.require(n[i] >= t[j] * 0.99, lambda: "%s: %r although it takes %r" % (LABELS[i], n[i], t[j]))
    # ... and of no other: it cannot begin before the last event before it ended, nor end after the next one began
    if len(log) == 4:
        for j, e in enumerate(log):
            i = (3 if e[0] == "source" else 4) if e[1] == "load" else (6 if e[0] == "source" else 7)
            room = (log[j + 1][2] if j < 3 else done) - (log[j - 1][3] if j else begun)
            ctx.require(n[i] <= room * 1.01 + 1e-3, lambda: "%s: %r although only %r passed" % (LABELS[i], n[i], room))
        ctx.event("upper bounds checked")
    ctx.event("records as " + kind)
    if any(t):
        ctx.event("slow step")
    if len(X) > 1:
        ctx.nt("more than one record")


PROP = Prop("C25", [
    Suite("models", real_case, real_check, 1200),
    Suite("calls", stand_case, stand_check, 700),
])
