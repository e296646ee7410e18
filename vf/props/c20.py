"""The version gate."""
import contextlib
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, generic, kinds
from ..core import Prop, Suite
from ..generic import Model, outcome, same

from pure_sklearn.map import convert_estimator

NAMES = [k for k in generic.LIGHT if k not in ("compose",)] + ["compose", "compose", "gb", "gb", "gb", "gb", "gb"]
FIXED = ["0.19", "0.19.2", "0.20", "0.20.0", "0.20.1", "0.20.4", "0.21", "0.21.0", "0.21.3", "0.22", "0.22.2.post1", "0.23.2",
         "0.24.1", "1.0", "1.0.2", "1.2.2", "0.9", "0.9.1", "0.2", "0.3", "0.100", "0.100.0", "0.19.99", "0.20.21", "0.2.21", "0.18.1", "10.0",
         "0.20.10", "0.19.100", "2", "1", "0.210", "0.021"]


def numbers(v):
    out = []
    for part in v.split("."):
        if not part.isdigit():
            break
        out.append(int(part))
    while out and out[-1] == 0:
        out.pop()
    return out


@st.composite
def version(draw):
    if gen.pick(draw, [0, 1]):
        return gen.pick(draw, FIXED)
    parts = [gen.pick(draw, [0, 0, 0, 0, 1, 2])]
    parts.append(gen.pick(draw, [20, 21, 19, 22, 2, 3, 9, 10, 18, 24, 30, 100, 200, 201, 210, 0, 1]))
    for _ in range(gen.draw_int(draw, 0, 2)):
        parts.append(gen.pick(draw, [0, 0, 1, 2, 3, 9, 10, 19, 20, 21, 30, 100]))
    v = ".".join(map(str, parts))
    return v + gen.pick(draw, ["", "", "", ".post1"])


@st.composite
def case_s(draw, names):
    return {"c": generic.gen_case(draw, names), "v": draw(version()), "none": gen.pick(draw, [0, 0, 0, 1]),
            "how": gen.pick(draw, ["source", "object"])}


@contextlib.contextmanager
def pretend(est, v, how):
    """As if the source model came from scikit-learn v (or carried no version)."""
    import sklearn
    import sklearn.base as sb
    orig = sb.BaseEstimator.__getstate__
    old = sb.__version__, sklearn.__version__
    try:
        if v is None:
            sb.BaseEstimator.__getstate__ = lambda self: {k: x for k, x in orig(self).items() if k != "_sklearn_version"}
        elif how == "source":
            sb.__version__ = sklearn.__version__ = v
        else:
            sb.BaseEstimator.__getstate__ = lambda self: dict(orig(self), _sklearn_version=v)
        yield
    finally:
        sb.BaseEstimator.__getstate__ = orig
        sb.__version__, sklearn.__version__ = old


def attempt(est):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o = outcome_of(est)
    return o, [str(x.message) for x in w]


def outcome_of(est):
    try:
        return "ok", convert_estimator(est)
    except Exception as e:
        return "err", "%s: %s" % (type(e).__name__, e)


def contains_gb(est):
    if type(est).__name__ == "GradientBoostingClassifier":
        return True
    parts = list(getattr(est, "steps", [])) + list(getattr(est, "transformer_list", []))
    return any(contains_gb(s) for _, s in parts) or any(contains_gb(e) for e in members(est))


def members(est):
    out = []
    for m in getattr(est, "estimators_", []):        # an ensemble is itself a sequence: keep numpy from unpacking it
        out.extend(list(m.ravel()) if isinstance(m, np.ndarray) else [m])
    return out


def check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    est = m.est
    v = None if case["none"] else case["v"]
    now, base = attempt(est)
    if now[0] != "ok":
        ctx.fail("%s from the installed scikit-learn is refused: %s" % (k, now[1]))
    with pretend(est, v, case["how"]):
        o, msgs = attempt(est)
    extra = list(msgs)
    for b in base:
        if b in extra:
            extra.remove(b)
    what = "%s from scikit-learn %s" % (k, v if v is not None else "without a version")
    gb = contains_gb(est)
    ctx.event("kind:" + k)
    if v is None:
        ctx.require(o[0] == "ok" and extra, lambda: "%s: %s, warnings %r" % (what, cmp.brief(o), extra))
        ctx.event("no version")
    elif gb and numbers(v) < [0, 21]:
        ctx.require(o[0] == "err", lambda: "%s converts" % what)
        ctx.event("refused")
        ctx.nt()
        return
    elif numbers(v) < [0, 20]:
        ctx.require(o[0] == "ok", lambda: "%s: %s" % (what, cmp.brief(o)))
        ctx.require(extra, lambda: "%s converts without a warning" % what)
        ctx.event("warned")
    else:
        ctx.require(o[0] == "ok", lambda: "%s: %s" % (what, cmp.brief(o)))
        ctx.require(not extra, lambda: "%s converts with %r" % (what, extra))
        ctx.event("no warning")
    if v is not None and ("0.2" <= v) != (numbers(v) >= [0, 20]):
        ctx.event("text order differs from numeric order")
    ctx.nt()
    pure = o[1]
    for method in m.methods:
        a, b = outcome(m.call, method, m.rows, "plain", m.pure), outcome(m.call, method, m.rows, "plain", pure)
        ctx.require(same(a, b), lambda: "%s.%s gives %s, without the gate %s" % (what, method, cmp.brief(b), cmp.brief(a)))


PROP = Prop("C20", [
    Suite("gate", lambda: case_s(NAMES), check, 8000),
])
