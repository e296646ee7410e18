"""Comparators between a reference result (numpy) and a pure-python result."""
import math

import numpy as np

from .core import Discard, Violation

PLAIN = (int, float, str, bool)


def brief(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def call_ref(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:  # reference does not answer: outside the domain
        raise Discard("ref-%s:%s" % (what, type(e).__name__))


class PureRaised(Violation):
    """The converted model refuses what its source answers."""


def call_pure(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        raise PureRaised("%s raised %s: %s where the source model answers"
                        % (what, type(e).__name__, str(e)[:300]))


def isclose(a, b, rtol, atol):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def todense(x, what="result"):
    """A pure result as list of lists (sparse structures are densified)."""
    if hasattr(x, "todense"):
        return x.todense()
    if isinstance(x, list) and x and isinstance(x[0], dict):
        raise Violation("%s is a list of dicts, not a sparse structure" % what)
    return x


def ref_dense(x):
    return np.asarray(x.toarray() if hasattr(x, "toarray") else x)


def shape_is(ctx, what, pure, shape):
    ctx.require(isinstance(pure, list) and len(pure) == shape[0],
                lambda: "%s: %s instead of a list of %d" % (what, brief(pure), shape[0]))
    if len(shape) == 2:
        for r in pure:
            ctx.require(isinstance(r, list) and len(r) == shape[1],
                        lambda: "%s: row %s instead of %d entries" % (what, brief(r), shape[1]))


def matrix(ctx, what, ref, pure, rtol=1e-9, atol=0.0, info=""):
    """Numeric comparison; atol may be a scalar or an array broadcastable to ref."""
    ref = ref_dense(ref)
    pure = todense(pure, what)
    shape_is(ctx, what, pure, ref.shape)
    at = np.broadcast_to(np.asarray(atol, dtype=float), ref.shape)
    rt = np.broadcast_to(np.asarray(rtol, dtype=float), ref.shape)
    it = np.ndindex(ref.shape)
    for ij in it:
        r = ref[ij]
        p = pure[ij[0]] if ref.ndim == 1 else pure[ij[0]][ij[1]]
        if not isinstance(p, (int, float)):
            raise Violation("%s%s: %r is not a number" % (what, list(ij), p))
        ctx.checks += 1
        if not isclose(float(p), float(r), rt[ij], at[ij]):
            raise Violation("%s%s: pure %r, source %r %s" % (what, list(ij), p, float(r), info))
    return pure


def cells(ctx, what, ref, pure):
    """Exact comparison of possibly non-numeric cells (NaN equals NaN)."""
    ref = ref_dense(ref)
    pure = todense(pure, what)
    shape_is(ctx, what, pure, ref.shape)
    for ij in np.ndindex(ref.shape):
        r = ref[ij]
        r = r.item() if hasattr(r, "item") else r
        p = pure[ij[0]] if ref.ndim == 1 else pure[ij[0]][ij[1]]
        ctx.checks += 1
        ok = (p == r) or (isinstance(p, float) and isinstance(r, float) and p != p and r != r)
        if not ok or (isinstance(r, str) != isinstance(p, str)):
            raise Violation("%s%s: pure %r, source %r" % (what, list(ij), p, r))


def plain(x):
    return x.item() if hasattr(x, "item") else x


def labels(ctx, what, ref, pure, allowed=None):
    """ref: array of labels. allowed[i]: set of acceptable labels for row i, or None for exact."""
    ref = [plain(v) for v in np.asarray(ref).tolist()] if not isinstance(ref, list) else ref
    ctx.require(isinstance(pure, list) and len(pure) == len(ref),
                lambda: "%s: %s instead of %d labels" % (what, brief(pure), len(ref)))
    for i, (p, r) in enumerate(zip(pure, ref)):
        ctx.checks += 1
        ok = [r] if allowed is None or allowed[i] is None else allowed[i]
        if not any(p == o and type(p) is type(o) for o in ok):
            raise Violation("%s[%d]: pure %r, source %r (accepted %s)" % (what, i, p, r, brief(ok)))


def bitwise(ref_row, pure_row):
    return all(float(a) == float(b) for a, b in zip(ref_row, pure_row))


def allowed_by_scores(classes, ref_scores, pure_scores, tol):
    """Per row: None (exact) when the scores agree bit for bit, else all classes within tol of the best."""
    out = []
    classes = [plain(c) for c in np.asarray(classes).tolist()]
    for i in range(len(ref_scores)):
        r = np.atleast_1d(np.asarray(ref_scores[i], dtype=float))
        p = np.atleast_1d(np.asarray(pure_scores[i], dtype=float))
        if bitwise(r, p) and not np.isnan(r).any():
            out.append(None)
            continue
        t = float(np.max(np.broadcast_to(np.asarray(tol[i] if np.ndim(tol) else tol, dtype=float), r.shape)))
        if len(r) == 1 and len(classes) == 2:
            out.append([classes[int(r[0] > 0)]] if abs(r[0]) > 2 * t else classes)
        else:
            best = np.nanmax(r)
            out.append([c for c, v in zip(classes, r) if v >= best - 2 * t])
    return out


def log_consistent(ctx, what, proba, logp, rtol=1e-9, atol=1e-12):
    """predict_log_proba is the logarithm of predict_proba (purely internal relation)."""
    shape_is(ctx, what, logp, (len(proba), len(proba[0])))
    for i, row in enumerate(proba):
        for j, p in enumerate(row):
            l = logp[i][j]
            ctx.checks += 1
            if p != p:
                ok = l != l
            elif p == 0:
                ok = l < -745
            elif p < 1e-300:     # the probability itself may be rounded to a multiple of 2**-1074
                ok = isclose(l, math.log(p), rtol, 1e-9 + 5e-324 / p)
            else:
                ok = isclose(l, math.log(p), rtol, atol)
            if not ok:
                raise Violation("%s[%d][%d]: log-probability %r of probability %r" % (what, i, j, l, p))
