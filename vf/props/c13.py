"""Sparse and dense representations of the same data."""
import copy
import math
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, generic
from ..core import Discard, Prop, Suite, Violation
from ..generic import Model, outcome

from pure_sklearn.metrics.pairwise import cosine_distances_pure, cosine_similarity_pure, linear_kernel_pure
from pure_sklearn.preprocessing import normalize_pure
from pure_sklearn.utils import issparse, shape, sparse_list, todense, tosparse


def to_sparse_rows(rows, marks, order, dtype, as_float):
    """Sparse rows of the same data, with some zeros stored explicitly and keys in another order."""
    out, p = [], 0
    for i, r in enumerate(rows):
        items = []
        for j, v in enumerate(r):
            b = marks[p % len(marks)] if marks else 0
            p += 1
            v = float(v) if as_float else v
            if v != 0 or b % 4 == 1:
                items.append((j, v))
        if order:
            items = items[::-1]
        out.append(dict(items))
    return sparse_list(out, size=len(rows[0]), dtype=dtype)


@st.composite
def model_case(draw):
    c = generic.gen_case(draw, sorted(generic.SPARSE_KINDS))
    c["np"] = False
    m = {"c": c, "marks": gen.raw_bytes(draw, 0, 24), "order": gen.flag(draw), "asf": gen.flag(draw),
         "extra": gen.pick(draw, [0, 0, 1])}
    return m


def scale_of(m, rows):
    est = m.est
    if hasattr(est, "coef_"):
        W = np.abs(np.atleast_2d(est.coef_))
        return (np.abs(np.array(rows, dtype=float)) @ W.T).max(axis=1) + np.abs(np.atleast_1d(est.intercept_)).max()
    return np.zeros(len(rows))


def model_check(case, ctx):
    m = Model(case["c"])
    if "sparse" not in m.forms:
        raise Discard("dense only")
    rows = m.rows
    if not np.isfinite(getattr(m.est, "idf_", 0.0) if getattr(m.est, "use_idf", False) else 0.0).all():
        raise Discard("infinite idf")       # a column never seen in training, without smoothing
    if any(v != v for r in rows for v in r):
        raise Discard("nan")
    if case["extra"]:
        rows = rows + [[0.0] * len(rows[0])]
    S = lambda: to_sparse_rows(rows, case["marks"], case["order"], float if case["asf"] else type(rows[0][0]), case["asf"])
    D = lambda: [list(r) for r in rows]
    with np.errstate(all="ignore"):
        sc = scale_of(m, rows)
    if not np.isfinite(sc).all():
        raise Discard("overflow")
    unsafe = [False] * len(rows)
    for score in ("decision_function", "predict_proba"):
        if score in m.methods:
            a, b = outcome(m.call_on, m.pure, score, D()), outcome(m.call_on, m.pure, score, S())
            if a[0] == b[0] == "ok":
                for i in range(len(rows)):
                    if a[1][i] != b[1][i] and generic.near_tie(a[1][i], 1e-12 * (1 + sc[i])):
                        unsafe[i] = True
            break
    for method in m.methods:
        if method == "predict" and not ("decision_function" in m.methods or "predict_proba" in m.methods) and hasattr(m.est, "classes_"):
            pass
        a = outcome(m.call_on, m.pure, method, D())
        b = outcome(m.call_on, m.pure, method, S())
        what = "%s.%s" % (case["c"]["k"], method)
        ctx.require(a[0] == b[0], lambda: "%s: dense %s, sparse %s" % (what, cmp.brief(a), cmp.brief(b)))
        if a[0] == "err":
            ctx.event("both refuse")
            continue
        x, y = a[1], b[1]
        if issparse(y):
            y = y.todense()
        if issparse(x):
            x = x.todense()
        ctx.require(len(x) == len(y) == len(rows), lambda: "%s: %d dense, %d sparse results" % (what, len(x), len(y)))
        for i in range(len(rows)):
            if method == "predict" and unsafe[i]:
                ctx.event("near tie skipped")
                continue
            tol = 1e-12 * (1 + float(sc[i])) if method != "transform" else 1e-300
            if method == "predict_log_proba":
                pr = m.call_on(m.pure, "predict_proba", D())[i]
                ok = len(x[i]) == len(y[i]) and all(
                    generic.same(float(u), float(v), 1e-9, 4 * tol / max(p, 1e-290) + 1e-12) for u, v, p in zip(x[i], y[i], pr))
            else:
                ok = generic.same(x[i], y[i], 1e-9, tol, types=isinstance(x[i], str))
            ctx.require(ok, lambda: "%s, record %r: dense %r, sparse %r" % (what, rows[i], x[i], y[i]))
    ctx.event("kind:" + case["c"]["k"])
    s = S()
    if any(v == 0 for r in s for v in r.values()):
        ctx.event("stored zero")
    if any(not r for r in s):
        ctx.event("empty row")
    if all(r[-1] == 0 for r in rows):
        ctx.event("trailing zero column")
    if any(v for r in rows for v in r) and any(v == 0 for r in rows for v in r):
        ctx.nt()


@st.composite
def conv_case(draw):
    prof = gen.pick(draw, ["smallint", "half", "sparse", "float", "wide", "huge", "count"])
    n, d = gen.draw_int(draw, 1, 6), gen.draw_int(draw, 1, 7)
    X = gen.rows(draw, n, d, prof)
    mode = gen.pick(draw, ["mix", "int", "float"])
    if mode == "int":
        X = [[int(v) for v in r] for r in X]
    elif mode == "float":
        X = [[float(v) for v in r] for r in X]
    if gen.flag(draw):
        for r in X:
            r[-1] = 0 if mode != "float" else 0.0
    return {"X": X, "mode": mode, "marks": gen.raw_bytes(draw, 0, 20), "order": gen.flag(draw), "Y": gen.rows(draw, gen.draw_int(draw, 1, 4), d, "half"),
            "norm": gen.pick(draw, ["l1", "l2", "max"])}


def conv_check(case, ctx):
    X = case["X"]
    keep = [list(r) for r in X]
    s = cmp.call_pure("tosparse", tosparse, [list(r) for r in X])
    ctx.require(issparse(s) and len(s) == len(X) and s.size == len(X[0]) and tuple(shape(s)) == (len(X), len(X[0])),
                lambda: "tosparse: %r" % (s,))
    ctx.require(all(v != 0 for r in s for v in r.values()), lambda: "tosparse stores zeros: %r" % (s,))
    d = cmp.call_pure("todense", todense, s)
    ctx.require(d == keep, lambda: "round trip of %r gives %r" % (keep, d))
    ctx.require(not issparse(d) and all(type(r) is list for r in d), lambda: "todense returned %r" % (d,))
    if case["mode"] != "mix":
        ctx.require(all(type(a) is type(b) for r, q in zip(d, keep) for a, b in zip(r, q)), lambda: "value types of %r" % (d,))
    z = to_sparse_rows(X, case["marks"], case["order"], s.dtype, False)
    ctx.require(z.todense() == keep and todense(z) == keep, lambda: "explicit rows %r densify to %r" % (z, z.todense()))
    two = tosparse(todense(s))
    ctx.require(list(map(dict, two)) == list(map(dict, s)) and two.size == s.size, lambda: "dense round trip %r, %r" % (two, s))
    # the structure survives copying and storing
    z = to_sparse_rows(X, case["marks"], case["order"], s.dtype, False)
    for name, f in (("pickle %d" % (len(case["marks"]) % 6), lambda v: pickle.loads(pickle.dumps(v, len(case["marks"]) % 6))),
                    ("copy", copy.copy), ("deepcopy", copy.deepcopy)):
        y = cmp.call_pure(name, f, z)
        ctx.require(issparse(y) and list(map(dict, y)) == list(map(dict, z)) and y.size == z.size and y.dtype is z.dtype
                    and cmp.call_pure("todense", todense, y) == keep, lambda: "%s of %r gives %r" % (name, z, y))
    # functions that accept sparse input
    big = max([abs(v) for r in X for v in r] + [0])
    for name, f in (("cosine_similarity_pure", cosine_similarity_pure), ("cosine_distances_pure", cosine_distances_pure),
                    ("linear_kernel_pure", linear_kernel_pure)):
        a = cmp.call_pure(name, f, [list(r) for r in X], [list(r) for r in case["Y"]])
        b = cmp.call_pure(name + "(sparse)", f, z, [list(r) for r in case["Y"]])
        atol = 1e-12 * (1 if "cosine" in name else big + 1) * 100
        ctx.require(generic.same(a, b, 1e-9, atol, types=False), lambda: "%s: dense %r, sparse %r" % (name, a, b))
    z = to_sparse_rows(X, case["marks"], case["order"], s.dtype, False)
    a = cmp.call_pure("normalize_pure", normalize_pure, [list(r) for r in X], norm=case["norm"])
    b = cmp.call_pure("normalize_pure(sparse)", normalize_pure, z, norm=case["norm"])
    bd = [[r.get(j, 0) for j in range(b.size)] for r in b]
    ctx.require(issparse(b) and b.size == len(X[0]) and generic.same(a, bd, 1e-12, 0.0, types=False),
                lambda: "normalize_pure %s: dense %r, sparse %r" % (case["norm"], a, b))
    if any(v for r in X for v in r):
        ctx.nt()
    if any(not any(r) for r in X):
        ctx.event("empty row")
    if all(r[-1] == 0 for r in X):
        ctx.event("trailing zero column")
    if any(v == 0 for r in z for v in r.values()):
        ctx.event("stored zero")
    ctx.event("values:" + case["mode"])


PROP = Prop("C13", [Suite("models", model_case, model_check, 9000), Suite("conversion", conv_case, conv_check, 8000)])
