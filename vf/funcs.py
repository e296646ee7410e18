"""Calls of the package's public functions (metrics, normalisation, matrix helpers, text helpers)."""
import operator

from hypothesis import strategies as st

from . import gen
from .core import Discard
from .kinds import sparse_list

BASE, UTILS, PAIR, TEXT = "pure_sklearn.base", "pure_sklearn.utils", "pure_sklearn.metrics.pairwise", "pure_sklearn.feature_extraction.text"
MATRIX = {
    "dot_2d": BASE, "matmult_same_dim": BASE, "transpose": BASE, "ravel": BASE, "slice_column": BASE, "apply_axis_2d": BASE,
    "apply_2d": BASE, "apply_2d_sparse": BASE, "operate_2d": BASE, "shape": UTILS, "tosparse": UTILS, "todense": UTILS,
    "normalize_pure": "pure_sklearn.preprocessing", "cosine_similarity_pure": PAIR, "cosine_distances_pure": PAIR, "linear_kernel_pure": PAIR}
VECTOR = {"sfmax": BASE, "expit": BASE, "safe_log": BASE, "safe_exp": BASE, "dot": BASE}
TEXTS = {"strip_accents_unicode": TEXT, "strip_accents_ascii": TEXT, "strip_tags": TEXT}
PROFILES = ["smallint", "half", "tenth", "float", "sparse", "wide", "huge"]


@st.composite
def cases(draw, names):
    fn = gen.pick(draw, names)
    c = {"fn": fn}
    if fn in TEXTS:
        c["texts"] = gen.docs(draw, 1, 3)
        return c
    prof = gen.pick(draw, PROFILES)
    n, d = gen.draw_int(draw, 1, 5), gen.draw_int(draw, 1, 5)
    c["X"] = gen.rows(draw, n, d, prof)
    c["sparse"] = gen.flag(draw)
    m = n if fn in ("matmult_same_dim", "operate_2d") else gen.draw_int(draw, 1, 4)
    c["Y"] = gen.rows(draw, m, d, prof)
    c["a"] = gen.raw_bytes(draw, 3)
    return c


def sp(rows):
    return sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in rows], size=len(rows[0]), dtype=float)


def args(c):
    """Fresh arguments of the call (lists and sparse structures), or None when the form does not apply."""
    fn = c["fn"]
    if fn in TEXTS:
        return [(t,) for t in c["texts"]]
    X, Y = [list(r) for r in c["X"]], [list(r) for r in c["Y"]]
    a = c["a"]
    d = len(X[0])
    if fn in ("safe_log", "safe_exp", "expit"):
        return [(v,) for v in X[0]]
    if fn in ("sfmax",):
        return [(dict(enumerate(X[0])),)] if c["sparse"] and fn == "sfmax" else [(X[0],)]
    if fn == "dot":
        return [(sp(X)[0] if c["sparse"] else X[0], Y)]
    S = sp(X) if c["sparse"] else X
    if fn == "dot_2d":
        return [(S, Y)]
    if fn in ("matmult_same_dim",):
        return [(S, sp(Y) if c["sparse"] else Y)]
    if fn in ("transpose", "ravel", "tosparse"):
        return [(X,)]
    if fn == "todense":
        return [(sp(X),)]
    if fn == "shape":
        return [(S,)]
    if fn == "slice_column":
        return [(S, a[0] % d if a[1] % 3 == 0 else [b % d for b in a])]
    if fn == "apply_axis_2d":
        f = [max, min, sum][a[0] % 3]
        if c["sparse"]:
            return [(S, sum, 1)]
        return [(X, f, a[1] % 2)]
    if fn == "apply_2d":
        return [(X, [abs, operator.neg][a[0] % 2])]
    if fn == "apply_2d_sparse":
        return [(sp(X), [abs, operator.neg][a[0] % 2])]
    if fn == "operate_2d":
        return [(X, Y, [operator.add, operator.mul, operator.sub][a[0] % 3])]
    if fn == "normalize_pure":
        norm = ["l1", "l2", "max"][a[0] % 3]
        if c["sparse"]:
            return [(S, norm, 1, bool(a[2] % 2))]
        return [(X, norm, a[1] % 2, bool(a[2] % 2), bool(a[2] % 3 == 0))]
    if fn.endswith("_pure"):                          # pairwise
        how = a[0] % 3
        if how == 0:
            return [(X,)]
        if how == 1:
            return [(X, X)]
        return [(S, Y)]
    raise AssertionError(fn)


def load(fn):
    import importlib
    mod = MATRIX.get(fn) or VECTOR.get(fn) or TEXTS[fn]
    try:
        return mod, getattr(importlib.import_module(mod), fn)
    except AttributeError:
        raise Discard("no such function")
