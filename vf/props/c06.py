"""Scalers, normalisation, pairwise."""
import numpy as np

from .. import cmp, gen, kinds
from ..core import Discard, Prop, Suite, Violation
from ..big import big_suite
from .common import kind_suite
from hypothesis import strategies as st

from pure_sklearn.metrics.pairwise import cosine_distances_pure, cosine_similarity_pure, linear_kernel_pure
from pure_sklearn.preprocessing import normalize_pure
from pure_sklearn.utils import issparse, tosparse

PROFILES = ["smallint", "half", "tenth", "float", "sparse", "wide", "huge"]


@st.composite
def norm_case(draw):
    prof = gen.pick(draw, PROFILES)
    n, d = gen.draw_int(draw, 1, 6), gen.draw_int(draw, 1, 6)
    return {"X": gen.rows(draw, n, d, prof), "norm": gen.pick(draw, ["l1", "l2", "max"]),
            "axis": gen.pick(draw, [1, 1, 0]), "ret": gen.flag(draw), "sparse": gen.flag(draw), "copy": gen.flag(draw)}


def norm_check(case, ctx):
    from sklearn.preprocessing import normalize
    X = [list(r) for r in case["X"]]
    sparse = case["sparse"] and case["axis"] == 1
    ret = case["ret"] and not (sparse and case["norm"] in ("l1", "l2"))
    R = np.array(X, dtype=float)
    if sparse:
        import scipy.sparse as sp
        R = sp.csr_matrix(R)
    with np.errstate(all="ignore"):
        r = cmp.call_ref("normalize", normalize, R, norm=case["norm"], axis=case["axis"], return_norm=ret)
    P = tosparse(X) if sparse else X
    p = cmp.call_pure("normalize_pure", normalize_pure, P, norm=case["norm"], axis=case["axis"],
                      return_norm=ret, copy=case["copy"])
    rn = pn = None
    if ret:
        r, rn = r
        ctx.require(isinstance(p, tuple) and len(p) == 2, lambda: "return_norm gives %s" % cmp.brief(p))
        p, pn = p
    if not np.isfinite(cmp.ref_dense(r)).all():
        raise Discard("ref-not-finite")
    ctx.require(issparse(p) == sparse, "normalize_pure changed the representation")
    cmp.matrix(ctx, "normalize_pure", r, p, 1e-12)
    if ret:
        cmp.matrix(ctx, "normalize_pure norms", rn, list(pn), 1e-12)
    ctx.event("norm:%s axis:%d %s" % (case["norm"], case["axis"], "sparse" if sparse else "dense"))
    A = np.array(X, dtype=float)
    if (A == 0).all(axis=case["axis"]).any():
        ctx.event("all-zero vector")
    if (A < 0).any():
        ctx.event("negative values")
    if A.any():
        ctx.nt()


@st.composite
def pair_case(draw):
    d = gen.draw_int(draw, 1, 5)
    prof = gen.pick(draw, ["smallint", "half", "float", "sparse", "wide"])
    X = gen.rows(draw, gen.draw_int(draw, 1, 5), d, prof)
    mode = gen.pick(draw, ["none", "same", "other", "other"])
    Y = gen.rows(draw, gen.draw_int(draw, 1, 5), d, gen.pick(draw, [prof, "smallint"]))
    if gen.flag(draw):
        Y = Y + [list(X[0])]
    return {"X": X, "Y": Y, "mode": mode, "fn": gen.pick(draw, ["sim", "dist", "lin"]), "sparse": gen.flag(draw)}


def pair_check(case, ctx):
    from sklearn.metrics import pairwise as P
    ref = {"sim": P.cosine_similarity, "dist": P.cosine_distances, "lin": P.linear_kernel}[case["fn"]]
    fn = {"sim": cosine_similarity_pure, "dist": cosine_distances_pure, "lin": linear_kernel_pure}[case["fn"]]
    X = [list(r) for r in case["X"]]
    Y = {"none": None, "same": X, "other": case["Y"]}[case["mode"]]
    RX = np.array(X, dtype=float)
    RY = {"none": None, "same": RX, "other": np.array(case["Y"], dtype=float)}[case["mode"]]
    r = cmp.call_ref("pairwise", ref, RX, RY)
    PX = tosparse(X) if (case["sparse"] and case["mode"] == "other") else X
    p = cmp.call_pure(fn.__name__, fn, PX, Y)
    if case["fn"] == "lin":
        S = np.abs(RX) @ np.abs(RX if RY is None else RY).T
        atol = 1e-13 * S
    else:
        atol = 2e-15 * (RX.shape[1] + 2)
    cmp.matrix(ctx, fn.__name__, r, p, 0.0, atol)
    ctx.event("%s:%s:%s" % (case["fn"], case["mode"], "sparse" if PX is not X else "dense"))
    if case["fn"] == "dist" and case["mode"] != "other":
        for i in range(len(p)):
            ctx.require(p[i][i] == 0, lambda: "distance of a record to itself is %r" % p[i][i])
    if case["fn"] == "dist":
        ctx.require(all(0 <= v <= 2 for row in p for v in row), lambda: "cosine distance out of [0, 2]: %r" % p)
    if RX.any():
        ctx.nt()


PROP = Prop("C06", [
    kind_suite("std", 4000), kind_suite("minmax", 3000), kind_suite("maxabs", 3000), kind_suite("normalizer", 4000),
    Suite("normalize_fn", norm_case, norm_check, 5000), Suite("pairwise", pair_case, pair_check, 5000),
    big_suite(["std", "minmax", "maxabs", "normalizer"], 160),
])
