"""Matrix kernels against numpy."""
import copy
import math
import operator

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen
from ..core import Prop, Suite
from ..kinds import issparse, sparse_list
from .c17 import refused

from scipy import special

from pure_sklearn import base, utils
from pure_sklearn.utils import tosparse

PROFILES = ["smallint", "half", "tenth", "float", "sparse", "sparse", "wide", "huge"]


def spl(A, zeros, dtype=float):
    """Sparse structure of the dense rows; zeros: bytes that say which zeros are stored explicitly."""
    p, out = 0, []
    for r in A:
        d = {}
        for i, v in enumerate(r):
            if v != 0 or (zeros and zeros[p % len(zeros)] % 4 == 0):
                d[i] = v
            p += 1
        out.append(d)
    return sparse_list(out, size=len(A[0]), dtype=dtype)


def arr(A):
    return np.array(A, dtype=float)


def unchanged(ctx, what, before, after):
    ctx.require(repr(before) == repr(after), lambda: "%s changed its operand %r to %r" % (what, before, after))


# ------------------------------------------------------------------ matrices

@st.composite
def mat_case(draw):
    n, d = gen.draw_int(draw, 1, 7), gen.draw_int(draw, 1, 7)
    m = gen.draw_int(draw, 1, 5)
    prof, other = gen.pick(draw, PROFILES), gen.pick(draw, PROFILES)
    return {"A": gen.rows(draw, n, d, prof), "B": gen.rows(draw, n, d, other), "C": gen.rows(draw, m, d, other),
            "za": gen.raw_bytes(draw, 0, 6), "zb": gen.raw_bytes(draw, 0, 6), "idx": gen.raw_bytes(draw, 0, 9),
            "func": gen.pick(draw, ["add", "mul", "sub", "max"]), "elem": gen.pick(draw, ["abs", "neg", "twice", "plus1"]),
            "axis": gen.pick(draw, ["sum", "max", "min", "len"])}


FUNC = {"add": (operator.add, np.add), "mul": (operator.mul, np.multiply), "sub": (operator.sub, np.subtract), "max": (max, np.maximum)}
ELEM = {"abs": (abs, np.abs), "neg": (operator.neg, np.negative), "twice": (lambda v: v * 2, lambda A: A * 2),
        "plus1": (lambda v: v + 1, lambda A: A + 1)}


def mat_check(case, ctx):
    A, B, C = case["A"], case["B"], case["C"]
    n, d = len(A), len(A[0])
    NA, NB, NC = arr(A), arr(B), arr(C)
    SA, SB = spl(A, case["za"]), spl(B, case["zb"])
    keep = copy.deepcopy((A, B, C)), repr((SA, SB))
    with np.errstate(all="ignore"):
        # dot products
        tol = 4e-16 * (d + 2) * (np.abs(NA) @ np.abs(NC).T) + 1e-320
        cmp.matrix(ctx, "dot_2d", NA @ NC.T, base.dot_2d(A, C), 0.0, tol)
        cmp.matrix(ctx, "dot_2d(sparse)", NA @ NC.T, base.dot_2d(SA, C), 0.0, tol)
        for i in range(n):
            cmp.matrix(ctx, "dot", NC @ NA[i], base.dot(A[i], C), 0.0, tol[i])
            cmp.matrix(ctx, "dot(sparse)", NC @ NA[i], base.dot(SA[i], C), 0.0, tol[i])
        # elementwise product
        cmp.matrix(ctx, "matmult_same_dim", NA * NB, base.matmult_same_dim(A, B), 0.0, 0.0)
        S = base.matmult_same_dim(SA, SB)
        ctx.require(issparse(S) and S.size == d, lambda: "matmult_same_dim of sparse operands: %r" % (S,))
        cmp.matrix(ctx, "matmult_same_dim(sparse)", NA * NB, S, 0.0, 0.0)
        SS = base.matmult_same_dim(SA, SA)
        cmp.matrix(ctx, "matmult_same_dim(sparse with itself)", NA * NA, SS, 0.0, 0.0)
        # transpose
        T = base.transpose(A)
        cmp.matrix(ctx, "transpose", NA.T, T, 0.0, 0.0)
        ctx.require(base.transpose(T) == A, lambda: "transposing twice gives %r" % (base.transpose(T),))
        # elementwise application
        f, nf = FUNC[case["func"]]
        cmp.matrix(ctx, "operate_2d(%s)" % case["func"], nf(NA, NB), base.operate_2d(A, B, f), 0.0, 0.0)
        g, ng = ELEM[case["elem"]]
        cmp.matrix(ctx, "apply_2d(%s)" % case["elem"], ng(NA), base.apply_2d(A, g), 0.0, 0.0)
        P = base.apply_2d_sparse(SA, g)
        ctx.require(issparse(P) and P.size == d and P.dtype is float, lambda: "apply_2d_sparse: %r" % (P,))
        stored = np.array([[i in r for i in range(d)] for r in SA])
        cmp.matrix(ctx, "apply_2d_sparse(%s)" % case["elem"], np.where(stored, ng(NA), 0.0), P, 0.0, 0.0)
        # per-axis application
        h, nh = {"sum": (sum, np.sum), "max": (max, np.max), "min": (min, np.min), "len": (len, None)}[case["axis"]]
        for axis in (0, 1):
            got = base.apply_axis_2d(A, h, axis=axis)
            want = nh(NA, axis=axis) if nh else np.full(NA.shape[1 - axis], NA.shape[axis])
            t = 4e-16 * (max(n, d) + 2) * np.abs(NA).sum(axis=axis) + 1e-320 if h is sum else 0.0
            cmp.matrix(ctx, "apply_axis_2d(%s, axis=%d)" % (case["axis"], axis), want, got, 0.0, t)
        cmp.matrix(ctx, "apply_axis_2d(default axis)", NA.max(axis=1), base.apply_axis_2d(A, max), 0.0, 0.0)
        cmp.matrix(ctx, "apply_axis_2d(sparse sum)", NA.sum(axis=1), base.apply_axis_2d(SA, sum, axis=1), 0.0,
                   4e-16 * (d + 2) * np.abs(NA).sum(axis=1) + 1e-320)
        ctx.require(base.apply_axis_2d(SA, len, axis=1) == [len(r) for r in SA], "apply_axis_2d(sparse len)")
        # column slices
        idx = [b % d for b in case["idx"]]
        for j in {0, d - 1, (idx or [0])[0]}:
            cmp.matrix(ctx, "slice_column(%d)" % j, NA[:, j], base.slice_column(A, j), 0.0, 0.0)
            cmp.matrix(ctx, "slice_column(sparse, %d)" % j, NA[:, j], base.slice_column(SA, j), 0.0, 0.0)
        if idx:
            for ix in (idx, tuple(idx)):
                cmp.matrix(ctx, "slice_column(%r)" % (ix,), NA[:, idx], base.slice_column(A, ix), 0.0, 0.0)
                S = base.slice_column(SA, ix)
                ctx.require(issparse(S) and S.size == len(idx), lambda: "slice_column(sparse, %r): %r" % (ix, S))
                cmp.matrix(ctx, "slice_column(sparse, %r)" % (ix,), NA[:, idx], S, 0.0, 0.0)
            if len(set(idx)) < len(idx):
                ctx.event("repeated columns")
            if idx != sorted(idx):
                ctx.event("unsorted columns")
        # softmax
        for r, s in zip(NA, A):
            e = np.exp(r - r.max())
            sm = base.sfmax(s)
            cmp.matrix(ctx, "sfmax(%r)" % (s,), e / e.sum(), sm, 1e-12, 1e-300)
        for q in SA:
            if q:
                v = np.array([q[k] for k in q], dtype=float)
                e = np.exp(v - v.max())
                sm = base.sfmax(q)
                ctx.require(isinstance(sm, dict) and set(sm) == set(q), lambda: "sfmax(%r) = %r" % (q, sm))
                cmp.matrix(ctx, "sfmax(%r)" % (q,), e / e.sum(), [sm[k] for k in q], 1e-12, 1e-300)
    unchanged(ctx, "a kernel", keep[0], (A, B, C))
    unchanged(ctx, "a kernel", keep[1], repr((SA, SB))) if keep[1] != repr((SA, SB)) else None
    if any(len(r) != sum(v != 0 for v in r.values()) for r in SA):
        ctx.event("explicitly stored zero")
    if n != d:
        ctx.event("not square")
    if NA.any() and NB.any():
        ctx.nt()


# ------------------------------------------------------------------ refusals

@st.composite
def bad_case(draw):
    n, d = gen.draw_int(draw, 1, 5), gen.draw_int(draw, 1, 5)
    dn, dd = gen.pick(draw, [(0, 1), (1, 0), (0, -1), (-1, 0), (1, 1), (2, 0), (0, 2), (-1, 1), (1, -1)])
    prof = gen.pick(draw, PROFILES)
    swap = gen.flag(draw)
    n2, d2 = (d, n) if swap and n != d else (max(1, n + dn), max(1, d + dd))
    if (n2, d2) == (n, d):
        d2 += 1
    return {"A": gen.rows(draw, n, d, prof), "B": gen.rows(draw, n2, d2, prof), "C": gen.rows(draw, n, d, prof),
            "z": gen.raw_bytes(draw, 0, 4), "axis": gen.pick(draw, [2, -1, 3, None, "0"]), "a": gen.draw_int(draw, 0, 9)}


def bad_check(case, ctx):
    A, B, C = case["A"], case["B"], case["C"]
    SA, SB, SC = spl(A, case["z"]), spl(B, case["z"]), spl(C, case["z"])
    add = operator.add
    R = [list(r) for r in C] + [list(C[0])]
    R[1 + case["a"] % (len(R) - 1)].append(1.0)
    full = [list(r) for r in A] + [list(A[0])]
    bad = {
        "matmult_same_dim of shapes": (base.matmult_same_dim, A, B), "matmult_same_dim of sparse shapes": (base.matmult_same_dim, SA, SB),
        "matmult_same_dim(dense, sparse)": (base.matmult_same_dim, A, SC), "matmult_same_dim(sparse, dense)": (base.matmult_same_dim, SA, C),
        "operate_2d of shapes": (base.operate_2d, A, B, add), "operate_2d(dense, sparse)": (base.operate_2d, A, SC, add),
        "operate_2d(sparse, dense)": (base.operate_2d, SA, C, add), "operate_2d(sparse, sparse)": (base.operate_2d, SA, SC, add),
        "transpose(sparse)": (base.transpose, SA), "apply_2d(sparse)": (base.apply_2d, SA, abs),
        "apply_2d_sparse(dense)": (base.apply_2d_sparse, A, abs), "apply_axis_2d(sparse, axis 0)": (base.apply_axis_2d, SA, sum, 0),
        "apply_axis_2d(axis %r)" % (case["axis"],): (base.apply_axis_2d, A, sum, case["axis"]),
        "operate_2d with a ragged operand": (base.operate_2d, full, R, add), "matmult_same_dim with a ragged operand": (base.matmult_same_dim, full, R),
        "operate_2d with a ragged left operand": (base.operate_2d, R, full, add),
    }
    for name, call in bad.items():
        refused(ctx, "%s %s and %s" % (name, A, B), *call)
    ctx.event("same rows" if len(A) == len(B) else "same columns" if len(A[0]) == len(B[0]) else
              "transposed" if (len(A), len(A[0])) == (len(B[0]), len(B)) else "both differ")
    ctx.nt()


# ------------------------------------------------------------------ scalars

@st.composite
def scalar_case(draw):
    special = [0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308,
               709.782712893384, 709.7827128933841, 710.0, -745.1332191019412, -745.13321910194123, -746.0, 1.0, -1.0, 0, 1, 2, -3,
               10 ** 20, True, False, 2.2250738585072014e-308, 1e-310]
    xs = [gen.pick(draw, special) for _ in range(4)]
    xs += draw(st.lists(st.floats(allow_nan=True, allow_infinity=True), min_size=3, max_size=6))
    xs += draw(st.lists(st.floats(min_value=-760, max_value=730), min_size=3, max_size=6))
    xs += draw(st.lists(st.integers(-800, 800), max_size=3))
    return {"xs": xs}


def scalar_check(case, ctx):
    for x in case["xs"]:
        with np.errstate(all="ignore"):
            f = np.float64(x)
            l, e = float(np.log(f)), float(np.exp(f))
        gl = cmp.call_pure("safe_log(%r)" % x, base.safe_log, x)
        ge = cmp.call_pure("safe_exp(%r)" % x, base.safe_exp, x)
        if x == x:
            with np.errstate(all="ignore"):
                want = float(special.expit(f))
            got = cmp.call_pure("expit(%r)" % x, base.expit, x)
            ctx.require(isinstance(got, float) and cmp.isclose(got, want, 1e-13, 1e-307), lambda: "expit(%r) is %r, scipy %r" % (x, got, want))
        for name, got, want in (("safe_log", gl, l), ("safe_exp", ge, e)):
            ctx.require(isinstance(got, float) and cmp.isclose(got, want, 1e-14, 1e-323), lambda: "%s(%r) is %r, numpy %r" % (name, x, got, want))
        if x == x and abs(x) > 700:
            ctx.event("beyond exp range")
        if x <= 0:
            ctx.event("log of a non-positive number")
        if x != x or math.isinf(x):
            ctx.event("infinite or NaN")
    ctx.nt()


@st.composite
def soft_case(draw):
    prof = gen.pick(draw, ["smallint", "half", "float", "wide", "huge"])
    xs = gen.rows(draw, 1, gen.draw_int(draw, 1, 9), prof)[0]
    m = gen.pick(draw, [1, 1, 100, 1000, 1e5, 1e250])
    return {"xs": [v * m for v in xs], "keys": gen.raw_bytes(draw, 9, 9)}


def soft_check(case, ctx):
    xs = case["xs"]
    v = np.array(xs, dtype=float)
    with np.errstate(all="ignore"):
        e = np.exp(v - v.max())
    sm = cmp.call_pure("sfmax", base.sfmax, list(xs))
    cmp.matrix(ctx, "sfmax(%r)" % xs, e / e.sum(), sm, 1e-12, 1e-300)
    if hasattr(base, "logsumexp"):
        want = float(v.max() + np.log(e.sum()))
        got = cmp.call_pure("logsumexp(%r)" % xs, base.logsumexp, list(xs))
        ctx.require(isinstance(got, float) and cmp.isclose(got, want, 1e-13, 1e-14), lambda: "logsumexp(%r) is %r, numpy %r" % (xs, got, want))
    ctx.require(abs(sum(sm) - 1) < 1e-9, lambda: "sfmax(%r) sums to %r" % (xs, sum(sm)))
    q = {}
    for k, x in zip(case["keys"], xs):
        q[k] = x
    v = np.array(list(q.values()), dtype=float)
    with np.errstate(all="ignore"):
        e = np.exp(v - v.max())
    sm = cmp.call_pure("sfmax", base.sfmax, q)
    ctx.require(isinstance(sm, dict) and list(sm) == list(q), lambda: "sfmax(%r) = %r" % (q, sm))
    cmp.matrix(ctx, "sfmax(%r)" % q, e / e.sum(), list(sm.values()), 1e-12, 1e-300)
    if max(xs) - min(xs) > 700:
        ctx.event("range beyond exp")
    if max(xs) > 710:
        ctx.event("scores beyond exp")
    if max(xs) < -745:
        ctx.event("all scores below exp")
    if len(set(xs)) > 1:
        ctx.nt()


# ------------------------------------------------------------------ integer data

@st.composite
def int_case(draw):
    n, d = gen.draw_int(draw, 1, 6), gen.draw_int(draw, 1, 6)
    return {"A": [[int(v) for v in r] for r in gen.rows(draw, n, d, gen.pick(draw, ["smallint", "count"]))],
            "W": [[int(v) for v in r] for r in gen.rows(draw, 3, d, "smallint")], "idx": gen.raw_bytes(draw, 1, 5), "big": gen.pick(draw, [1, 1, 2 ** 40, 2 ** 62])}


def int_check(case, ctx):
    """Integer matrices stay integers, exactly."""
    A = [[v * case["big"] for v in r] for r in case["A"]]
    W = case["W"]
    d = len(A[0])
    N, M = np.array(A, dtype=object), np.array(W, dtype=object)
    S = tosparse(A)

    def exact(what, want, got):
        got = got.todense() if hasattr(got, "todense") else got
        want = want.tolist() if hasattr(want, "tolist") else want
        ctx.require(got == want and all(type(v) is int for r in got for v in (r if isinstance(r, list) else [r])),
                    lambda: "%s: %r, expected %r" % (what, got, want))

    exact("dot_2d", N.dot(M.T), base.dot_2d(A, W))
    exact("dot_2d(sparse)", N.dot(M.T), base.dot_2d(S, W))
    exact("matmult_same_dim", N * N, base.matmult_same_dim(A, A))
    exact("matmult_same_dim(sparse)", N * N, base.matmult_same_dim(S, S))
    exact("transpose", N.T, base.transpose(A))
    exact("apply_axis_2d(axis 0)", N.sum(axis=0), base.apply_axis_2d(A, sum, axis=0))
    exact("apply_axis_2d(axis 1)", N.sum(axis=1), base.apply_axis_2d(A, sum, axis=1))
    idx = [b % d for b in case["idx"]]
    exact("slice_column", N[:, idx], base.slice_column(A, idx))
    exact("slice_column(sparse)", N[:, idx], base.slice_column(S, idx))
    exact("slice_column(sparse, int)", N[:, idx[0]], base.slice_column(S, idx[0]))
    exact("apply_2d", N * 3, base.apply_2d(A, lambda v: v * 3))
    exact("apply_2d_sparse", N * 3, base.apply_2d_sparse(S, lambda v: v * 3))
    exact("operate_2d", N + N, base.operate_2d(A, A, operator.add))
    exact("ravel", N.ravel(), base.ravel(A))
    exact("accumu", np.cumsum(N[0]), list(base.accumu(A[0])))
    for what, fn, want in (("shape", utils.shape, (len(A), d)), ("ndim", utils.ndim, 2)):
        for form, X in (("dense", A), ("sparse", S)):
            got = cmp.call_pure(what, fn, X)
            ctx.require(got == want, lambda: "%s of a %s matrix: %r, expected %r" % (what, form, got, want))
    ctx.require(utils.shape(A[0]) == (d,) and utils.ndim(A[0]) == 1, lambda: "shape/ndim of %r" % (A[0],))
    if any(v for r in A for v in r):
        ctx.nt()


PROP = Prop("C19", [
    Suite("matrices", mat_case, mat_check, 12000),
    Suite("integers", int_case, int_check, 4000),
    Suite("refusals", bad_case, bad_check, 4000),
    Suite("softmax", soft_case, soft_check, 6000),
    Suite("scalars", scalar_case, scalar_check, 6000),
])
