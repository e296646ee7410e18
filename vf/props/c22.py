"""A number gives the same result whichever plain type it is written as."""
import math

from hypothesis import strategies as st

from .. import cmp, funcs, gen, generic, kinds
from ..core import Discard, Prop, Suite
from ..generic import Model, entries, outcome, same
from ..kinds import KINDS, issparse, sparse_list

NUMERIC = ["logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "dtr", "etr", "rf", "extratrees",
           "bagging", "gb", "gnb", "mnb", "cnb", "dummy", "std", "minmax", "maxabs", "normalizer", "tfidftr", "imputer", "indicator"]
POSITIVE = {"mnb", "cnb", "tfidftr"}
VALUES = [0, 1, 1, 2, 0, 3, -1, 1, 7, -4, 0, 100, 2, 65536, -30000, 16777217]


@st.composite
def case_s(draw, names):
    n = gen.pick(draw, names)
    c = KINDS[n].gen(draw)
    c["k"] = n
    if c.get("alpha") == "str":
        c = KINDS[n].gen(draw)
        c["k"] = n
    d = len(c["X"][0])
    m = gen.draw_int(draw, 1, 5)
    bs = gen.raw_bytes(draw, m * d)
    T = [[VALUES[bs[i * d + j] % 16] for j in range(d)] for i in range(m)]
    if n in POSITIVE:
        T = [[abs(v) for v in r] for r in T]
    if gen.flag(draw):                               # training values too, where they are whole numbers
        T += [[int(v) for v in r] for r in c["X"][:3] if all(isinstance(v, (int, float)) and abs(v) < 1e9 and v == int(v) for v in r)]
    return {"c": c, "T": T, "forms": gen.raw_bytes(draw, len(T) * d)}


def write(v, b):
    """The whole number v as an int, a float, a bool or a negative zero."""
    forms = [float(v), int(v)]
    if v in (0, 1):
        forms.append(bool(v))
    if v == 0:
        forms.append(-0.0)
    return forms[b % len(forms)]


def check(case, ctx):
    c = dict(case["c"])
    if c.get("alpha") == "str":
        raise Discard("strings")
    c["T"] = [[float(v) for v in r] for r in case["T"]]
    c["pr"] = []
    if c["k"] == "xgb":
        c["names"] = False
    m = Model(c)
    T, d, bs = case["T"], len(case["T"][0]), case["forms"]
    variants = [("floats", [[float(v) for v in r] for r in T]), ("ints", [[int(v) for v in r] for r in T]),
                ("mixed types", [[write(v, bs[i * d + j]) for j, v in enumerate(r)] for i, r in enumerate(T)]),
                ("a row of ints among floats", [[(int if i % 2 else float)(v) for v in r] for i, r in enumerate(T)])]
    for form in m.forms:
        for method in m.methods:
            base = None
            for name, rows in variants:
                if form == "sparse":
                    kinds_ = [("", sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in rows], size=d, dtype=float))]
                    if name == "ints":
                        kinds_.append((" with integer dtype", sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in rows], size=d, dtype=int)))
                    if name == "mixed types" and c["k"] != "tfidftr":     # (a stored zero has a logarithm in the source, too)
                        kinds_.append((" with stored zeros", sparse_list([{j: v for j, v in enumerate(r)} for r in rows], size=d, dtype=float)))
                else:
                    kinds_ = [("", [list(r) for r in rows])]
                for extra, X in kinds_:
                    o = outcome(m.call_on, m.pure, method, X)
                    if base is None:
                        base = o
                        continue
                    what = "%s.%s(%s)" % (c["k"], method, form)
                    ctx.require(o[0] == base[0], lambda: "%s: %s%s %s: %s, as floats: %s" % (what, name, extra, cmp.brief(X), cmp.brief(o), cmp.brief(base)))
                    if o[0] == "ok":
                        ctx.require(same(entries(o[1]), entries(base[1]), 1e-12, 0.0, types=False),
                                    lambda: "%s: %s%s %s give %s, as floats %s" % (what, name, extra, cmp.brief(X), cmp.brief(o[1]), cmp.brief(base[1])))
            if base and base[0] == "ok" and any(v for r in T for v in r):
                ctx.nt()
    ctx.event("kind:" + c["k"])


# ------------------------------------------------------------------ functions of the package

@st.composite
def fn_case(draw):
    n, m, d = gen.draw_int(draw, 1, 5), gen.draw_int(draw, 1, 4), gen.draw_int(draw, 1, 4)
    bs = gen.raw_bytes(draw, (n + m) * d)
    T = [[VALUES[bs[i * d + j] % 16] for j in range(d)] for i in range(n + m)]
    return {"fn": gen.pick(draw, ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure", "normalize_pure"]),
            "X": T[:n], "Y": T[n:], "forms": gen.raw_bytes(draw, (n + m) * d), "norm": gen.pick(draw, ["l1", "l2", "max"]),
            "axis": gen.draw_int(draw, 0, 1), "two": gen.flag(draw), "sparse": gen.flag(draw)}


def fn_check(case, ctx):
    X, Y, bs = case["X"], case["Y"], case["forms"]
    n, d = len(X), len(X[0])
    fn = funcs.load(case["fn"])[1]
    variants = [("floats", lambda i, j, v: float(v)), ("ints", lambda i, j, v: int(v)), ("mixed types", lambda i, j, v: write(v, bs[i * d + j]))]
    base = None
    for name, f in variants:
        A = [[f(i, j, v) for j, v in enumerate(r)] for i, r in enumerate(X)]
        B = [[f(n + i, j, v) for j, v in enumerate(r)] for i, r in enumerate(Y)]
        sparse = case["sparse"] and (case["axis"] == 1 if case["fn"] == "normalize_pure" else case["two"])
        if sparse:
            A = sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in A], size=d, dtype=int if name == "ints" else float)
        a = (A, case["norm"], case["axis"]) if case["fn"] == "normalize_pure" else (A, B) if case["two"] else (A,)
        o = outcome(fn, *a)
        if base is None:
            base = o
            continue
        ctx.require(o[0] == base[0], lambda: "%s: %s %s: %s, as floats: %s" % (case["fn"], name, cmp.brief(A), cmp.brief(o), cmp.brief(base)))
        if o[0] == "ok":
            ctx.require(same(entries(o[1]), entries(base[1]), 1e-12, 1e-15, types=False),
                        lambda: "%s: %s %s give %s, as floats %s" % (case["fn"], name, cmp.brief(A), cmp.brief(o[1]), cmp.brief(base[1])))
    if base[0] == "ok" and any(v for r in X for v in r):
        ctx.nt()
    ctx.event("function:" + case["fn"])


PROP = Prop("C22", [
    Suite("models", lambda: case_s(NUMERIC), check, 8000),
    Suite("xgb", lambda: case_s(["xgb"]), check, 300),
    Suite("functions", fn_case, fn_check, 2500),
])
