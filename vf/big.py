"""Larger cases: the same kinds and the same comparisons at sizes where limits, offsets and recursion show.

A small case is generated as usual and then blown up by a fixed rule, so that it stays a plain value
(small to draw, small to shrink) and the fitted model is wide, deep, or has many classes or words.
"""
from hypothesis import strategies as st

from . import gen, kinds
from .core import Prop, Suite  # noqa: F401
from .kinds import KINDS

NUMERIC = ("logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "dtr", "etr", "rf", "extratrees",
           "bagging", "gb", "xgb", "gnb", "mnb", "cnb", "dummy", "std", "minmax", "maxabs", "normalizer", "tfidftr")
LABELLED = ("logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "rf", "extratrees", "bagging",
            "gb", "gnb", "mnb", "cnb", "dummy")


def widen(rows, f, plain=False):
    """f copies of every row side by side, each copy scaled by its own small factor."""
    out = []
    for r in rows:
        w = []
        for c in range(f):
            k = 1 if plain else 1 + (c * 7 % 5)
            s = c % max(1, len(r))
            w += [v if k == 1 else v * k for v in r[s:] + r[:s]]
        out.append(w)
    return out


def heighten(rows, f):
    return [[v + 0.37 * c * (1 + j % 3) if v == v else v for j, v in enumerate(r)] for c in range(f) for r in rows]


def enlarge(case, how, f):
    k = case["k"]
    c = dict(case)
    if how == "wide":
        plain = k in ("onehot", "ordinal", "imputer", "indicator")
        c["X"], c["T"] = widen(c["X"], f, plain), widen(c["T"], f, plain)
        if c.get("cats"):
            c["cats"] = widen([c["cats"]], f, True)[0]
        c["names"] = False
    elif how == "tall":
        n = len(c["X"])
        c["X"] = heighten(c["X"], f)
        if c.get("y") is not None:
            y = c["y"]
            c["y"] = [y[(i + i // n) % n] for i in range(n * f)]
        if c.get("sw"):
            c["sw"] = c["sw"] * f
        if "max_depth" in c["p"]:
            c["p"] = dict(c["p"], max_depth=None)
        if k == "xgb":
            c["p"] = dict(c["p"], max_depth=9, n_estimators=20)
    elif how == "classes":
        n = len(c["X"])
        t = max(1, -(-f // n))
        c["X"] = heighten(c["X"], t)
        kk = len(c["X"])
        if c["pool"] in ("str", "obj", "digits"):
            c["y"], c["pool"] = ["c%d" % (i * 7 % kk) for i in range(kk)], "str"
        else:
            c["y"], c["pool"] = [i * 3 % kk if kk % 3 else i for i in range(kk)], "int"
        c.pop("sw", None)
        p = dict(c["p"])
        for x in ("class_weight", "priors", "class_prior"):
            p.pop(x, None)
        if k == "gb":
            p.update(loss="deviance", n_estimators=2)
            p.pop("n_iter_no_change", None)
            p.pop("validation_fraction", None)
        c["p"] = p
    elif how == "trees":
        p = dict(c["p"], n_estimators=f)
        p.pop("n_iter_no_change", None)
        c["early"] = False
        c["p"] = p
    elif how == "levels":                            # a chain as deep as the training set is long
        n = 40 * f
        c["X"] = [[float(i)] + [0.0] * (len(c["X"][0]) - 1) for i in range(n)]
        pr = c.get("pr", [])
        c["T"] = [[float((i * 977) % n)] + [0.0] * (len(c["X"][0]) - 1) for i in range(12)] + [[float(n)] + [1.0] * (len(c["X"][0]) - 1)]
        c["pr"] = pr
        if k in ("dtr", "etr"):
            c["y"] = [4.0 ** (i % 500) for i in range(n)]
        else:
            vals = sorted(set(c["y"]), key=str)
            c["y"] = [vals[(i // 2 if k in ("rf", "bagging") else i) % len(vals)] for i in range(n)]
        c.pop("sw", None)
        c["xs"] = False
        keep = {a: v for a, v in c["p"].items() if a in ("random_state", "criterion", "n_estimators", "bootstrap", "base")}
        if k == "bagging":
            keep["base"] = "tree"
        if "n_estimators" in keep:
            keep["n_estimators"] = 2
        c["p"] = keep
    elif how == "values":                            # many categories per column
        d = len(c["X"][0])
        n = 3 * f
        if c["mode"] == "str" or c["obj"]:
            val = lambda i, j: "v%d" % (i * 13 % n)
            c["obj"] = True
        else:
            val = lambda i, j: (i * 13 % n) * (j + 1) - n // 2
        c["X"] = [[val(i, j) for j in range(d)] for i in range(n)]
        c["T"] = [[val(i * 31 + j, j) for j in range(d)] for i in range(9)]
        c.pop("cats", None)
        c["mode"] = "big"
    elif how == "keys":
        c["X"] = [dict(r, **{"k%d" % (i * f + j): [1, "s%d" % (j % 7), 2.5][j % 3] for j in range(f)}) for i, r in enumerate(c["X"])]
        c["T"] = [dict(r, **{"k%d" % (j * 3): [1, "s%d" % (j % 7), 2.5][j % 3] for j in range(f)}) for r in c["T"]]
    elif how == "text":
        body = " ".join("w%d" % (i * i % (7 * f)) for i in range(30 * f))
        long = "\u00e9a" * (9 * f)
        c["X"] = list(c["X"]) + [body]
        c["T"] = list(c["T"]) + [body[len(body) // 3:] + " " + long, long + " cat the " * (5 * f)]
    return c


HOW = {}
for _n in NUMERIC:
    HOW[_n] = ["wide"]
for _n in LABELLED:
    HOW[_n] = HOW[_n] + ["classes"]
for _n in ("gnb", "mnb", "cnb", "dummy"):
    HOW[_n] = HOW[_n] + ["tall"]
for _n in ("dtc", "etc", "dtr", "etr", "rf", "extratrees", "bagging"):
    HOW[_n] = HOW[_n] + ["tall", "levels", "levels", "levels"]
for _n in ("rf", "extratrees", "bagging", "gb", "xgb"):
    HOW[_n] = HOW[_n] + ["trees"]
HOW["xgb"].append("tall")
HOW["gb"].append("tall")
for _n in ("imputer", "indicator"):
    HOW[_n] = ["wide"]
for _n in ("onehot", "ordinal"):
    HOW[_n] = ["wide", "values"]
HOW["dictvec"] = ["keys"]
for _n in ("count", "tfidfvec", "hashing"):
    HOW[_n] = ["text"]
FACTOR = {"wide": [7, 40, 110], "tall": [3, 12], "classes": [20, 60], "trees": [30, 110], "levels": [1, 5, 35], "values": [30, 120],
          "keys": [60, 400], "text": [3, 40, 300]}


@st.composite
def big_case(draw, names):
    n = gen.pick(draw, names)
    c = kinds.generate(draw, n)
    how = gen.pick(draw, HOW[n])
    return {"c": c, "how": how, "f": gen.pick(draw, FACTOR[how])}


def big_check(case, ctx):
    c = enlarge(case["c"], case["how"], case["f"])
    kinds.differential(c, ctx)
    ctx.event("%s %s %d" % (c["k"], case["how"], case["f"]))
    ctx.event("large:" + case["how"])


def big_suite(names, quick, thorough=None):
    return Suite("large", lambda: big_case(names), big_check, quick, thorough)
