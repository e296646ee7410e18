"""Malformed prediction input is refused."""
import collections
import copy

import numpy as np
from hypothesis import strategies as st

from .. import cmp, ft, gen, generic, kinds
from ..core import Discard, Prop, Suite
from ..generic import Model, sparse_list

from pure_sklearn.metrics.pairwise import cosine_distances_pure, cosine_similarity_pure, linear_kernel_pure
from pure_sklearn.preprocessing import normalize_pure

LINEAR = ["logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc"]
WIDTH = LINEAR + ["gb", "gb", "imputer", "imputer", "indicator", "indicator", "onehot", "onehot", "ordinal", "ordinal",
                  "tfidftr", "tfidftr"]
DENSE_ONLY = ["gb", "gnb", "mnb", "cnb", "onehot", "ordinal", "imputer", "indicator", "minmax", "std"]
TEXT = ["count", "tfidfvec", "hashing"]
TRANSFORMERS = {"std", "minmax", "maxabs", "normalizer", "onehot", "ordinal", "imputer", "indicator", "tfidftr", "dictvec"} | set(TEXT)


def refused(ctx, what, fn, *args):
    ctx.checks += 1
    try:
        r = fn(*args)
    except (ValueError, TypeError):
        return
    except Exception as e:
        ctx.fail("%s raised %s (%s) rather than ValueError or TypeError" % (what, type(e).__name__, str(e)[:200]))
    ctx.fail("%s returned %s" % (what, cmp.brief(r)))


def wrap(case, m):
    """The model itself, or the model inside a pipeline or union: (name, converted object)."""
    from sklearn.pipeline import FeatureUnion, Pipeline
    w = case["wrap"]
    if w == "union" and m.case["k"] not in TRANSFORMERS:
        w = "pipe"
    if w == "pipe":
        return "pipeline of ", kinds.convert(Pipeline([("m", m.est)]))
    if w == "skip":
        return "pipeline of ", kinds.convert(Pipeline([("s", "passthrough"), ("m", m.est)]))
    if w == "union":
        return "union of ", kinds.convert(FeatureUnion([("m", m.est)]))
    return "", m.pure


def methods(m, pure):
    return [x for x in m.methods if hasattr(pure, x)]


WRAPS = ["", "", "", "pipe", "skip", "union"]


def valid_answered(ctx, m, pure, form="plain"):
    """The same model answers the well-formed records (so a refusal is about the malformation)."""
    ok = 0
    for method in methods(m, pure):
        for r in m.rows:
            ok += generic.outcome(m.call, method, [r], form, pure)[0] == "ok"
    if ok:
        ctx.nt()
    else:
        ctx.event("valid records refused too")


# ------------------------------------------------------------------ width

@st.composite
def width_case(draw):
    return {"c": generic.gen_case(draw, WIDTH), "wrap": gen.pick(draw, WRAPS),
            "mode": gen.pick(draw, ["narrower", "wider", "wider2", "later narrower", "later wider", "first wider", "empty",
                                      "compensating", "compensating", "compensating first"]),
            "long": gen.pick(draw, [0, 0, 0, 0, 20, 70, 300]),
            "a": gen.draw_int(draw, 0, 30), "fill": gen.pick(draw, ["copy", "copy", 0, 0.0, 1])}


def bend(case, row, by):
    row = list(row)
    for _ in range(abs(by)):
        if by < 0:
            row.pop(case["a"] % len(row))
        else:
            row.insert(case["a"] % (len(row) + 1), row[case["a"] % len(row)] if case["fill"] == "copy" else case["fill"])
    return row


def width_check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    if k == "tfidftr" and not m.est.use_idf:
        raise Discard("tf-idf without idf has no training width")
    rows, d, mode = m.rows, len(m.rows[0]), case["mode"]
    wrapped, pure = wrap(case, m)
    plan = {"narrower": [-1] * len(rows), "wider": [1] * len(rows), "wider2": [2] * len(rows), "empty": [-d] * len(rows)}
    if mode in plan:
        by = plan[mode]
    elif mode.startswith("compensating"):            # the widths add up to those of well-formed records
        first = mode == "compensating first"
        need = 2 if first else 3
        while len(rows) < need:
            rows = rows + [list(rows[case["a"] % len(rows)])]
        by = [0] * len(rows)
        i = 0 if first else 1 + case["a"] % (len(rows) - 1)
        others = [j for j in range(0 if first else 1, len(rows)) if j != i]
        by[i], by[others[case["a"] // 5 % len(others)]] = (-1, 1) if case["a"] % 2 else (1, -1)
    else:
        rows = rows if len(rows) > 1 else rows + [list(rows[0])]
        by = [0] * len(rows)
        if mode == "first wider":
            by[0] = 1
        else:
            by[1 + case["a"] % (len(rows) - 1)] = -1 if mode == "later narrower" else 1
    if case.get("long") and any(b == 0 for b in by):  # the malformed record comes late in a long batch
        n = case["long"]
        rows = [rows[0] if by[0] == 0 else m.rows[0]] * n + rows
        by = [0] * n + by
        ctx.event("long batch")
    bad = [bend(case, r, b) for r, b in zip(rows, by)]
    valid_answered(ctx, m, pure)
    for method in methods(m, pure):
        what = "%s%s.%s of records of width %s (trained on %d)" % (wrapped, k, method, [len(r) for r in bad], d)
        refused(ctx, what, getattr(pure, method), copy.deepcopy(bad))
        if "sparse" in m.forms and len({len(r) for r in bad}) == 1:
            w = len(bad[0])
            S = sparse_list([{i: v for i, v in enumerate(r) if v != 0} for r in bad], size=w, dtype=float)
            refused(ctx, what + " (sparse)", getattr(pure, method), S)
            # the entries fit, only the declared width differs
            for w in (d - 1, d + 1):
                S = sparse_list([{i: v for i, v in enumerate(r[:min(w, d)]) if v != 0} for r in m.rows], size=w, dtype=float)
                refused(ctx, "%s%s.%s of a sparse_list of width %d (trained on %d)" % (wrapped, k, method, w, d), getattr(pure, method), S)
            ctx.event("sparse")
    ctx.event("kind:" + k)
    ctx.event("mode:" + mode)
    if wrapped:
        ctx.event("wrapped")


# ------------------------------------------------------------------ sparse input

@st.composite
def sparse_case(draw, names):
    return {"c": generic.gen_case(draw, names), "wrap": gen.pick(draw, WRAPS), "drop": gen.flag(draw), "axis": gen.pick(draw, ["l1", "l2", "max"])}


def sparse_check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    if k == "std" and not m.est.with_mean:
        raise Discard("not centring")
    wrapped, pure = wrap(case, m)
    rows = m.rows
    keep = (lambda v: isinstance(v, (str, type(None))) or v != 0) if case["drop"] else (lambda v: True)
    for sel in (rows, rows[:1]):
        S = sparse_list([{i: v for i, v in enumerate(r) if keep(v)} for r in sel], size=len(rows[0]), dtype=float)
        for method in methods(m, pure):
            refused(ctx, "%s%s.%s of sparse records" % (wrapped, k, method), getattr(pure, method), S)
    if k in ("minmax", "std"):
        S = sparse_list([{i: v for i, v in enumerate(r) if v} for r in rows], size=len(rows[0]), dtype=float)
        refused(ctx, "normalize_pure of sparse columns", normalize_pure, S, case["axis"], 0)
    ctx.event("kind:" + k)
    valid_answered(ctx, m, pure)


# ------------------------------------------------------------------ categories

@st.composite
def cat_case(draw):
    return {"c": generic.gen_case(draw, ["onehot", "ordinal"]), "wrap": gen.pick(draw, WRAPS), "a": gen.draw_int(draw, 0, 30),
            "b": gen.draw_int(draw, 0, 30), "new": gen.pick(draw, ["\u2603 unseen", "", 12345.678, -987654, "nan", None, "0", "1"]),
            "all": gen.pick(draw, [0, 0, 1])}


def cat_check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    if k == "onehot" and m.est.handle_unknown != "error":
        raise Discard("unseen categories are ignored")
    wrapped, pure = wrap(case, m)
    cats = [c.tolist() for c in m.est.categories_]
    known = [r for r in m.rows if all(v in c for v, c in zip(r, cats))]
    known = known or [[c[case["a"] % len(c)] for c in cats]]
    rows = [list(r) for r in known]
    i, j = case["a"] % len(rows), case["b"] % len(cats)
    v = case["new"]
    while v in cats[j]:
        v = (v + "~") if isinstance(v, str) else -7.25 if v is None else v * 2 + 1
    for r in (rows if case["all"] else [rows[i]]):
        r[j] = v
    refused(ctx, "%s%s.transform of %r, categories %s" % (wrapped, k, rows, cmp.brief(cats)), pure.transform, rows)
    o = generic.outcome(pure.transform, copy.deepcopy(known))
    ctx.require(o[0] == "ok", lambda: "%s%s.transform(%r) raised %s although every category is known" % (wrapped, k, known, o[1]))
    ctx.nt()
    ctx.event("kind:" + k)
    ctx.event("%d columns, unseen in %d" % (len(cats), j))


# ------------------------------------------------------------------ batches that are not lists of records

@st.composite
def batch_case(draw, names):
    return {"c": generic.gen_case(draw, names), "wrap": gen.pick(draw, WRAPS)}


def emptied(rows):
    s = sparse_list([{0: 1.0}], size=len(rows[0]), dtype=float)
    s.clear()
    return s


def batch_check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    wrapped, pure = wrap(case, m)
    rows = m.rows
    bad = [("[]", lambda: []), ("None", lambda: None), ("a number", lambda: 3)]
    loose = k in TEXT or k == "dictvec"     # documented to take any iterable
    if not loose or wrapped.startswith("union"):
        bad += [("a tuple", lambda: tuple(rows)), ("a generator", lambda: (r for r in rows)), ("a set", lambda: {1, 2}),
                ("a dict of records", lambda: dict(enumerate(rows))), ("a string", lambda: "abc"),
                ("a deque", lambda: collections.deque(rows)), ("an empty tuple", lambda: ()), ("an empty dict", lambda: {})]
        if not loose:
            bad.append(("a numpy array", lambda: np.array(rows, dtype=object)))
    if "sparse" in m.forms:
        bad.append(("an emptied sparse_list", lambda: emptied(rows)))
    if k in TEXT:
        bad += [("the string %r" % s, lambda s=s: s) for s in ([r for r in rows if isinstance(r, str)] + ["", "a b"])]
    if k in TEXT:
        for j in range(len(rows) + 1):
            bad.append(("documents with NaN at %d" % j, lambda j=j: list(rows[:j]) + [float("nan")] + list(rows[j:])))
    for method in methods(m, pure):
        for name, make in bad:
            refused(ctx, "%s%s.%s(%s)" % (wrapped, k, method, name), getattr(pure, method), make())
    ctx.event("kind:" + k)
    if wrapped:
        ctx.event("wrapped")
    valid_answered(ctx, m, pure)


# ------------------------------------------------------------------ pairwise

@st.composite
def pair_case(draw):
    d = gen.draw_int(draw, 1, 5)
    e = gen.draw_int(draw, 1, 5)
    prof = gen.pick(draw, ["smallint", "half", "float", "sparse"])
    X = gen.rows(draw, gen.draw_int(draw, 1, 4), d, prof)
    Z = gen.rows(draw, gen.draw_int(draw, 1, 4), e if e != d else e + 1, prof)
    Y = gen.rows(draw, gen.draw_int(draw, 1, 4), d, prof)
    return {"X": X, "Y": Y, "Z": Z, "a": gen.draw_int(draw, 0, 20)}


def pair_check(case, ctx):
    X, Y, Z = case["X"], case["Y"], case["Z"]
    d = len(X[0])
    sp = lambda A: sparse_list([{i: v for i, v in enumerate(r) if v} for r in A], size=len(A[0]), dtype=float)
    ragged = [list(r) for r in Y] + [list(Y[0])]
    ragged[1 + case["a"] % (len(ragged) - 1)].append(1.0)
    even = [list(r) for r in Y] + [list(Y[0]), list(Y[-1])]
    i = 1 + case["a"] % (len(even) - 2)
    even[i].append(1.0)
    even[i + 1].pop()
    bad = {"ragged right of the same total": (X, even), "ragged left of the same total": (even, Y),
           "different widths": (X, Z), "different widths, sparse left": (sp(X), Z), "different widths, reversed": (Z, X),
           "sparse right": (X, sp(Y)), "sparse on both sides": (sp(X), sp(Y)), "sparse with itself": (sp(X), None),
           "one-dimensional left": (X[0], Y), "one-dimensional right": (X, Y[0]), "one-dimensional": (X[0], None),
           "ragged right": (X, ragged), "ragged left": (ragged, X), "ragged": (ragged, None),
           "sparse right of another width": (X, sp(Z))}
    for norm in ("l3", "L2", "", None, 2, "l"):
        for axis in (0, 1):
            refused(ctx, "normalize_pure with norm %r on axis %d" % (norm, axis), normalize_pure, copy.deepcopy(X), norm, axis)
        refused(ctx, "normalize_pure with norm %r of sparse rows" % (norm,), normalize_pure, sp(X), norm)
    for axis in (2, -1, None, "1"):
        for norm in ("l1", "l2", "max"):
            refused(ctx, "normalize_pure with norm %s on axis %r" % (norm, axis), normalize_pure, copy.deepcopy(X), norm, axis)
    for fn in (cosine_similarity_pure, cosine_distances_pure, linear_kernel_pure):
        for name, (a, b) in bad.items():
            refused(ctx, "%s, %s" % (fn.__name__, name), fn, copy.deepcopy(a), copy.deepcopy(b))
        for a, b in ((X, Y), (sp(X), Y), (X, None), (X, X)):
            o = generic.outcome(fn, a, b)
            ctx.require(o[0] == "ok", lambda: "%s refuses matching operands (%s)" % (fn.__name__, o[1]))
    ctx.nt()
    ctx.event("widths %d and %d" % (d, len(Z[0])))


# ------------------------------------------------------------------ fastText

@st.composite
def ft_case(draw):
    m = ft.gen_file(draw)
    return {"m": m, "T": ft.texts(draw, m, 1, 4), "at": gen.draw_int(draw, 0, 60),
            "nl": gen.pick(draw, ["\n", "\r\n", "\n\n", "\n "]), "k": gen.pick(draw, [1, 2, -1]), "thr": gen.pick(draw, [0.0, 0.5])}


def ft_check(case, ctx):
    from pure_fasttext import FastText
    m = ft.build(case["m"])
    pure = cmp.call_pure("FastText", FastText, m)
    sup = case["m"]["model"] == "supervised"
    k, thr = case["k"], case["thr"]
    for i, t in enumerate(case["T"]):
        p = case["at"] % (len(t) + 1)
        for bad in {t[:p] + case["nl"] + t[p:], t + case["nl"], case["nl"] + t}:
            refused(ctx, "get_sentence_vector(%r)" % bad, pure.get_sentence_vector, bad)
            refused(ctx, "predict(%r)" % bad, pure.predict, bad, k, thr)
            refused(ctx, "predict of a list with %r" % bad, pure.predict, case["T"][:i] + [bad] + case["T"][i:], k, thr)
        if not sup:
            refused(ctx, "predict(%r) of an unsupervised model" % t, pure.predict, t, k, thr)
            refused(ctx, "predict([%r]) of an unsupervised model" % t, pure.predict, [t])
        else:
            o = generic.outcome(pure.predict, t, k, thr)
            ctx.require(o[0] == "ok", lambda: "predict(%r) raised %s" % (t, o[1]))
    if not sup:
        refused(ctx, "predict([]) of an unsupervised model", pure.predict, [])
    ctx.event("supervised" if sup else "unsupervised")
    ctx.nt()


ANY = [k for k in generic.LIGHT if k != "compose"]

PROP = Prop("C17", [
    Suite("width", width_case, width_check, 5000),
    Suite("sparse", lambda: sparse_case(DENSE_ONLY), sparse_check, 2500),
    Suite("sparse_xgb", lambda: sparse_case(["xgb"]), sparse_check, 300),
    Suite("categories", cat_case, cat_check, 4000),
    Suite("batch", lambda: batch_case(ANY), batch_check, 3000),
    Suite("batch_xgb", lambda: batch_case(["xgb"]), batch_check, 300),
    Suite("pairwise", pair_case, pair_check, 1500),
    Suite("fasttext", ft_case, ft_check, 500),
])
