"""Cases over every kind of converted model, for the properties that are not about one family."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from . import cmp, compose, ft, gen, kinds  # noqa: F401
from .core import Discard, Violation
from .kinds import KINDS, convert, issparse, sparse_list

LIGHT = ["logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "dtr", "etr", "rf", "extratrees",
         "bagging", "gb", "gnb", "mnb", "cnb", "dummy", "std", "minmax", "maxabs", "normalizer", "onehot", "ordinal",
         "dictvec", "imputer", "indicator", "count", "tfidfvec", "hashing", "tfidftr", "compose", "compose", "compose"]
ALL = LIGHT + ["xgb", "fasttext", "fasttext"]
SPARSE_KINDS = {"logreg", "ridge", "sgd", "perceptron", "passive", "linearsvc", "dtc", "etc", "dtr", "etr", "rf",
                "extratrees", "bagging", "dummy", "std", "maxabs", "normalizer", "tfidftr"}
TOL_LABEL = 1e-9


class FastTextKind:
    """fastText models in the shape of a Kind; records are texts."""

    name = "fasttext"
    family = "fasttext"

    def gen(self, draw):
        m = ft.gen_file(draw)
        return {"k": "fasttext", "m": m, "T": ft.texts(draw, m, 1, 5),
                "kt": (gen.pick(draw, [1, 2, -1]), gen.pick(draw, [0.0, 0.2]))}


FT = FastTextKind()


def gen_case(draw, names):
    n = gen.pick(draw, names)
    if n == "fasttext":
        return FT.gen(draw)
    if n == "numeric compose":
        n = "compose"
        c = KINDS[n].gen(draw, numeric=True)
    else:
        c = kinds.generate(draw, n)
    c["k"] = n
    if gen.pick(draw, [0, 0, 1]):
        c["np"] = True
    return c


class Model:
    """A source model, its conversion, its records, and the calls it offers."""

    def __init__(self, case, need_rows=True):
        self.case = case
        if case["k"] == "fasttext":
            from pure_fasttext import FastText
            self.kind = FT
            self.est = ft.build(case["m"])
            self.pure = cmp.call_pure("FastText", FastText, self.est)
            self.rows = list(case["T"])
            self.methods = ["get_sentence_vector", "get_word_vector", "get_word_id"]
            if case["m"]["model"] == "supervised":
                self.methods += ["predict", "predict_list"]
            self.forms = ["plain"]
            return
        self.kind, self.est = kinds.fitted(case)
        self.pure = convert(self.est)
        self.rows = self.kind.rows(case, self.est) if need_rows else None
        self.methods = [m for m in self.kind.offered(case, self.est)]
        self.forms = ["plain"]
        if self.accepts_sparse():
            self.forms.append("sparse")

    def accepts_sparse(self):
        n, c = self.case["k"], self.case
        if n == "compose":
            return bool(c.get("spin"))
        if n not in SPARSE_KINDS:
            return False
        if n == "std":
            return not self.est.with_mean
        if n == "bagging":
            return c["p"]["base"] in ("tree", "logreg", "forest", "bag", "sgd", "prior")
        return True

    def batch(self, rows, form="plain", size=None, dtype=None):
        """The pure input for these records (always fresh objects)."""
        if form == "sparse":
            size = size if size is not None else len(self.rows[0])
            return sparse_list([{i: v for i, v in enumerate(r) if v != 0} for r in rows], size=size, dtype=dtype or float)
        return [copy.deepcopy(r) for r in rows]

    def call(self, method, rows, form="plain", pure=None):
        return self.call_on(pure if pure is not None else self.pure, method, self.batch(rows, form))

    def call_on(self, pure, method, X):
        if self.case["k"] == "fasttext":
            k, thr = self.case["kt"]
            if method == "predict_list":
                return list(zip(*pure.predict(X, k, thr)))
            if method == "predict":
                return [pure.predict(t, k, thr) for t in X]
            if method == "get_sentence_vector":
                return [pure.get_sentence_vector(t) for t in X]
            f = getattr(pure, method)
            return [f(w) for t in X for w in t.split(" ")[:1]]
        return getattr(pure, method)(X)

    def single_rows(self):
        return [[r] for r in self.rows]


def outcome(fn, *a):
    """('ok', value) or ('err', exception class name)."""
    try:
        return "ok", fn(*a)
    except Exception as e:
        return "err", type(e).__name__


def entries(res):
    """Per-record results of a batch result."""
    if issparse(res):
        return [("sparse", res.size, {k: v for k, v in r.items() if v != 0}) for r in res]
    return list(res)


def same(a, b, rtol=0.0, atol=0.0, types=True):
    """Deep equality; NaN equals NaN; floats within tolerance."""
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        if types and type(a) is not type(b):
            return False
        return cmp.isclose(float(a), float(b), rtol, atol)
    if types and type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if issparse(a) and types and not (issparse(b) and a.size == b.size and a.dtype is b.dtype):
            return False
        return len(a) == len(b) and all(same(x, y, rtol, atol, types) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol, types) for k in a)
    return a == b


def near_tie(scores, tol=1e-9):
    """Whether the winning entry of a score row (or a binary score) is not safely separated."""
    if isinstance(scores, (int, float)):
        return not abs(scores) > tol
    s = sorted(scores, reverse=True)
    return any(v != v for v in s) or (len(s) > 1 and not s[0] - s[1] > tol * (1 + abs(s[0])))


def plain_types(x, path="result", seen=None):
    """First path at which something other than a plain Python object occurs, or None."""
    seen = set() if seen is None else seen
    if x is None or type(x) in (int, float, str, bool, bytes):
        return None
    if isinstance(x, type):
        return None if x in (int, float, str, bool, object, list, dict, tuple, bytes) else "%s: type %r" % (path, x)
    if id(x) in seen:
        return None
    seen.add(id(x))
    if type(x) in (list, tuple, set, frozenset) or issparse(x):
        for i, v in enumerate(x):
            r = plain_types(v, "%s[%d]" % (path, i), seen)
            if r:
                return r
        if issparse(x):
            return plain_types(dict(vars(x)), path + ".__dict__", seen)
        return None
    if isinstance(x, dict):
        if type(x).__module__ not in ("builtins", "collections"):
            return "%s: %s" % (path, type(x))
        for k, v in x.items():
            r = plain_types(k, "%s key %r" % (path, k), seen) or plain_types(v, "%s[%r]" % (path, k), seen)
            if r:
                return r
        return None
    return "%s: %s.%s" % (path, type(x).__module__, type(x).__qualname__)


@st.composite
def cases(draw, names):
    return gen_case(draw, names)


def extreme_rows(draw, rows, big=300):
    """Rows scaled to any magnitude."""
    out = []
    for r in rows:
        out.append(list(r))
        bs = gen.raw_bytes(draw, len(r))
        m = [0, 0, 3, 17, 40, 100, 154, 200, big]
        out.append([float(v) * 10.0 ** m[b % len(m)] if not math.isinf(float(v) * 10.0 ** m[b % len(m)]) else v
                    for v, b in zip(r, bs)])
    return out
