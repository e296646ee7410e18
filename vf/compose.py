"""Compositions: pipelines and unions of any depth over numeric, categorical, text and dict input."""
import numpy as np
import scipy.sparse as sp

from . import cmp, gen
from .core import Discard, Violation
from .kinds import KINDS, Kind, kind, issparse, sparse_list

FINAL_DENSE = ["logreg", "sgd", "ridge", "linearsvc", "dtc", "rf", "gnb", "dummy", "gb", "bagging"]
FINAL_SPARSE = ["logreg", "sgd", "ridge", "linearsvc", "dtc", "rf", "dummy", "perceptron", "passive", "bagging"]


def est_spec(draw, name, **force):
    p = {
        "std": lambda: {"with_mean": gen.flag(draw), "with_std": gen.flag(draw)},
        "stdsp": lambda: {"with_mean": False, "with_std": gen.pick(draw, [True, True, False])},
        "identity": lambda: {"with_mean": False, "with_std": False},
        "minmax": lambda: {"feature_range": gen.pick(draw, [(0, 1), (-1.0, 2.0)])},
        "maxabs": lambda: {},
        "normalizer": lambda: {"norm": gen.pick(draw, ["l1", "l2", "max"])},
        "imputer": lambda: {"strategy": gen.pick(draw, ["mean", "median", "most_frequent"]),
                            "add_indicator": gen.flag(draw)},
        "indicator": lambda: {"features": "all", "sparse": False},
        "onehot": lambda: {"handle_unknown": "ignore", "sparse": gen.flag(draw), "dtype": "float64"},
        "ordinal": lambda: {"dtype": "float64"},
        "dictvec": lambda: {"sparse": gen.flag(draw), "sort": True, "separator": "=", "dtype": "float64"},
        "count": lambda: {"analyzer": gen.pick(draw, ["word", "char_wb"]), "binary": gen.flag(draw),
                          "ngram_range": gen.pick(draw, [(1, 1), (1, 2)])},
        "tfidfvec": lambda: {"norm": gen.pick(draw, ["l2", "l1", None]), "use_idf": gen.flag(draw),
                             "sublinear_tf": gen.flag(draw), "binary": gen.flag(draw)},
        "hashing": lambda: {"n_features": gen.pick(draw, [4, 16, 64]), "norm": gen.pick(draw, ["l2", None]),
                            "alternate_sign": gen.flag(draw)},
        "tfidftr": lambda: {"norm": gen.pick(draw, ["l2", None]), "use_idf": gen.flag(draw),
                            "sublinear_tf": False},
        "logreg": lambda: {"max_iter": 20, "multi_class": gen.pick(draw, ["auto", "ovr"])},
        "sgd": lambda: {"loss": gen.pick(draw, ["log", "log", "hinge"]), "max_iter": 5, "tol": None, "random_state": 0},
        "ridge": lambda: {"alpha": 1.0}, "perceptron": lambda: {"max_iter": 5, "tol": None, "random_state": 0},
        "passive": lambda: {"max_iter": 5, "tol": None, "random_state": 0},
        "linearsvc": lambda: {"max_iter": 50, "random_state": 0},
        "dtc": lambda: {"max_depth": 3, "random_state": 0},
        "rf": lambda: {"n_estimators": 3, "max_depth": 3, "random_state": 0},
        "bagging": lambda: {"base": "tree", "n_estimators": 3, "random_state": 0, "max_features": 0.75},
        "gb": lambda: {"loss": "deviance", "init": None, "n_estimators": 2, "max_depth": 2, "random_state": 0},
        "gnb": lambda: {"var_smoothing": 1e-2}, "mnb": lambda: {"alpha": 0.5}, "cnb": lambda: {"alpha": 0.5},
        "dummy": lambda: {"strategy": "prior"},
    }[name]()
    p.update(force)
    return ["est", "std" if name in ("stdsp", "identity") else name, p]


def named(draw, specs, prefix):
    return [["%s%d" % (prefix, i), s] for i, s in enumerate(specs)]


def maybe_skip(draw, specs):
    out = []
    for s in specs:
        if gen.pick(draw, [0, 0, 0, 0, 1]):
            out.append(skipped(draw))
        out.append(s)
    return out


def skipped(draw):
    """A step that passes its input on: a skipped one, or a pipeline of skipped ones."""
    s = gen.pick(draw, ["passthrough", None])
    if gen.pick(draw, [0, 0, 1]):
        return ["pipe", [["z%d" % i, gen.pick(draw, ["passthrough", None])] for i in range(gen.draw_int(draw, 1, 2))]]
    return s


def gives_sparse(spec):
    """Whether a union has a sparse one-hot branch (and so a sparse result) on dense input."""
    if not isinstance(spec, list):
        return False
    if spec[0] == "est":
        return spec[1] == "onehot" and spec[2]["sparse"]
    if spec[0] == "pipe":
        return gives_sparse(spec[1][-1][1])
    return any(gives_sparse(s) for _, s in spec[1])


def numeric_union(draw, ints, depth, sparse=False, plain=0):
    """A union over a numeric matrix; over a sparse one, of transformers that accept it."""
    opts = ["std", "minmax", "maxabs", "normalizer", "imputer"] + (["onehot", "onehot", "onehot"] if ints else [])
    inner = ["std", "minmax"]
    if sparse:
        opts = ["stdsp", "maxabs", "normalizer"]
        inner = ["stdsp", "maxabs"]
    opts = opts + ["identity"] * plain
    branches = []
    for _ in range(gen.draw_int(draw, 1, 3)):
        if depth > 0 and gen.pick(draw, [0, 0, 0, 1]):
            tail = gen.pick(draw, [[], [], ["passthrough"], [None]])
            body = [] if tail and not sparse and gen.flag(draw) else [est_spec(draw, n) for n in inner]
            branches.append(["pipe", named(draw, body + tail, "n")])
        elif depth > 0 and gen.pick(draw, [0, 0, 0, 1]):
            branches.append(numeric_union(draw, ints, depth - 1, sparse, plain))
        else:
            branches.append(est_spec(draw, gen.pick(draw, opts)))
        if gen.pick(draw, [0, 0, 0, 0, 1]):
            branches.append(gen.pick(draw, ["drop", None]))
    if gen.pick(draw, [0] * 30 + [1]):
        branches = [gen.pick(draw, ["drop", None]) for _ in branches]
    return union(draw, branches)


def union(draw, branches):
    nm = named(draw, branches, "u")
    w = None
    if gen.flag(draw):
        w = {n: gen.pick(draw, [2.0, 0.5, -1.0, 3, 0.0, 0.1]) for n, _ in nm if gen.flag(draw)}
    return ["union", nm, w]


def make(spec, np_scalars=False):
    from sklearn.pipeline import FeatureUnion, Pipeline
    if spec is None or isinstance(spec, str):
        return spec
    if spec[0] == "pipe":
        return Pipeline([(n, make(s)) for n, s in spec[1]])
    if spec[0] == "union":
        return FeatureUnion([(n, make(s)) for n, s in spec[1]], transformer_weights=spec[2])
    k = KINDS[spec[1]]
    return k.make(spec[2])


def one_per_column(record, sep="="):
    out, seen = {}, set()
    for k, v in record.items():
        name = k + sep + v if isinstance(v, str) else k
        if name not in seen:
            seen.add(name)
            out[k] = v
    return out


def final_of(spec):
    while isinstance(spec, list) and spec[0] == "pipe":
        spec = spec[1][-1][1]
    return spec


class Comp(Kind):
    name = "compose"
    family = "mixed"

    def gen(self, draw, numeric=False):
        """With numeric: over a numeric matrix, with many steps that return their input as it is."""
        inp = "num" if numeric else gen.pick(draw, ["num", "num", "cat", "text", "text", "dict"])
        c = {"inp": inp}
        nosplit = gen.pick(draw, ["clf", "clf", "clf", "trans", "pass"])
        if inp == "num":
            ints = gen.pick(draw, [False, True])
            prof = "smallint" if ints else gen.pick(draw, ["half", "tenth", "float"])
            n, d = gen.draw_int(draw, 5, 12), gen.draw_int(draw, 2, 4)
            X = gen.rows(draw, n, d, prof)
            T = gen.test_rows(draw, X, prof, d, nmax=5)
            steps = []
            nan = (not ints) and gen.pick(draw, [0, 0, 1])
            if nan:
                KINDS["xgb"].poke_nan(draw, X)
                KINDS["xgb"].poke_nan(draw, T)
                steps.append(est_spec(draw, "imputer"))
            fin, sparse = FINAL_DENSE, False
            plain = 4 if numeric else 1
            if not nan and gen.pick(draw, [0, 0, 1]):
                c["spin"] = sparse = True            # a sparse matrix from the start
            for _ in range(gen.draw_int(draw, 0, 3)):
                if gen.pick(draw, [0, 1, 1] if numeric else [0, 0, 1]):
                    u = numeric_union(draw, ints and not steps, 1, sparse, plain)
                    sparse = sparse or gives_sparse(u)
                    steps.append(u)
                else:
                    steps.append(est_spec(draw, gen.pick(draw, ["identity"] * plain + (["stdsp", "maxabs", "normalizer"] if sparse else
                                                         ["std", "minmax", "maxabs", "normalizer"]))))
            if sparse:
                fin = FINAL_SPARSE
        elif inp == "cat":
            e = KINDS["onehot"].gen(draw) if gen.pick(draw, [0, 1, 1]) else KINDS["ordinal"].gen(draw)
            X, T = e["X"], e["T"]
            while len(X) < 4:
                X = X + [list(r) for r in X]
            c["obj"] = e["obj"]
            if e["p"].get("handle_unknown"):
                steps = [est_spec(draw, "onehot")]
                fin = FINAL_SPARSE
            else:
                steps, fin = [est_spec(draw, "ordinal")], FINAL_DENSE
                T = [X[i % len(X)] for i in range(len(T))]
            if gen.flag(draw):
                steps.append(est_spec(draw, gen.pick(draw, ["maxabs", "normalizer", "stdsp"])))
        elif inp == "text":
            X = [gen.any_doc(draw) for _ in range(gen.draw_int(draw, 2, 6))] + ["the cat sat", "a dog on the mat cat"]
            T = [gen.any_doc(draw) for _ in range(gen.draw_int(draw, 1, 4))]
            a = gen.pick(draw, ["one", "one", "union"])
            vec = lambda: est_spec(draw, gen.pick(draw, ["count", "tfidfvec", "hashing"]))
            if a == "one":
                steps = [vec()]
            else:
                br = [vec() for _ in range(gen.draw_int(draw, 1, 3))]
                if gen.flag(draw):
                    br[0] = ["pipe", named(draw, [est_spec(draw, "count"), est_spec(draw, "tfidftr")], "p")]
                steps = [union(draw, br)]
            if gen.flag(draw):
                steps.append(est_spec(draw, gen.pick(draw, ["tfidftr", "maxabs", "normalizer", "stdsp"])
                                      if a == "one" and steps[0][1] == "count" else gen.pick(draw, ["maxabs", "normalizer", "stdsp"])))
            fin = FINAL_SPARSE
        else:
            e = KINDS["dictvec"].gen(draw)
            # two keys for one column: the source passes on a sparse matrix with the entries not yet added
            # up, and its next step may see them one by one (the dictvec suite compares the matrix itself)
            X, T = [one_per_column(r) for r in e["X"]], [one_per_column(r) for r in e["T"]]
            while len(X) < 4:
                X = X + [dict(r) for r in X]
            steps = [est_spec(draw, "dictvec")]
            if gen.flag(draw):
                steps.append(est_spec(draw, gen.pick(draw, ["maxabs", "normalizer", "stdsp"])))
            fin = FINAL_SPARSE
        y = None
        if nosplit == "clf":
            steps.append(est_spec(draw, gen.pick(draw, fin)))
            pool, y = gen.labels(draw, len(X), kmin=2, kmax=3)
            c["pool"] = pool
        elif nosplit == "pass" and steps:
            steps.append(skipped(draw))
        if not steps:
            steps = [est_spec(draw, "stdsp" if c.get("spin") else "std")]
        if len(steps) > 1 and gen.pick(draw, [0, 0, 1]):
            # fold a prefix into a nested pipeline
            k = gen.draw_int(draw, 1, len(steps) - 1)
            tail = gen.pick(draw, [[], [], [skipped(draw)]])
            steps = [["pipe", named(draw, maybe_skip(draw, steps[:k]) + tail, "in")]] + steps[k:]
        if len(steps) == 1 and isinstance(steps[0], list) and steps[0][0] == "union" and gen.flag(draw):
            spec = steps[0]
        else:
            last = steps[-1:]
            spec = ["pipe", named(draw, maybe_skip(draw, steps[:-1]) + last, "s")]
        c.update(X=X, T=T, y=y, p=spec)
        return c

    def train(self, case):
        y = case.get("y")
        if y is not None:
            y = np.array(y, dtype=object) if case.get("pool") == "obj" else np.array(y)
        return self.arr(case, case["X"]), y

    def arr(self, case, rows):
        if case["inp"] == "num":
            return sp.csr_matrix(np.array(rows, dtype=float)) if case.get("spin") else np.array(rows, dtype=float)
        if case["inp"] == "cat":
            return KINDS["onehot"].arr(case, rows)
        return rows

    def fit(self, case):
        est = make(case["p"])
        X, y = self.train(case)
        est.fit(X) if y is None else est.fit(X, y)
        return est

    def ref(self, rows):
        raise NotImplementedError

    def offered(self, case, est):
        f = final_of(case["p"])
        if f is None or isinstance(f, str) or f[0] == "union":
            return ["transform"]
        return {"logreg": ["predict", "predict_proba", "predict_log_proba"],
                "sgd": ["predict"] + (["predict_proba", "predict_log_proba"] if f[2].get("loss") == "log" else []),
                "ridge": ["predict"], "linearsvc": ["predict"], "perceptron": ["predict"], "passive": ["predict"],
                }.get(f[1], ["predict", "predict_proba", "predict_log_proba"]
                      if f[1] in ("dtc", "rf", "gnb", "dummy", "gb", "bagging") else ["transform"])

    def compare(self, ctx, case, est, pure, rows):
        R = self.arr(case, rows)
        offered = self.offered(case, est)
        for m in ("predict", "predict_proba", "predict_log_proba", "transform"):
            ctx.require(hasattr(pure, m) == (m in offered),
                        lambda: "%s offered: %s, expected %s" % (m, hasattr(pure, m), m in offered))
        ctx.event("input:" + case["inp"])
        ctx.event("depth:%d" % depth(case["p"]))
        f = final_of(case["p"])
        ctx.event("final:%s" % (f if f is None or isinstance(f, str) else f[1] if f[0] == "est" else f[0]))
        if "union" in repr(case["p"]):
            ctx.event("has union")
        ctx.nt()
        if case.get("spin"):
            ctx.event("sparse input")
            rows = sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in rows], size=R.shape[1], dtype=float)
        if "transform" in offered:
            r = cmp.call_ref("transform", est.transform, R)
            rd = cmp.ref_dense(r)
            if rd.dtype.kind == "f" and not np.isfinite(rd).all():
                raise Discard("ref-not-finite")
            p = cmp.call_pure("transform", pure.transform, rows)
            if "union" in repr(case["p"][0]) and rd.shape[1] == 0:
                ctx.event("everything dropped")
            if sp.issparse(r):
                ctx.require(issparse(p), lambda: "source result sparse, pure %s" % type(p).__name__)
                ctx.require(p.size == r.shape[1], lambda: "width %r, source %r" % (p.size, r.shape[1]))
            ctx.event("sparse result" if sp.issparse(r) else "dense result")
            if rd.dtype == object:
                cmp.cells(ctx, "transform", r, p)
            else:
                cmp.matrix(ctx, "transform", r, p, 1e-9, 1e-12)
            return
        rl = cmp.call_ref("predict", est.predict, R)
        Rt = self.upto(est, R)
        with np.errstate(all="ignore"):
            stable = self.stable(est, Rt)
        classes = est.classes_
        allowed = [None] * len(rows)
        tol = None
        if hasattr(est, "decision_function"):
            d = cmp.call_ref("decision", est.decision_function, R)
            finite_scale = 1e-7 * (1 + np.abs(cmp.ref_dense(Rt)).max(initial=0) * 10)
            score, tol = d, finite_scale
        if "predict_proba" in offered:
            rp = cmp.call_ref("proba", est.predict_proba, R)
            if np.isnan(rp).any():
                raise Discard("ref-nan")
            pp = cmp.call_pure("predict_proba", pure.predict_proba, rows)
            lp = cmp.call_pure("predict_log_proba", pure.predict_log_proba, rows)
            cmp.shape_is(ctx, "predict_proba", pp, rp.shape)
            sel = [i for i in range(len(rows)) if stable[i]]
            cmp.matrix(ctx, "predict_proba", rp[sel], [pp[i] for i in sel], 1e-7, 1e-7)
            cmp.log_consistent(ctx, "predict_log_proba", pp, lp, 1e-9, 1e-9)
            if tol is None:
                score, tol = rp, 1e-7
        pl = cmp.call_pure("predict", pure.predict, rows)
        if tol is not None:
            allowed = near(classes, np.asarray(score, dtype=float), tol)
        cl = [cmp.plain(c) for c in np.asarray(classes).tolist()]
        for i in range(len(rows)):
            if not stable[i]:
                allowed[i] = cl
                ctx.event("unstable row skipped")
        cmp.labels(ctx, "predict", rl, pl, allowed)
        if hasattr(pure, "classes_"):
            ctx.require(pure.classes_ == cl, lambda: "classes_ %r, source %r" % (pure.classes_, cl))

    def upto(self, est, R):
        for _, s in est.steps[:-1]:
            if s is not None and s != "passthrough":
                R = s.transform(R)
        return R

    def stable(self, est, Rt):
        """Tree-like final steps: rows whose prediction survives a 1e-9 perturbation of the features."""
        f = est.steps[-1][1]
        n = Rt.shape[0] if hasattr(Rt, "shape") else len(Rt)
        if hasattr(f, "coef_") or not hasattr(f, "predict_proba") or type(f).__name__ in ("GaussianNB", "DummyClassifier"):
            return [True] * n
        Rt = cmp.ref_dense(Rt).astype(float)
        base = f.predict_proba(Rt)
        ok = np.ones(n, dtype=bool)
        for e in (1e-9, -1e-9):
            ok &= np.abs(f.predict_proba(Rt * (1 + e) + e) - base).max(axis=1) < 1e-9
        # exact zeros are exact on both sides, so adding e alone must not disqualify them
        okz = np.ones(n, dtype=bool)
        for e in (1e-9, -1e-9):
            okz &= np.abs(f.predict_proba(Rt * (1 + e)) - base).max(axis=1) < 1e-9
        return list(okz)


def near(classes, score, tol):
    classes = [cmp.plain(c) for c in np.asarray(classes).tolist()]
    out = []
    for r in score:
        if np.ndim(r) == 0:
            out.append([classes[int(r > 0)]] if abs(r) > tol else classes)
        else:
            b = r.max()
            out.append([c for c, v in zip(classes, r) if v >= b - tol])
    return out


def depth(spec):
    if not isinstance(spec, list) or spec[0] == "est":
        return 0
    return 1 + max([depth(s) for _, s in spec[1]] + [0])


kind(Comp)
