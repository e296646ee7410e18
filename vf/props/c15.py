"""Histories of calls, conversions, pickling, result modification and further training."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import cmp, funcs, gen, generic, interleave, kinds
from ..core import Discard, Prop, Suite
from ..generic import Model, outcome, same

OPS = ["call", "call", "call", "call", "call", "reuse", "reuse", "spoil", "spoil", "pickle", "deepcopy", "convert", "refit", "scribble", "other", "bad"]


@st.composite
def history(draw, names):
    cs = [generic.gen_case(draw, names) for _ in range(gen.pick(draw, [1, 1, 2]))]
    if gen.pick(draw, [0, 0, 1]):                    # the same kind twice, other data
        k = cs[0]["k"]
        cs = [cs[0], generic.gen_case(draw, [k])]
    n = gen.draw_int(draw, 1, 14)
    bs = gen.raw_bytes(draw, 4 * n)
    ops = [[OPS[bs[4 * i] % len(OPS)], bs[4 * i + 1], bs[4 * i + 2], bs[4 * i + 3]] for i in range(n)]
    return {"cs": cs, "ops": ops}


def spoil(x, depth=0):
    """Modify a returned value in place, as a caller may."""
    if isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, dict, tuple)):
                spoil(v, depth + 1)
            else:
                x[i] = -12345.75
        if depth == 0:
            x.append("spoiled")
        elif depth == 1:
            x.reverse()
            x.append(99)
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = -12345.75
        x[0] = 77
    elif isinstance(x, tuple):
        for v in x:
            if isinstance(v, (list, dict)):
                spoil(v, depth + 1)


def scribble(est):
    """Overwrite, in place, every array the source model holds."""
    seen = set()

    def walk(o, depth=0):
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                for v in o.ravel().tolist():
                    walk(v, depth + 1)
            elif o.flags.writeable and o.dtype.kind in "fiub" and o.size:
                try:
                    o[...] = 1
                except (ValueError, TypeError):
                    pass
        elif isinstance(o, dict):
            for v in list(o.values()):
                walk(v, depth + 1)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v, depth + 1)
        elif type(o).__module__.startswith(("sklearn", "scipy")) and hasattr(o, "__dict__"):
            if type(o).__name__ == "Tree":
                return
            for v in list(vars(o).values()):
                walk(v, depth + 1)

    walk(est)


def scribble_containers(est, seen=None):
    """Clear the plain containers (vocabularies, stop lists) the source model holds."""
    for o in vars(est).values() if hasattr(est, "__dict__") else []:
        if isinstance(o, dict) and o and all(isinstance(k, str) for k in o) and all(isinstance(v, (int, np.integer)) for v in o.values()):
            o.clear()
        elif isinstance(o, list) and o and all(isinstance(v, str) for v in o):
            o[:] = ["zz"]


def refit(m, other, b):
    """Further training of the source model, in the way its kind allows."""
    est = m.est
    if m.case["k"] in ("fasttext", "xgb"):
        return
    try:
        X, y = m.kind.train(m.case)
        if hasattr(est, "partial_fit") and y is not None and b % 2:
            for _ in range(3):
                est.partial_fit(X, y[::-1])
        elif hasattr(est, "partial_fit") and y is None and b % 2 and m.kind.family == "numeric":
            est.partial_fit(np.asarray(X) * 3 + 1)
        elif y is not None:
            est.fit(X, y[::-1])
        else:
            est.fit(X[:1])
    except Exception:
        pass


def reference(m):
    """What the source model itself returns, to see that conversion leaves it alone."""
    if m.case["k"] in ("fasttext", "compose") or m.kind.family not in ("numeric", "text", "dict"):
        return None
    out = []
    for meth in ("predict", "predict_proba", "decision_function", "transform"):
        if hasattr(m.est, meth):
            try:
                r = getattr(m.est, meth)(m.kind.ref(m.rows))
                out.append(np.array(cmp.ref_dense(r)))
            except Exception:
                out.append(None)
    return out


def equal_ref(a, b):
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and not (x.shape == y.shape and all(
                u == v or (u != u and v != v) for u, v in zip(x.ravel().tolist(), y.ravel().tolist()))):
            return False
    return True


def build(case):
    """Like Model, but looking at the source model before and after its conversion."""
    if case["k"] == "fasttext":
        return Model(case), None
    k, est = kinds.fitted(case)
    m = Model.__new__(Model)
    m.case, m.kind, m.est = case, k, est
    m.rows = k.rows(case, est)
    before = reference(m)
    m.pure = kinds.convert(est)
    after = reference(m)
    m.methods = list(k.offered(case, est))
    m.forms = ["plain"] + (["sparse"] if m.accepts_sparse() else [])
    return m, (before, after)


def check(case, ctx):
    models, base = [], []
    for c in case["cs"]:
        m, ref = build(c)
        m.finite = finite(m)
        ctx.event("kind:" + c["k"])
        if ref and ref[0] is not None:
            ctx.require(equal_ref(*ref), lambda: "%s: converting changed what the source model returns" % c["k"])
            ctx.event("source unchanged by conversion")
        blob = cmp.call_pure("pickle.dumps", pickle.dumps, m.pure)
        # what a fresh copy answers, each input on its own copy of the model
        inputs = []
        for form in m.forms:
            for i in range(min(3, len(m.rows)) + 1):
                sel = m.rows if i == 0 else [m.rows[i - 1]]
                inputs.append((form, [copy.deepcopy(r) for r in sel]))
        table = {}
        for meth in m.methods:
            for j, (form, sel) in enumerate(inputs):
                table[meth, j] = copy.deepcopy(outcome(m.call, meth, sel, form, cmp.call_pure("pickle.loads", pickle.loads, blob)))
        models.append([m, m.pure, inputs, table])
    last, called, bufs = None, 0, {}
    for op, a, b, c in case["ops"]:
        e = models[a % len(models)]
        m, pure, inputs, table = e
        if op == "call":
            meth = m.methods[b % len(m.methods)]
            j = c % len(inputs)
            form, sel = inputs[j]
            X = m.batch(sel, form)
            poke = form == "sparse" and c // 16 % 2 and m.finite
            if poke:                                 # a stored zero
                for r in X[:1]:
                    r.setdefault(0, 0.0)
            keep = copy.deepcopy(X)
            try:
                o = ("ok", m.call_on(pure, meth, X))
            except Exception as ex:
                o = ("err", type(ex).__name__)
            what = "%s.%s(%s)" % (m.case["k"], meth, form)
            ctx.require(same(X, keep), lambda: "%s changed its input: %s, was %s" % (what, cmp.brief(X), cmp.brief(keep)))
            want = table[meth, j]
            if poke:
                ok = o[0] == want[0] and (o[0] == "err" or same(dense(o[1]), dense(want[1]), 1e-12, 0.0, types=False))
            else:
                ok = o[0] == want[0] and same(o[1], want[1])
            ctx.require(ok, lambda: "%s of %s gives %s after %r, a fresh copy gives %s" % (
                what, cmp.brief(sel), cmp.brief(o), [x[0] for x in case["ops"]], cmp.brief(want)))
            last = o[1] if o[0] == "ok" else None
            called += 1
            if called > 1:
                ctx.nt()
        elif op == "reuse":
            # the caller keeps one container and refills it before every call
            meth = m.methods[b % len(m.methods)]
            j = c % len(inputs)
            form, sel = inputs[j]
            buf = refill(bufs.setdefault((id(m), form), m.batch(sel, form)), m.batch(sel, form), c // 64)
            try:
                o = ("ok", m.call_on(pure, meth, buf))
            except Exception as ex:
                o = ("err", type(ex).__name__)
            want = table[meth, j]
            ctx.require(o[0] == want[0] and same(o[1], want[1]), lambda: "%s.%s of a refilled container gives %s, a fresh copy gives %s" % (
                m.case["k"], meth, cmp.brief(o), cmp.brief(want)))
            last = o[1] if o[0] == "ok" else None
            called += 1
            if called > 1:
                ctx.nt()
                ctx.event("container refilled and passed again")
        elif op == "bad":
            # a call that most likely fails half way
            meth = m.methods[b % len(m.methods)]
            form, sel = inputs[c % len(inputs)]
            X = broken(m.batch(sel, form), b // 16, c // 16)
            keep = copy.deepcopy(X)
            try:
                last = m.call_on(pure, meth, X)
            except Exception as ex:
                last = None
                ctx.event("call failed in between: " + type(ex).__name__)
            ctx.require(same(X, keep), lambda: "%s.%s changed its input: %s, was %s" % (m.case["k"], meth, cmp.brief(X), cmp.brief(keep)))
        elif op == "spoil":
            if last is not None:
                spoil(last)
                last = None
                ctx.event("result modified by the caller")
        elif op == "pickle":
            e[1] = cmp.call_pure("pickling", lambda: pickle.loads(pickle.dumps(pure, protocol=b % 6)))
            ctx.event("pickled")
        elif op == "deepcopy":
            e[1] = cmp.call_pure("deepcopy", copy.deepcopy, pure)
        elif op == "convert":
            if m.case["k"] != "fasttext" and not getattr(m, "dirty", False):
                e[1] = kinds.convert(m.est)
                ctx.event("converted again")
        elif op == "other":
            o = models[b % len(models)][0]
            if o.case["k"] != "fasttext" and not getattr(o, "dirty", False):
                kinds.convert(o.est)
        elif op == "refit":
            m.dirty = True
            refit(m, models, b)
            ctx.event("source trained further")
        elif op == "scribble":
            if m.case["k"] not in ("fasttext", "xgb"):
                m.dirty = True
                scribble(m.est)
                scribble_containers(m.est)
                ctx.event("source arrays overwritten")
    if len(models) > 1:
        ctx.event("several models interleaved")


def broken(X, how, b):
    """The batch with something in it that no model can use, after some good records."""
    X = list(X) * 2 if not hasattr(X, "todense") else X
    i = len(X) - 1
    r = X[i]
    if isinstance(r, list) and how % 4 < 3:
        r = list(r)
        if how % 4 == 0:
            r = r[:-1]
        elif how % 4 == 1:
            r.append(1.0)
        elif r:
            r[b % len(r)] = "junk"
        X[i] = r
    elif isinstance(r, dict) and how % 4 < 3:
        X[i] = dict(r)
        X[i][9999 if how % 4 else "junk"] = "junk" if how % 2 else 1.0
    elif isinstance(r, str) and how % 2:
        X[i] = r + "\n" + r
    else:
        X[i] = None
    return X


def refill(buf, rows, deep):
    """Put rows into the container buf; with deep, into its existing row objects where that is possible."""
    old = list(buf)
    new = []
    for i, r in enumerate(rows):
        if deep and i < len(old) and type(old[i]) is type(r) and isinstance(r, (list, dict)) and old[i] is not r:
            if isinstance(r, list):
                old[i][:] = r
            else:
                old[i].clear()
                old[i].update(r)
            new.append(old[i])
        else:
            new.append(r)
    buf[:] = new
    return buf


# --- two calls at the same time

@st.composite
def overlap_case(draw, names):
    c = generic.gen_case(draw, names)
    runs = [gen.draw_int(draw, 1, 4) if gen.flag(draw) else gen.draw_int(draw, 1, 60) for _ in range(gen.draw_int(draw, 1, 12))]
    return {"c": c, "runs": runs, "pick": gen.raw_bytes(draw, 4)}


def overlap_check(case, ctx):
    m = Model(case["c"])
    b = case["pick"]
    blob = cmp.call_pure("pickle.dumps", pickle.dumps, m.pure)
    calls, want = [], []
    for t in (0, 1):
        meth = m.methods[b[t] % len(m.methods)]
        form = m.forms[b[t] // 16 % len(m.forms)]
        i = b[2 + t] % (len(m.rows) + 1)
        sel = m.rows if i == 0 else [m.rows[i - 1]]
        X = m.batch(sel, form)
        calls.append(lambda meth=meth, X=X: m.call_on(m.pure, meth, X))
        want.append(outcome(m.call, meth, sel, form, cmp.call_pure("pickle.loads", pickle.loads, blob)))
    out, switches = interleave.run(calls, case["runs"])
    ctx.event("kind:" + case["c"]["k"])
    for t in (0, 1):
        ctx.require(out[t][0] == want[t][0] and same(out[t][1], want[t][1]),
                    lambda: "%s: call %d of two overlapping ones gives %s, alone %s" % (
                        case["c"]["k"], t, cmp.brief(out[t]), cmp.brief(want[t])))
    if switches > 1:
        ctx.nt("calls overlapped")


def finite(m):
    """Whether a stored zero contributes nothing (an infinite weight makes it NaN in the source, too)."""
    return m.case["k"] != "tfidftr" or not m.est.use_idf or bool(np.isfinite(m.est.idf_).all())


def dense(x):
    return x.todense() if hasattr(x, "todense") else x


# ------------------------------------------------------------------ functions of the package

@st.composite
def fn_case(draw):
    names = sorted(funcs.MATRIX) + ["sfmax", "dot"]
    return {"fs": [draw(funcs.cases(names)) for _ in range(gen.pick(draw, [1, 1, 2]))], "n": gen.draw_int(draw, 1, 3)}


def frozen(x):
    """A value that tells any change of an argument, types and attributes included."""
    if isinstance(x, list):
        return (type(x).__name__, [frozen(v) for v in x], getattr(x, "size", None), getattr(x, "dtype", None))
    if isinstance(x, dict):
        return ("dict", [(k, repr(v)) for k, v in x.items()])
    return repr(x)


def fn_check(case, ctx):
    first = {}
    for turn in range(case["n"] + 1):
        for i, f in enumerate(case["fs"]):
            fn = funcs.load(f["fn"])[1]
            for a in funcs.args(f):
                before = frozen(list(a))
                o = outcome(fn, *a)
                ctx.require(frozen(list(a)) == before, lambda: "%s changed its arguments: %s before, %s after"
                            % (f["fn"], cmp.brief(before), cmp.brief(a)))
                if i not in first:
                    first[i] = copy.deepcopy(o)
                else:
                    ctx.require(o[0] == first[i][0] and same(o[1], first[i][1]), lambda: "%s: %s at first, %s at the call number %d"
                                % (f["fn"], cmp.brief(first[i]), cmp.brief(o), turn + 1))
                if o[0] == "ok":
                    spoil(o[1])
                    ctx.nt()
            ctx.event("function:" + f["fn"])


PROP = Prop("C15", [
    Suite("histories", lambda: history(generic.LIGHT), check, 8000),
    Suite("compositions", lambda: history(["numeric compose"]), check, 2000),
    Suite("overlapping", lambda: overlap_case(generic.LIGHT + ["fasttext"]), overlap_check, 1600),
    Suite("fasttext", lambda: history(["fasttext"]), check, 500),
    Suite("xgb", lambda: history(["xgb"]), check, 100),
    Suite("functions", fn_case, fn_check, 2500),
])
