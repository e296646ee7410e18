"""Pickle, unpickle and predict in an interpreter that has only the standard library."""
import atexit
import copy
import io
import os
import pickle
import pickletools
import shutil
import struct
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import cmp, funcs, gen, generic, kinds
from ..boot import REPO, VERIF, HarnessError
from ..core import Discard, Prop, Suite
from .c09 import F
from ..generic import Model, outcome, plain_types

BARE = "/usr/bin/python3"
STD = set(sys.stdlib_module_names)


class Worker:
    def __init__(self, hashseed, *flags):
        self.p = None
        self.flags = flags
        self.hashseed = hashseed

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": os.environ.get("HOME", "/"), "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
               "LC_ALL": "C", "PYTHONHASHSEED": self.hashseed}
        self.p = subprocess.Popen([BARE, "-P", "-s", "-S", "-B", *self.flags, os.path.join(VERIF, "vf", "worker", "bare.py"), os.path.abspath(REPO)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        atexit.register(self.stop)

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def ask(self, blob, calls):
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = pickle.dumps((blob, calls))
        self.p.stdin.write(struct.pack("<I", len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(4)
        if len(head) < 4:
            raise HarnessError("the bare interpreter died")
        return pickle.loads(self.p.stdout.read(struct.unpack("<I", head)[0]))


W = {False: Worker("1"), True: Worker("2", "-OO", "-X", "utf8=0")}


def export(x):
    if type(x).__name__ == "sparse_list":
        return ("__sparse__", x.size, getattr(x.dtype, "__name__", str(x.dtype)), [export(dict(r)) for r in x])
    if type(x) is list:
        return [export(v) for v in x]
    if type(x) is tuple:
        return ("__tuple__",) + tuple(export(v) for v in x)
    if type(x) is dict:
        return {k: export(v) for k, v in x.items()}
    return x


def identical(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(identical, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(identical(a[k], b[k]) for k in a)
    return a == b


def state_audit(obj, path="model", seen=None):
    """The state of a converted model: plain objects, and objects of the package."""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return None
    seen.add(id(obj))
    if type(obj).__module__.split(".")[0] in ("pure_sklearn", "pure_fasttext"):
        if isinstance(obj, list):
            r = plain_types(obj, path)
            if r:
                return r
        for k, v in (vars(obj) if hasattr(obj, "__dict__") else {}).items():
            r = state_audit(v, "%s.%s" % (path, k), seen)
            if r:
                return r
        return None
    if type(obj) in (list, tuple, set, frozenset):
        for i, v in enumerate(obj):
            r = state_audit(v, "%s[%d]" % (path, i), seen)
            if r:
                return r
        return None
    if type(obj) is dict or (isinstance(obj, dict) and type(obj).__module__ == "collections"):
        for k, v in obj.items():
            r = state_audit(k, "%s key" % path, seen) or state_audit(v, "%s[%r]" % (path, k), seen)
            if r:
                return r
        return None
    if getattr(type(obj), "__module__", "") in ("array", "re", "collections") or isinstance(obj, (range, complex)):
        return None                          # other standard-library objects survive unpickling
    if type(obj).__name__ in ("function", "builtin_function_or_method"):
        mod = (getattr(obj, "__module__", "") or "builtins").split(".")[0]
        return None if mod in STD or mod in ("pure_sklearn", "pure_fasttext") else "%s: function of %s" % (path, mod)
    return plain_types(obj, path)


def globals_of(blob):
    """Modules a pickle refers to."""
    mods, strings = set(), []
    for op, arg, _ in pickletools.genops(blob):
        if op.name == "GLOBAL":
            mods.add(arg.split(" ")[0])
        elif op.name == "STACK_GLOBAL":
            mods.add(strings[-2] if len(strings) > 1 else "?")
        elif isinstance(arg, str) and op.name not in ("GLOBAL",):
            strings.append(arg)
    return mods


@st.composite
def case_s(draw, names):
    c = generic.gen_case(draw, names)
    c["np"] = gen.flag(draw) if c["k"] != "fasttext" else False
    return {"c": c, "protocol": gen.draw_int(draw, 0, 5), "opt": gen.pick(draw, [False, False, True])}


def named(model, method):
    """The same naming as in worker/bare.py."""
    if method.startswith("="):
        return lambda: getattr(model, method[1:])
    if method.endswith(">"):
        return getattr(model, method[:-1])()
    return getattr(model, method)


def compare(ctx, what, o, there):
    if o[0] == "err":
        ctx.event("refused in both")
        ctx.require(there[0] == "err" and there[1] == o[1], lambda: "%s: %s here, %s in the bare interpreter" % (what, o, there))
        return
    ctx.require(there[0] == "ok", lambda: "%s fails in the bare interpreter: %s" % (what, there[1:]))
    ctx.require(identical(export(o[1]), there[1]), lambda: "%s: %s here, %s in the bare interpreter"
                % (what, cmp.brief(o[1]), cmp.brief(there[1])))
    ctx.nt()


def check(case, ctx):
    m = Model(case["c"])
    k = case["c"]["k"]
    bad = state_audit(m.pure)
    ctx.require(bad is None, lambda: "%s: not a plain object in the model state: %s" % (k, bad))
    try:
        blob = pickle.dumps(m.pure, protocol=case["protocol"])
    except Exception as e:
        ctx.fail("%s cannot be pickled with protocol %d: %s" % (k, case["protocol"], e))
    if case["protocol"] < 4:      # (memoised names make the audit unreliable for later protocols)
        alien = sorted(x for x in globals_of(blob) if x.split(".")[0] not in STD | {"pure_sklearn", "pure_fasttext", "__builtin__", "copy_reg"})
        ctx.require(not alien, lambda: "%s: the pickle refers to %r" % (k, alien))
    calls, here = [], []
    for form in m.forms:
        for meth in m.methods:
            if k == "fasttext":
                a = {"predict": (m.rows[0], case["c"]["kt"][0], case["c"]["kt"][1]),
                     "predict_list": (m.rows, case["c"]["kt"][0], case["c"]["kt"][1]),
                     "get_sentence_vector": (m.rows[0],), "get_word_vector": (generic.ft.words_of(case["c"]["m"])[0],),
                     "get_word_id": ("cat",)}[meth]
                meth = "predict" if meth == "predict_list" else meth
                o = outcome(getattr(m.pure, meth), *a)
            else:
                if form == "sparse":
                    a = (("__sparse_in__", len(m.rows[0]), [{j: v for j, v in enumerate(r) if v != 0} for r in m.rows]),)
                else:
                    a = (m.batch(m.rows),)
                o = outcome(m.call, meth, m.rows, form)
            calls.append((meth, a))
            here.append(o)
    extra = []
    if k == "fasttext":
        i = case["c"]["kt"][0] % len(m.est.get_words())
        extra = [("get_word_vector", ("neverseen\u00e9",)), ("get_word_id", ("neverseen",)), ("get_input_vector", (i,)), ("predict", (m.rows[0], 0)),
                 ("predict", (list(m.rows),)), ("predict", (m.rows[0] + "\n",))]
    if hasattr(m.pure, "classes_"):
        extra.append(("=classes_", ()))
    if hasattr(m.pure, "build_analyzer"):
        extra += [("build_analyzer>", (m.rows[0],)), ("build_preprocessor>", (m.rows[0],)), ("decode", (m.rows[0],))]
    for meth, a in extra:
        calls.append((meth, a))
        here.append(outcome(lambda: named(m.pure, meth)(*copy.deepcopy(a))))
    for (meth, a), o in zip(calls, here):
        if o[0] == "ok":
            bad = plain_types(o[1], meth)
            ctx.require(bad is None, lambda: "%s: not a plain object in the result: %s" % (k, bad))
    answers, alien = W[bool(case.get("opt"))].ask(blob, calls)
    ctx.require(answers[0][0] == "ok", lambda: "%s does not unpickle in the bare interpreter: %s" % (k, answers[0][1]))
    ctx.require(not alien, lambda: "%s: prediction imported %r" % (k, alien))
    for (meth, a), o, there in zip(calls, here, answers[1:]):
        what = "%s.%s(%s)" % (k, meth, cmp.brief(a, 200))
        compare(ctx, what, o, there)
    ctx.require(answers[-1][0] == "ok", lambda: "%s cannot be pickled again in the bare interpreter: %s" % (k, answers[-1][1]))
    ctx.event("kind:" + k)
    if case.get("opt"):
        ctx.event("interpreter run with -OO")
    ctx.event("protocol:%d" % case["protocol"])
    if case["c"].get("np"):
        ctx.event("numpy scalars in the hyper-parameters")


# ------------------------------------------------------------------ functions of the package

@st.composite
def fn_case(draw):
    c = draw(funcs.cases(sorted(funcs.MATRIX) + sorted(funcs.VECTOR) + sorted(funcs.TEXTS)))
    return {"f": c, "opt": gen.pick(draw, [False, False, True])}


def marked(a):
    if type(a).__name__ == "sparse_list":
        return ("__sparse_in__", a.size, [dict(r) for r in a])
    return a


def fn_check(case, ctx):
    f = case["f"]
    mod, fn = funcs.load(f["fn"])
    calls, here = [], []
    for a in funcs.args(f):
        calls.append(("%s:%s" % (mod, f["fn"]), tuple(marked(x) for x in a)))
        o = outcome(fn, *a)
        if o[0] == "ok":
            bad = plain_types(o[1], f["fn"])
            ctx.require(bad is None, lambda: "%s: not a plain object in the result: %s" % (f["fn"], bad))
        here.append(o)
    answers, alien = W[bool(case["opt"])].ask(None, calls)
    ctx.require(not alien, lambda: "%s imported %r" % (f["fn"], alien))
    for (meth, a), o, there in zip(calls, here, answers[1:]):
        compare(ctx, "%s(%s)" % (f["fn"], cmp.brief(a, 200)), o, there)
    ctx.event("function:" + f["fn"])


# ------------------------------------------------------------------ documents in files

@st.composite
def file_case(draw):
    return {"c": draw(F.strat()), "opt": gen.pick(draw, [False, False, True])}


def file_check(case, ctx):
    c = case["c"]
    tmp = tempfile.mkdtemp(prefix="vfdoc")
    try:
        est = kinds.KINDS[c["cls"]].make(F.params(c))
        cmp.call_ref("fit", lambda: est.fit(F.materialise(c, c["X"], tmp)))
        pure = kinds.convert(est)
        docs = F.materialise(c, c["T"], tmp)
        o = outcome(pure.transform, docs)
        there_docs = [("__file__", d.getvalue()) if isinstance(d, io.BytesIO) else d for d in docs]
        answers, alien = W[bool(case["opt"])].ask(pickle.dumps(pure), [("transform", (there_docs,))])
        ctx.require(answers[0][0] == "ok", lambda: "%s does not unpickle in the bare interpreter: %s" % (c["cls"], answers[0][1]))
        ctx.require(not alien, lambda: "%s: prediction imported %r" % (c["cls"], alien))
        compare(ctx, "%s.transform of a %s" % (c["cls"], c["how"]), o, answers[1])
        ctx.event(c["how"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


PROP = Prop("C12", [
    Suite("models", lambda: case_s(generic.LIGHT), check, 8000),
    Suite("fasttext", lambda: case_s(["fasttext"]), check, 400),
    Suite("xgb", lambda: case_s(["xgb"]), check, 150),
    Suite("functions", fn_case, fn_check, 2500),
    Suite("files", file_case, file_check, 500),
])
