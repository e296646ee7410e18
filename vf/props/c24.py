"""Source models whose stored state has the layout of an earlier supported release."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, generic, kinds
from ..core import Discard, Prop, Suite
from ..kinds import KINDS, convert
from .c20 import contains_gb, pretend

# what each release added: the state of an earlier one does not have it (release, class, attributes)
ADDED = [
    ("0.23", "*", ["n_features_in_"]),
    ("0.22", "DummyClassifier", ["_strategy"]),
    ("0.22", "DecisionTreeClassifier", ["ccp_alpha"]), ("0.22", "DecisionTreeRegressor", ["ccp_alpha"]),
    ("0.22", "ExtraTreeClassifier", ["ccp_alpha"]), ("0.22", "ExtraTreeRegressor", ["ccp_alpha"]),
    ("0.22", "RandomForestClassifier", ["ccp_alpha", "max_samples"]), ("0.22", "ExtraTreesClassifier", ["ccp_alpha", "max_samples"]),
    ("0.22", "GradientBoostingClassifier", ["ccp_alpha"]),
    ("0.22", "MultinomialNB", ["n_features_"]), ("0.22", "ComplementNB", ["n_features_"]),
    ("0.21", "OneHotEncoder", ["drop", "drop_idx_"]), ("0.21", "LogisticRegression", ["l1_ratio"]),
    ("0.21", "Pipeline", ["verbose"]), ("0.21", "FeatureUnion", ["verbose"]),
    ("0.21", "CountVectorizer", ["_stop_words_id"]), ("0.21", "TfidfVectorizer", ["_stop_words_id"]), ("0.21", "HashingVectorizer", ["_stop_words_id"]),
]
# what earlier releases had besides
HAD = [
    ("0.23", "OneHotEncoder", {"_legacy_mode": False, "_n_values": None, "_categorical_features": None, "n_values": None, "categorical_features": None}),
    ("0.22", "DecisionTreeClassifier", {"presort": False}), ("0.22", "DecisionTreeRegressor", {"presort": False}),
    ("0.22", "GradientBoostingClassifier", {"presort": "auto"}),
    ("0.21", "HashingVectorizer", {"non_negative": False}), ("0.21", "SGDClassifier", {"n_iter": None}),
    ("0.21", "Perceptron", {"n_iter": None}), ("0.21", "PassiveAggressiveClassifier", {"n_iter": None}),
]
RELEASES = ["0.20", "0.20.3", "0.21.0", "0.21.3", "0.22", "0.22.2.post1"]


def number(v):
    return [int(x) for x in v.split(".")[:2]]


def walk(o, seen):
    """Every estimator reachable from a fitted object, each once."""
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, (list, tuple, set)):
        for x in o:
            yield from walk(x, seen)
    elif isinstance(o, dict):
        for x in o.values():
            yield from walk(x, seen)
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.ravel():
                yield from walk(x, seen)
    elif type(o).__module__.startswith("sklearn.") and hasattr(o, "__dict__"):
        if hasattr(o, "get_params"):
            yield o
        for x in list(o.__dict__.values()):
            yield from walk(x, seen)


def aged(est, v, case, ctx):
    """A copy of the model as that release would have stored it, predictions unchanged."""
    old = copy.deepcopy(est)
    for e in list(walk(old, set())):
        name = type(e).__name__
        d = e.__dict__
        for since, cls, attrs in ADDED:
            if number(v) < number(since) and cls in ("*", name):
                for a in attrs:
                    if d.pop(a, d) is not d:
                        ctx.event("without %s.%s" % (name if cls != "*" else "any", a))
        for until, cls, attrs in HAD:
            if number(v) < number(until) and cls == name:
                for a, x in attrs.items():
                    d.setdefault(a, x)
        if name == "SimpleImputer" and number(v) < [0, 21] and not d["add_indicator"]:
            d.pop("add_indicator")
            d.pop("indicator_", None)
            ctx.event("without SimpleImputer.add_indicator")
        if name == "LogisticRegression" and number(v) < [0, 22] and d["multi_class"] == "ovr" and case["warn"]:
            d["multi_class"] = "warn"                # the default of those releases: one versus the rest
            if d["solver"] == "liblinear":
                d["solver"] = "warn"
            ctx.event("multi_class='warn'")
        if name == "OneHotEncoder" and number(v) < [0, 21] and e.__dict__.get("drop") is not None:
            raise Discard("option of a later release")
    return old


@st.composite
def case_s(draw, names):
    c = generic.gen_case(draw, names)
    if c["k"] == "logreg" and gen.flag(draw):
        c["p"]["multi_class"] = "ovr"
    return {"c": c, "v": gen.pick(draw, RELEASES), "warn": gen.flag(draw)}


def nested_indicator(est):
    return any(type(e).__name__ == "SimpleImputer" and e.add_indicator for e in walk(est, set()))


def check(case, ctx):
    c, v = case["c"], case["v"]
    k, est = kinds.fitted(c)
    if number(v) < [0, 21] and (contains_gb(est) or nested_indicator(est)):
        v = "0.21.3"
    old = aged(est, v, case, ctx)
    with pretend(old, v, "object"):
        pure = convert(old)
    rows = k.rows(c, est)
    k.compare(ctx, c, est, pure, rows)
    ctx.event("release:" + v)
    if not ctx.nontrivial and len(rows) > 0:
        k.nontrivial(ctx, c, est, rows)


# ------------------------------------------------------------------ xgboost: what older Python packages lack

class OldBooster:
    """The booster of an earlier xgboost: same trees, fewer methods."""

    def __init__(self, booster, without):
        self.__dict__.update(_b=booster, _without=without)

    def __getattr__(self, a):
        if a in self._without:
            raise AttributeError(a)
        r = getattr(self._b, a)
        if a == "copy":
            return lambda: OldBooster(self._b.copy(), self._without)
        return r

    def __setattr__(self, a, x):
        setattr(self._b, a, x)


@st.composite
def xgb_case(draw):
    c = generic.gen_case(draw, ["xgb"])
    c["early"] = False
    if c["p"].get("base_score") is None:
        c["p"]["base_score"] = 0.5
    return {"c": c, "old": gen.pick(draw, ["1.4", "1.0", "0.90", "0.82"])}


def xgb_check(case, ctx):
    c, v = case["c"], case["old"]
    k, est = kinds.fitted(c)
    without = {"num_boosted_rounds"}
    old = copy.deepcopy(est)
    if v < "1.0":
        without.add("save_config")
    booster = OldBooster(old.get_booster(), without)
    if v < "1.0" and old.__dict__.get("num_parallel_tree") in (None, 1):
        old.__dict__.pop("num_parallel_tree", None)
    if old.get_booster().feature_names is None and v <= "1.0":
        old.get_booster().feature_names = ["f%d" % i for i in range(len(c["X"][0]))]     # those releases made up the names
    cls = type(old)
    old.__class__ = type("XGBClassifier", (cls,), {"get_booster": lambda self: booster, "__module__": cls.__module__})
    pure = convert(old)
    rows = k.rows(c, est)
    k.compare(ctx, c, est, pure, rows)
    ctx.event("xgboost before " + v)
    if not ctx.nontrivial and len(rows) > 0:
        k.nontrivial(ctx, c, est, rows)


NUMERIC = [x for x in generic.LIGHT if x != "compose"]
PROP = Prop("C24", [
    Suite("layout", lambda: case_s(NUMERIC + ["imputer", "onehot", "dummy", "gb", "logreg"]), check, 6000),
    Suite("nested", lambda: case_s(["compose", "numeric compose"]), check, 2500),
    Suite("xgb", xgb_case, xgb_check, 500),
])
