"""Compositions."""
from hypothesis import strategies as st

from .. import gen, kinds
from ..compose import est_spec, named, union
from ..core import Prop, Suite
from .common import kind_suite


@st.composite
def large_case(draw):
    n, d = gen.draw_int(draw, 5, 10), gen.draw_int(draw, 2, 4)
    X = gen.rows(draw, n, d, "half")
    shape = gen.pick(draw, ["chain", "fan", "deep", "fanchain"])
    size = gen.pick(draw, [8, 25, 60])
    one = lambda: est_spec(draw, gen.pick(draw, ["std", "minmax", "maxabs", "normalizer"]))
    unit = [one() for _ in range(gen.draw_int(draw, 1, 4))]
    rep = lambda k: [unit[i % len(unit)] for i in range(k)]
    if shape == "chain":
        steps = rep(size)
    elif shape == "fan":
        steps = [union(draw, rep(size)[:40])]
    elif shape == "fanchain":
        steps = [["union", named(draw, rep(3), "b"), {"b1": 2.0}] if i % 8 == 3 and i < 20 else s for i, s in enumerate(rep(size))]
    else:
        s = one()
        for i in range(size):
            s = ["pipe", [["d%d" % i, s]]]
        steps = [s]
    case = {"inp": "num", "X": X, "T": gen.test_rows(draw, X, "half", d, nmax=4), "k": "compose", "y": None, "shape": shape}
    if gen.flag(draw):
        case["pool"], case["y"] = gen.labels(draw, n, kmin=2, kmax=3)
        steps = steps + [est_spec(draw, gen.pick(draw, ["logreg", "ridge", "gnb", "dtc"]))]
    case["p"] = ["pipe", named(draw, steps, "s")]
    return case


def large_check(case, ctx):
    kinds.differential(case, ctx)
    ctx.event("large:" + case["shape"])


PROP = Prop("C10", [kind_suite("compose", 12000), Suite("large", large_case, large_check, 240)])
