"""XGBoost."""
import math

import numpy as np

from .. import gen, kinds
from ..core import Prop
from ..big import big_suite
from .common import kind_suite


class XGBMissing(kinds.XGB):
    """A number instead of NaN marks missing cells; softprob with two classes."""

    name = "xgb_missing"

    def gen(self, draw):
        c = super().gen(draw)
        c["names"] = False
        c["p"]["missing"] = gen.pick(draw, [0.0, -1.0, 1.0])
        for rows in (c["X"], c["T"]):
            for r in rows:
                for j, v in enumerate(r):
                    if v != v:
                        r[j] = c["p"]["missing"]
        if gen.pick(draw, [0, 0, 1]):
            c["p"]["objective"] = "multi:softprob"
            if len(set(c["y"])) == 2:
                c["p"]["num_class"] = 2
        return c


kinds.kind(XGBMissing)

PROP = Prop("C04", [kind_suite("xgb", 4800), kind_suite("xgb_missing", 1200),
    big_suite(["xgb"], 80),
])
