"""Gradient boosting."""
from ..core import Prop
from ..big import big_suite
from .common import kind_suite

PROP = Prop("C03", [kind_suite("gb", 10000),
    big_suite(["gb"], 100),
])
