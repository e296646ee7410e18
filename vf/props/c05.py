"""Naive Bayes and prior dummies."""
from ..core import Prop
from ..big import big_suite
from .common import kind_suite

PROP = Prop("C05", [kind_suite("gnb", 4000), kind_suite("mnb", 4000), kind_suite("cnb", 4000), kind_suite("dummy", 1600),
    big_suite(["gnb", "mnb", "cnb", "dummy"], 160),
])
