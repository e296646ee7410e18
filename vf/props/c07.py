"""Encoders and dict vectorizer."""
from ..core import Prop
from ..big import big_suite
from .common import kind_suite

PROP = Prop("C07", [kind_suite("onehot", 6000), kind_suite("ordinal", 4000), kind_suite("dictvec", 6000),
    big_suite(["onehot", "ordinal", "dictvec"], 160),
])
