"""Imputers and missing indicator."""
from ..core import Prop
from ..big import big_suite
from .common import kind_suite

PROP = Prop("C08", [kind_suite("imputer", 9000), kind_suite("indicator", 6000),
    big_suite(["imputer", "indicator"], 120),
])
