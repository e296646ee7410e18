"""Trees, forests and bagging."""
from ..core import Prop
from ..big import big_suite
from .common import kind_suite

PROP = Prop("C02", [
    kind_suite("dtc", 4000), kind_suite("etc", 1600), kind_suite("dtr", 2000), kind_suite("etr", 1000),
    kind_suite("rf", 2400), kind_suite("extratrees", 1600), kind_suite("bagging", 3000),
    big_suite(["dtc", "etc", "dtr", "etr", "rf", "extratrees", "bagging"], 160),
])
