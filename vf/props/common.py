from .. import compose  # noqa: F401  (registers the composite kind)
from .. import kinds
from ..core import Suite


def kind_suite(name, quick, thorough=None):
    return Suite(name, kinds.KINDS[name].strat, kinds.differential, quick, thorough)
