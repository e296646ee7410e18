"""setup_cmd: the checks need no build; this verifies that what they rely on is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import boot  # noqa: E402

boot.setup()
import hypothesis  # noqa: E402

print("hypothesis", hypothesis.__version__)
