"""Process set-up shared by every check process.

* the code under test is imported from $VF_REPO (default /repo), nothing else;
* hypothesis comes from the pre-installed tool venv (same CPython 3.12), appended
  at the END of sys.path so that numpy/scikit-learn/... stay those of /opt/venv;
* byte code goes to a private scratch directory, so a stale .pyc can never hide
  a change of the source tree.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYP_PATHS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]

THREAD_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONWARNINGS": "ignore",
    "PYTHONPATH": "",
}


class HarnessError(Exception):
    """The check itself is broken or could not run: never a violation."""


def setup():
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    # the editable install of the repo puts /repo on the path too; $VF_REPO wins
    for p in HYP_PATHS:
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    import hypothesis  # noqa: F401

    import pure_sklearn
    import pure_fasttext  # noqa: F401

    for m in (pure_sklearn, pure_fasttext):
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise HarnessError("wrong module under test: " + m.__file__)
