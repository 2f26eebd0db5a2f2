"""Loads the code under test from the working tree of the repository.

The repository root *is* the package 'UnarySim' (it has no __init__.py), so a
package object with the right __path__ is all that is needed.  Nothing is ever
written to the tree (no bytecode) and no stale bytecode is ever read.
"""
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def load():
    if "UnarySim" in sys.modules:
        return
    sys.path[:] = [p for p in sys.path if p not in ("/opt/pypath",)]
    pkg = types.ModuleType("UnarySim")
    pkg.__path__ = [REPO]
    sys.modules["UnarySim"] = pkg
    import UnarySim.stream  # noqa
    import UnarySim.kernel  # noqa
    import UnarySim.metric.metric  # noqa
    assert os.path.realpath(sys.modules["UnarySim.stream"].__file__).startswith(REPO + os.sep)
