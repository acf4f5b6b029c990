"""Import the code under test from /repo's current working tree.

`stheno/_version.py` is generated by the build and ignored by git. If it is absent, a
stand-in module is registered instead of writing anything to /repo.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    warnings.simplefilter("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "stheno", "_version.py")):
        mod = types.ModuleType("stheno._version")
        mod.version = mod.__version__ = "0"
        sys.modules["stheno._version"] = mod
    import stheno

    got = os.path.realpath(os.path.dirname(stheno.__file__))
    want = os.path.realpath(os.path.join(REPO, "stheno"))
    if got != want:
        raise RuntimeError(f"Imported stheno from {got}, not from {want}.")
    return stheno
