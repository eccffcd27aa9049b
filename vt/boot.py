"""Environment set-up shared by every check.

Imports z3 from the verification tool environment without letting anything else of that
environment (its numpy, its scipy) shadow the pinned packages of /opt/venv, and puts the source
tree under test first on sys.path.
"""

import os
import sys
import logging

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True


def load_z3():
    """Import z3 from the tool environment only."""
    if "z3" in sys.modules:
        return sys.modules["z3"]
    sys.path.append(TOOLS)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(TOOLS)
    return sys.modules["z3"]


def use_repo():
    """Put the working tree under test first on sys.path."""
    if SRC not in sys.path[:1]:
        sys.path.insert(0, SRC)
    logging.getLogger("pyomo").setLevel(logging.CRITICAL)
    logging.getLogger("matplotlib").setLevel(logging.CRITICAL)


def assert_repo_module(mod):
    """The code under test must come from the working tree."""
    f = os.path.realpath(mod.__file__ or "")
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"{mod.__name__} was imported from {f}, not from {SRC}")
