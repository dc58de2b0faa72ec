"""Environment of every check: import the code under test from the repository
working tree (never from a byte-code cache) and make third party pieces
available."""
import os
import sys

REPO = os.path.abspath(os.environ.get("VP_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/vp-pycache"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
# simplekml is only installed in the project's own venv; lowest priority.
_VENV = "/opt/venv/lib/python3.12/site-packages"
if os.path.isdir(_VENV) and _VENV not in sys.path:
    sys.path.append(_VENV)


def scratch_root():
    """Directory for scratch files (memory backed when possible)."""
    for cand in ("/dev/shm", "/tmp"):
        if os.path.isdir(cand) and os.access(cand, os.W_OK):
            return cand
    return "."
