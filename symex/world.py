"""import of the code under test from /repo's working tree"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def load(symbolic):
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import salabim as sim
    import salabim.salabim as mod

    f = os.path.realpath(mod.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("salabim was not imported from " + REPO + " but from " + f)
    if symbolic:
        from . import stubs

        stubs.install(mod)
    return sim, mod
