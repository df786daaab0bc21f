"""Process environment for a monitored run: import the real nilmtk from /repo.

nilmtk needs the third-party package nilm_metadata at import time; it is not
installed in the sandbox, so /verif/stubs provides a stand-in (see DESIGN.md).
"""
import os
import sys
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(VERIF, "stubs")


class Inconclusive(Exception):
    """The run could not observe what it needs to observe (not a violation)."""


class ImportBroken(Exception):
    """nilmtk's own code fails on import: no property holds."""


def setup():
    for p in (STUBS, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter("ignore")
    try:
        import nilmtk
    except ImportError as exc:
        if exc.name and not exc.name.startswith("nilmtk"):
            raise Inconclusive("a dependency is missing: %r" % (exc,))
        raise ImportBroken(traceback.format_exc()[-2500:])
    except Exception:  # the package cannot even be imported
        raise ImportBroken(traceback.format_exc()[-2500:])
    got = os.path.realpath(os.path.dirname(os.path.dirname(nilmtk.__file__)))
    if got != os.path.realpath(REPO):
        raise Inconclusive("nilmtk imported from %s, not %s" % (got, REPO))
    warnings.simplefilter("ignore")
    return nilmtk
