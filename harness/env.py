"""Environment bootstrap: find hypothesis, force the code under test to be /repo."""
import os
import sys

REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # the registered commands never set it
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        local = os.path.join(VERIF, ".deps")
        for cand in (local, _VT):
            if os.path.isdir(os.path.join(cand, "hypothesis")):
                sys.path.append(cand)  # at the END: /opt/venv always wins
                break
        import hypothesis  # noqa: F401
    import warnings

    warnings.simplefilter("ignore")


def check_origin():
    import swiftsimio

    f = os.path.realpath(swiftsimio.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"HARNESS-ERROR: swiftsimio imported from {f}, not {REPO}")
