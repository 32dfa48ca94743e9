"""
Process set-up: environment, import paths and the Hypothesis library.

The code under test is imported from /repo's working tree.  Hypothesis is not part of
its environment; it is unpacked from the offline wheels into /verif/.deps (git-ignored)
by the setup command, or on first use.
"""
import glob
import importlib
import os
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"
PYVENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NEEDED = ["hypothesis", "sortedcontainers"]


def set_environment():
    """Fix everything in the environment that could make a run differ."""
    want = {
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "TZ": "UTC",
        "MPLBACKEND": "agg",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
    }
    if os.environ.get("VF_ENV") != "1" or any(
        os.environ.get(k) != v for k, v in want.items()
    ):
        env = dict(os.environ, VF_ENV="1", **want)
        env["MPLCONFIGDIR"] = os.path.join(tempfile.gettempdir(), "vf-mplconfig")
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(python, [python] + sys.argv, env)
    sys.dont_write_bytecode = True


def _unpack(target):
    os.makedirs(target, exist_ok=True)
    for name in NEEDED:
        wheels = sorted(
            w
            for w in glob.glob(os.path.join(WHEELS, name + "-*.whl"))
            if "py3-none" in w or "cp312" in w or "abi3" in w
        )
        if not wheels:
            raise RuntimeError("no wheel for " + name)
        with zipfile.ZipFile(wheels[-1]) as z:
            z.extractall(target)


def _importable():
    try:
        for name in NEEDED:
            importlib.import_module(name)
        return True
    except ImportError:
        for name in NEEDED:
            for mod in [m for m in sys.modules if m.split(".")[0] == name]:
                del sys.modules[mod]
        return False


def ensure_hypothesis():
    """Make ``import hypothesis`` work, offline."""
    if _importable():
        return
    deps = os.path.join(VERIF, ".deps")
    if os.path.isdir(os.path.join(deps, "hypothesis")):
        sys.path.append(deps)
        importlib.invalidate_caches()
        if _importable():
            return
        sys.path.remove(deps)
    for target in (deps, os.path.join(tempfile.gettempdir(), "vf-deps-%d" % os.getuid())):
        try:
            _unpack(target)
        except Exception:  # pylint: disable=broad-except
            continue
        sys.path.append(target)
        importlib.invalidate_caches()
        if _importable():
            return
        sys.path.remove(target)
    sys.path.append(PYVENV_SITE)
    importlib.invalidate_caches()
    if not _importable():
        raise RuntimeError("hypothesis is not available")


def import_code_under_test():
    """Import openscm from /repo's working tree and make sure it is that one."""
    sys.path.insert(0, REPO)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)
    import openscm

    got = os.path.realpath(os.path.dirname(openscm.__file__))
    want = os.path.realpath(os.path.join(REPO, "openscm"))
    if got != want:
        raise RuntimeError("openscm imported from %s, not %s" % (got, want))
