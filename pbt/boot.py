"""Make Hypothesis importable next to the library's own dependencies.

The library needs /opt/venv (its pinned numpy/scipy/sympy); Hypothesis lives in the
tooling venv, whose numpy/sympy must not leak in.  A meta-path finder serves only the
pure-Python modules Hypothesis needs.
"""
import importlib.machinery
import importlib.util
import os
import sys
import zipfile

NAMES = {
    "hypothesis",
    "_hypothesis_ftz_detector",
    "_hypothesis_globals",
    "_hypothesis_pytestplugin",
    "sortedcontainers",
    "attr",
    "attrs",
}
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
REPO_SRC = os.environ.get("PBT_REPO_SRC", "/repo/src")


class _Finder:
    def __init__(self, site):
        self.site = site

    def find_spec(self, fullname, path=None, target=None):
        if path is None and fullname in NAMES:
            return importlib.machinery.PathFinder.find_spec(fullname, [self.site])
        return None


def _site():
    if os.path.isdir(os.path.join(SITE, "hypothesis")):
        return SITE
    # fall back to the offline wheels, unpacked in a private scratch directory
    import tempfile
    import atexit
    import shutil

    d = tempfile.mkdtemp(prefix="pbt-wheels-")
    atexit.register(shutil.rmtree, d, True)
    tag = "cp%d%d-" % sys.version_info[:2]
    for w in sorted(os.listdir(WHEELS)):
        if (w.startswith("hypothesis-") and tag in w) or w.startswith(
            ("sortedcontainers-", "attrs-")
        ):
            with zipfile.ZipFile(os.path.join(WHEELS, w)) as z:
                z.extractall(d)
    return d


def setup():
    sys.dont_write_bytecode = True
    if importlib.util.find_spec("hypothesis") is None:
        sys.meta_path.append(_Finder(_site()))
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import warnings

    warnings.simplefilter("ignore")
    import orquestra.quantum

    where = os.path.realpath(os.path.dirname(orquestra.quantum.__path__[0]))
    assert where.startswith(os.path.realpath(REPO_SRC)), where
