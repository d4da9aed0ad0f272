"""Process environment: where the code under test is, and how it is (re)imported.

rdtools is always executed from the source text in REPO (default /repo): a meta-path
finder compiles every rdtools module straight from its .py file, never from a .pyc, and
keeps the code objects so that a *fresh* copy of the package (fresh module globals) can be
made in a few milliseconds for each simulated process.
"""
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import threading
import types
import warnings

REPO = os.environ.get("DSIM_REPO", "/repo")
PKG_DIR = os.path.join(REPO, "rdtools") + os.sep

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("GIT_OPTIONAL_LOCKS", "0")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _code_cache.get(path)
        if code is None:
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _code_cache[path] = code
        return code


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != "rdtools" and not fullname.startswith("rdtools."):
            return None
        parts = fullname.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            loc = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, loc, loader=_Loader(fullname, loc),
                submodule_search_locations=[base])
        loc = base + ".py"
        if os.path.exists(loc):
            return importlib.util.spec_from_file_location(
                fullname, loc, loader=_Loader(fullname, loc))
        return None


sys.meta_path.insert(0, _Finder)

# heavy dependencies first (ordinary import), rdtools afterwards
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import numpy  # noqa
    import pandas  # noqa
    import scipy.stats.mstats  # noqa
    import scipy.interpolate  # noqa
    import scipy.optimize  # noqa
    import h5py  # noqa
    import xgboost  # noqa
    import pvlib  # noqa
    import statsmodels.api  # noqa
    import statsmodels.tsa.seasonal  # noqa
    import statsmodels.tsa.stattools  # noqa
    import arch.bootstrap  # noqa
    import filterpy.kalman  # noqa
    import filterpy.common  # noqa
    import matplotlib  # noqa
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    try:
        import plotly.express  # noqa
        import plotly.io  # noqa
        plotly.express.scatter(x=[0, 1], y=[0, 1])      # force lazy imports
        str(plotly.io.templates.default), str(plotly.io.renderers.default)
    except ImportError:
        pass

SUBMODULES = ["rdtools", "rdtools.normalization", "rdtools.filtering", "rdtools.aggregation",
              "rdtools.degradation", "rdtools.bootstrap", "rdtools.soiling",
              "rdtools.availability", "rdtools.analysis_chains", "rdtools.plotting",
              "rdtools.clearsky_temperature", "rdtools.utilities", "rdtools._deprecation"]

_version_result = None


def drop():
    for k in [k for k in sys.modules if k == "rdtools" or k.startswith("rdtools.")]:
        del sys.modules[k]


_real_lock, _real_rlock = threading.Lock, threading.RLock


def fresh():
    """Re-import the package: module globals as in a newly started process."""
    from . import sched
    drop()
    old = warnings.filters[:]

    def _caller_in_repo():
        return sys._getframe(2).f_code.co_filename.startswith(PKG_DIR)

    def lock():
        return sched.SimLock() if _caller_in_repo() else _real_lock()

    def rlock():
        return sched.SimLock(reentrant=True) if _caller_in_repo() else _real_rlock()

    threading.Lock, threading.RLock = lock, rlock
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m in SUBMODULES:
                importlib.import_module(m)
    finally:
        threading.Lock, threading.RLock = _real_lock, _real_rlock
    assert warnings.filters[:] == old
    mod = sys.modules["rdtools"]
    assert mod.__file__.startswith(PKG_DIR), mod.__file__
    return mod


def ensure():
    if "rdtools" not in sys.modules or "rdtools.soiling" not in sys.modules:
        fresh()
    return sys.modules["rdtools"]


def repo_code_objects():
    """Every live code object of the package (test package excluded)."""
    out = []
    seen = set()

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for path, code in sorted(_code_cache.items()):
        if os.sep + "test" + os.sep in path or path.endswith("_version.py"):
            continue
        walk(code)
    return out
