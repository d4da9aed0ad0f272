"""Snapshot of process-wide state that a library call must leave alone."""
import gc
import inspect
import locale
import logging
import os
import random
import signal
import sys
import warnings

import matplotlib
import numpy as np
import pandas as pd
import pvlib

from . import env, world


def _pandas_options():
    from pandas._config import config
    out = {}

    def walk(d, pre):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, pre + k + ".")
            else:
                out[pre + k] = repr(v)
    walk(config._global_config, "")
    return out


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def library_tables():
    """Default arguments and plain module-level data of the package."""
    out = {}
    for name, m in sorted(sys.modules.items()):
        if not (name == "rdtools" or name.startswith("rdtools.")) or ".test" in name:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (list, dict, set)) and not v:
                continue        # an empty container is no default table (a cache may grow)
            if isinstance(v, (list, dict, set, tuple, str, int, float, np.ndarray)):
                out[f"{name}.{k}"] = world.digest(sorted(map(str, v)) if isinstance(v, set)
                                                  else v)
            fns = []
            if inspect.isfunction(v) and v.__module__ == name:
                fns.append((k, v))
            elif inspect.isclass(v) and v.__module__ == name:
                for kk, vv in sorted(vars(v).items()):
                    if inspect.isfunction(vv):
                        fns.append((f"{k}.{kk}", vv))
                    elif isinstance(vv, (list, dict, tuple)) and vv and not kk.startswith("__"):
                        out[f"{name}.{k}.{kk}"] = world.digest(vv)
            for q, f in fns:
                out[f"{name}.{q} defaults"] = world.digest([f.__defaults__, f.__kwdefaults__])
    return out


def snapshot(figures=True):
    s = {}
    s["warning filters"] = [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4])
                            for f in warnings.filters]
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["numpy error handling"] = dict(np.geterr())
    s["numpy error callback"] = np.geterrcall()
    s["numpy print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s["pandas options"] = _pandas_options()
    s["matplotlib rcParams"] = {k: repr(v) for k, v in
                                dict.items(matplotlib.rcParams)}
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    s["standard streams"] = [id(sys.stdout), id(sys.stderr), id(sys.stdin)]
    s["python random state"] = random.getstate()
    s["recursion limit"] = sys.getrecursionlimit()
    s["sys.path"] = list(sys.path)
    s["excepthook"] = id(sys.excepthook)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = {n: str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM)}
    s["umask"] = _umask()
    s["gc enabled"] = gc.isenabled()
    s["root logger"] = (logging.root.level, len(logging.root.handlers), logging.root.disabled,
                        logging.root.manager.disable)
    s["library tables"] = library_tables()
    s["pvlib temperature models"] = world.digest(pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS)
    if figures:
        import matplotlib.pyplot as plt
        s["open figures"] = plt.get_fignums()
    try:
        import plotly.io as pio
        s["plotly template"] = str(pio.templates.default)
        s["plotly renderer"] = str(pio.renderers.default)
    except Exception:       # plotly not usable: nothing to protect
        pass
    return s


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                for q in sorted(set(x) | (set(y) if k != "library tables" else set()), key=str):
                    if x.get(q) != y.get(q):
                        return k, f"{k}: {q}: {x.get(q)!r:.200} -> {y.get(q)!r:.200}"
                if k == "library tables":
                    continue
            return k, f"{k}: {x!r:.300} -> {y!r:.300}"
    return None


class guard:
    """Restore the state we snapshot, so that one violating run cannot poison the next."""

    def __enter__(self):
        self.f = warnings.filters[:]
        self.e = np.geterr()
        self.rc = dict(dict.items(matplotlib.rcParams))
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.opts = {k: pd.get_option(k) for k in ("display.max_rows",
                                                    "mode.chained_assignment")}
        self.ca = pd.get_option("mode.chained_assignment")
        self.lim = sys.getrecursionlimit()
        self.rnd = random.getstate()
        return self

    def __exit__(self, *a):
        warnings.filters[:] = self.f
        warnings._filters_mutated()
        np.seterr(**self.e)
        for k, v in self.rc.items():
            dict.__setitem__(matplotlib.rcParams, k, v)
        os.environ.clear()
        os.environ.update(self.env)
        os.chdir(self.cwd)
        for k, v in self.opts.items():
            pd.set_option(k, v)
        sys.setrecursionlimit(self.lim)
        random.setstate(self.rnd)
        env.drop()
