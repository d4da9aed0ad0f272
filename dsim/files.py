"""Seams for the data files bundled with rdtools: the clipping model and the temperature table.

The libraries stay real.  The wrappers decide which file the library really opens (the good
one, a truncated copy, an empty one, none) and raise interrupts around the load; table reads
can fail one by one.  The temperature table is not part of the repository checkout, so the
good file is a synthetic one with the documented layout, in a scratch directory.
"""
import contextlib
import errno
import io
import os
import shutil
import tempfile
import threading

import h5py
import numpy as np
import xgboost

_real_file = h5py.File
_real_get = h5py.Dataset.__getitem__


def synthetic_table(seed, nlon=72, nlat=36, holes=0.02):
    r = np.random.RandomState(seed % 2**32)
    lat = np.linspace(90, -90, nlat)[None, :, None]
    mon = np.arange(12)[None, None, :]
    season = np.cos(2 * np.pi * (mon - 6.5) / 12) * np.sign(lat + 1e-9)
    day = 35 - 0.5 * np.abs(lat) + 12 * season * np.abs(lat) / 60 + r.normal(0, 1, (nlon, nlat, 12))
    night = day - r.uniform(6, 14, (nlon, nlat, 12))
    hole = r.rand(nlon, nlat) < holes
    day[hole] = np.nan
    night[hole] = np.nan
    return day, night


class Scratch:
    """Scratch directory with the good and the damaged variants of both files."""

    def __init__(self, seed, model_path, nlon=72, nlat=36, tables=None, damaged=True):
        self.dir = tempfile.mkdtemp(prefix="dsim-files-")
        self.day, self.night = tables or synthetic_table(seed, nlon, nlat)
        good = os.path.join(self.dir, "temperature.hdf5")
        with _real_file(good, "w") as f:
            g = f.create_group("temperature")
            g.create_dataset("day", data=self.day)
            g.create_dataset("night", data=self.night)
        if not damaged:
            return
        with _real_file(os.path.join(self.dir, "part.hdf5"), "w") as f:
            f.create_group("temperature").create_dataset("day", data=self.day)
        for src, tag in ((good, "hdf5"), (model_path, "json")):
            data = open(src, "rb").read()
            for k, frac in enumerate((0.0, 0.3, 0.999)):
                with open(os.path.join(self.dir, f"cut{k}.{tag}"), "wb") as f:
                    f.write(data[: int(len(data) * frac)])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Faults:
    """What the next loads meet; keyed by simulated thread when threads are used."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.plan = {}          # thread id or None -> fault kind
        self.fired = []
        self.reads = 0

    def _take(self):
        me = threading.get_ident()
        for k in (me, None):
            if k in self.plan:
                return self.plan[k]
        return None

    def pick(self, path, tag):
        """(path to open, raise-after exception)"""
        f = self._take()
        good = os.path.join(self.scratch.dir, "temperature.hdf5") if tag == "hdf5" else path
        if not f:
            return good, None
        kind = f["kind"]
        if kind == "missing":
            self.fired.append(kind)
            return os.path.join(self.scratch.dir, "nowhere", "x"), None
        if kind == "truncated":
            self.fired.append(kind)
            return os.path.join(self.scratch.dir, f"cut{f['cut']}.{tag}"), None
        if kind == "incomplete" and tag == "hdf5":
            self.fired.append(kind)
            return os.path.join(self.scratch.dir, "part.hdf5"), None
        if kind in ("interrupt_before", "memory", "emfile"):
            self.fired.append(kind)
            raise {"interrupt_before": KeyboardInterrupt("injected"),
                   "memory": MemoryError("injected"),
                   "emfile": OSError(errno.EMFILE, "injected")}[kind]
        if kind == "interrupt_after":
            self.fired.append(kind)
            return good, KeyboardInterrupt("injected")
        return good, None

    @contextlib.contextmanager
    def installed(self):
        F = self
        real_clf = xgboost.XGBModel.load_model
        real_bst = xgboost.Booster.load_model
        nest = threading.local()

        class File(_real_file):
            def __init__(self, name, *a, **k):
                after = None
                if str(name).endswith("temperature.hdf5"):
                    name, after = F.pick(str(name), "hdf5")
                super().__init__(name, *a, **k)
                if after is not None:
                    self.close()
                    raise after

        def getitem(ds, *a, **k):
            f = F._take()
            if f and f["kind"] == "read_error":
                F.reads += 1
                if F.reads == f["at"]:
                    F.fired.append("read_error")
                    raise OSError(errno.EIO, "injected")
            return _real_get(ds, *a, **k)

        def wrap(real):
            def load_model(self, fname, *a, **k):
                if getattr(nest, "on", False) or not isinstance(fname, (str, os.PathLike)):
                    return real(self, fname, *a, **k)
                nest.on = True
                try:
                    path, after = F.pick(os.fspath(fname), "json")
                    r = real(self, path, *a, **k)
                    if after is not None:
                        raise after
                    return r
                finally:
                    nest.on = False
            return load_model

        h5py.File = File
        h5py.Dataset.__getitem__ = getitem
        xgboost.XGBModel.load_model = wrap(real_clf)
        xgboost.Booster.load_model = wrap(real_bst)
        try:
            yield self
        finally:
            h5py.File = _real_file
            h5py.Dataset.__getitem__ = _real_get
            xgboost.XGBModel.load_model = real_clf
            xgboost.Booster.load_model = real_bst


_table = []


def table_in_memory():
    """Make the library read a synthetic temperature table held in memory (no faults)."""
    if _table:
        return
    day, night = synthetic_table(5, 24, 12)
    b = io.BytesIO()
    with _real_file(b, "w") as f:
        g = f.create_group("temperature")
        g.create_dataset("day", data=day)
        g.create_dataset("night", data=night)
    _table.append(b.getvalue())

    class File(_real_file):
        def __init__(self, name, *a, **k):
            if str(name).endswith("temperature.hdf5"):
                name = io.BytesIO(_table[0])
            super().__init__(name, *a, **k)
    h5py.File = File


def open_tables():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def open_fds():
    return len(os.listdir("/proc/self/fd"))
