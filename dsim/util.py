import math
import warnings

import numpy as np
import pandas as pd

from .core import Violation

EPOCH = pd.Timestamp("2019-01-01").value


def close(a, b, rtol=1e-9, atol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def need(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


def arr_close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) |
                       (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))


def first_diff(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    bad = ~((np.isnan(a) & np.isnan(b)) | (a == b) |
            (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
    return int(np.argmax(bad)) if bad.any() else None


class catch:
    """Record warnings without letting the global filter state hide any."""

    def __enter__(self):
        self._c = warnings.catch_warnings(record=True)
        self.log = self._c.__enter__()
        warnings.simplefilter("always")
        return self.log

    def __exit__(self, *a):
        self._c.__exit__(*a)


def fl(x):
    """Stable text of a float for event logs (12 significant digits)."""
    return f"{float(x):.12g}"


ZONES = [None, "UTC", "Etc/GMT+7", "America/Denver", "Asia/Kolkata", "Australia/Lord_Howe"]


def to_index(ts_s, tz):
    """Epoch seconds (relative to 2019-01-01 UTC) -> DatetimeIndex, wall time if tz is None."""
    ns = (np.round(np.asarray(ts_s, float) * 1e3).astype("int64")) * 1_000_000 + EPOCH
    idx = pd.DatetimeIndex(ns)
    if tz:
        idx = idx.tz_localize("UTC").tz_convert(tz)
    return idx
