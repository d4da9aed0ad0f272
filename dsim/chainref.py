"""Independent numpy model of the trend-analysis workflow steps (no rdtools code)."""
import math

import numpy as np
import pandas as pd

H = 3.6e12          # nanoseconds per hour


# ------------------------------------------------------------------ resampling and energy
def interp(ts, vals, targets, max_ns):
    """Time-linear values at `targets`, NaN in gaps longer than max_ns and outside the span."""
    ts, vals, targets = np.asarray(ts, "int64"), np.asarray(vals, float), np.asarray(targets,
                                                                                  "int64")
    ok = ~np.isnan(vals)
    ts, vals = ts[ok], vals[ok]
    out = np.full(len(targets), np.nan)
    if not len(ts):
        return out
    if max_ns is None:
        max_ns = 2 * np.median(np.diff(ts)) if len(ts) > 1 else np.nan
    k = np.searchsorted(ts, targets)
    kk = np.clip(k, 0, len(ts) - 1)
    hit = ts[kk] == targets
    out[hit] = vals[kk[hit]]
    mid = ~hit & (k > 0) & (k < len(ts))
    a, b = k[mid] - 1, k[mid]
    gap = (ts[b] - ts[a]).astype(float)
    w = (targets[mid] - ts[a]) / gap
    v = vals[a] + (vals[b] - vals[a]) * w
    out[mid] = np.where(gap <= max_ns, v, np.nan)
    return out


def energy(ts, power, dt, max_ns=None):
    """Right-labelled energy on the regular grid ts[1:] (step dt) from power on that grid."""
    v = interp(ts, power, ts, dt if max_ns is None else max_ns)
    good = ~np.isnan(v)
    return np.where(good[1:] & good[:-1], v[1:] * (dt / H), np.nan)


def pvwatts(poa, rated, tcell, gamma):
    p = rated * poa / 1000.0
    if tcell is not None and gamma is not None:
        p = p * (1 + gamma * (tcell - 25.0))
    return p


def sapm(poa, tamb, wind, a, b, deltaT):
    return poa * np.exp(a + b * wind) + tamb + poa / 1000.0 * deltaT


def quantile(x, q):
    x = np.sort(x[~np.isnan(x)])
    if not len(x):
        return math.nan
    h = (len(x) - 1) * q
    lo = int(math.floor(h))
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (x[hi] - x[lo]) * (h - lo)


def robust_quantile(x, q):
    small = quantile(np.where(np.isnan(x), 0.0, x), q) / 1000
    return quantile(x[x > small], q)


# ------------------------------------------------------------------ calendar bins
def bin_of(index, freq):
    """Label (local wall time, day resolution) of the aggregation bin of every timestamp."""
    wall = index.tz_localize(None) if index.tz is not None else index
    day = wall.normalize()
    if freq == "D":
        return day
    if freq == "W":
        return day + pd.to_timedelta(6 - day.dayofweek, unit="D")
    if freq == "MS":
        return day - pd.to_timedelta(day.day - 1, unit="D")
    raise AssertionError(freq)


def labels_between(a, b, freq):
    return pd.date_range(a, b, freq={"D": "D", "W": "W-SUN", "MS": "MS"}[freq])


def aggregate(index, norm, insol, freq):
    """(labels, weighted mean, insolation) for the bins from first to last kept reading."""
    lab = bin_of(index, freq)
    full = labels_between(lab[0], lab[-1], freq)
    pos = full.get_indexer(lab)
    ok = ~np.isnan(norm) & ~np.isnan(insol)
    prod = np.where(ok, norm * insol, np.nan)
    use = ~np.isnan(prod)
    num = np.bincount(pos[use], weights=prod[use], minlength=len(full))
    den = np.bincount(pos[ok], weights=insol[ok], minlength=len(full))
    oki = ~np.isnan(insol)
    tot = np.bincount(pos[oki], weights=insol[oki], minlength=len(full))
    with np.errstate(all="ignore"):
        return full, num / den, tot


# ------------------------------------------------------------------ filters
# each returns (mask, margin): margin is the distance from the decision boundary, so that a
# comparison can ignore points that floating-point rounding could decide either way
def between(x, lo, hi):
    lo = -np.inf if lo is None else lo
    hi = np.inf if hi is None else hi
    with np.errstate(invalid="ignore"):
        m = (x > lo) & (x < hi)
        return m, np.minimum(np.abs(x - lo), np.abs(x - hi))


def csi(meas, cs, threshold):
    with np.errstate(all="ignore"):
        c = meas / cs
        return ((c >= 1 - threshold) & (c <= 1 + threshold),
                np.minimum(np.abs(c - 1 + threshold), np.abs(c - 1 - threshold)))


def quantile_clip(p, q):
    v = robust_quantile(p, q) * 0.99
    with np.errstate(invalid="ignore"):
        return p < v, np.abs(p - v) / max(abs(v), 1e-300)


def _med(w, minp):
    w = w[~np.isnan(w)]
    if len(w) < minp:
        return math.nan
    w = np.sort(w)
    n = len(w)
    return w[n // 2] if n % 2 else (w[n // 2 - 1] + w[n // 2]) / 2


def _roll(ts, x, before, after, minp, left_open=False, right_open=False):
    """Median of x over [t-before, t+after] for every t."""
    lo = np.searchsorted(ts, ts - before, side="right" if left_open else "left")
    hi = np.searchsorted(ts, ts + after, side="left" if right_open else "right")
    return np.array([_med(x[a:b], minp) for a, b in zip(lo, hi)], float)


DAY = 86400 * 10**9


def two_way(ts, x, period=7 * DAY, thr=0.03):
    x = x / quantile(x, 0.99)
    bd = np.abs(x - _roll(ts, x, period, 0, 5))
    fd = np.abs(x - _roll(ts, x, 0, period, 5))
    d = np.minimum(np.nan_to_num(bd, nan=0.0), np.nan_to_num(fd, nan=0.0))
    return d < thr, np.abs(d - thr)


def insolation(x, q):
    lim = quantile(x, q)
    with np.errstate(invalid="ignore"):
        return x >= lim, np.abs(x - lim) / max(abs(lim), 1.0)


def hampel(ts, x, k=14 * DAY, t0=3):
    half = k / 2
    med = _roll(ts, x, half, half, 1, left_open=True)
    d = np.abs(med - x)
    mad = _roll(ts, d, half, half, 1, left_open=True)
    with np.errstate(invalid="ignore"):
        return d <= t0 * 1.4826 * mad, np.abs(d - t0 * 1.4826 * mad)


def tukey(ts, x, period=7 * DAY, k=1.5):
    bd = x - _roll(ts, x, period, 0, 5)
    fd = x - _roll(ts, x, 0, period, 5)

    def inside(d):
        q1, q3 = quantile(d, 0.25), quantile(d, 0.75)
        lo, hi = q1 - k * (q3 - q1), q3 + k * (q3 - q1)
        with np.errstate(invalid="ignore"):
            return (d > lo) & (d < hi), np.fmin(np.abs(d - lo), np.abs(d - hi))
    a, am = inside(fd)
    b, bm = inside(bd)
    return a | b, np.fmin(am, bm)


def same_mask(got, ref, margin, tol=1e-9):
    """Index of the first point where the masks really differ, or None."""
    m = np.nan_to_num(margin, nan=np.inf)
    bad = (np.asarray(got, bool) != ref) & (m > tol)
    return int(np.argmax(bad)) if bad.any() else None
