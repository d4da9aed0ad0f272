"""Independent models of the regression rates and of resampling distributions."""
import numpy as np
from scipy.stats import binom


def ols(x, y):
    """Least squares line y = b + m x over valid points: (b, m, cov 2x2, rmse)."""
    ok = ~np.isnan(y)
    x, y = x[ok], y[ok]
    n = len(x)
    xm, ym = x.mean(), y.mean()
    sxx = ((x - xm) ** 2).sum()
    m = ((x - xm) * (y - ym)).sum() / sxx
    b = ym - m * xm
    s2 = ((y - b - m * x) ** 2).sum() / (n - 2)
    cov = s2 * np.array([[1 / n + xm * xm / sxx, -xm / sxx], [-xm / sxx, 1 / sxx]])
    return b, m, cov, np.sqrt(s2)


def centred_year_mean(t_s, y):
    """Mean over (t - 182.5 d, t + 182.5 d] where half a 365-day year exists on both sides."""
    half = 182.5 * 86400
    lo = np.searchsorted(t_s, t_s - half, side="right")
    hi = np.searchsorted(t_s, t_s + half, side="right")
    c = np.concatenate([[0.0], np.cumsum(y)])
    out = (c[hi] - c[lo]) / (hi - lo)
    years = (t_s - t_s[0]) / 86400 / 365
    edge = np.minimum(np.abs(years - years[0] - 0.5), np.abs(years - years[-1] + 0.5))
    keep = (years >= years[0] + 0.5) & (years <= years[-1] - 0.5)
    out[~keep] = np.nan
    return out, bool((edge < 1e-9).any())


def mann_kendall(x):
    """(trend, distance of |z| from the 5 % limit)."""
    x = x[~np.isnan(x)]
    n = len(x)
    s = 0
    for i in range(n - 1):
        s += int((x[i + 1:] > x[i]).sum()) - int((x[i + 1:] < x[i]).sum())
    _, c = np.unique(x, return_counts=True)
    v0 = n * (n - 1) * (2 * n + 5) / 18
    tie = (c * (c - 1) * (2 * c + 5)).sum() / 18
    z = 0.0 if s == 0 else (s - np.sign(s)) / np.sqrt(v0 - tie)
    lim = 1.959963984540054
    t = "no trend" if abs(z) <= lim else ("increasing" if z > 0 else "decreasing")
    return t, abs(abs(z) - lim), len(c) < n


def slack(p, reps, other=None):
    """Six standard errors of an empirical percentile rank, plus a floor for the extremes."""
    v = 1 / reps + (1 / other if other else 0)
    return 6 * np.sqrt(max(p * (1 - p), 0) * v) + 30 * v


class MedianBootstrap:
    """Exact distribution of the median of n draws with replacement from n values."""

    def __init__(self, values):
        self.x = np.sort(np.asarray(values, float))
        n = len(self.x)
        k = np.arange(1, n + 1)
        lo, up = ((n + 1) // 2,) * 2 if n % 2 else (n // 2, n // 2 + 1)
        self.lo = binom.sf(lo - 1, n, k / n)
        self.up = binom.sf(up - 1, n, k / n)

    def bracket(self, p, reps):
        e = slack(p, reps)
        a = self._q(self.lo, p - e)
        b = self._q(self.up, p + e)
        return a, b

    def _q(self, cdf, p):
        if p <= 0:
            return self.x[0]
        i = int(np.searchsorted(cdf, p, side="left"))
        return self.x[min(i, len(self.x) - 1)]


def rank_ok(sample, value, p, reps, tol):
    """Is `value` a plausible p-quantile (from `reps` draws) of what `sample` was drawn from?"""
    s = np.sort(sample)
    e = slack(p, reps, len(s))
    a = np.searchsorted(s, value - tol, side="left") / len(s)
    b = np.searchsorted(s, value + tol, side="right") / len(s)
    return a - e <= p <= b + e, (a + b) / 2, e


def ks(u):
    """Scaled Kolmogorov-Smirnov distance of u from the uniform distribution on [0, 1]."""
    u = np.sort(u)
    n = len(u)
    d = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
    return d * np.sqrt(n)
