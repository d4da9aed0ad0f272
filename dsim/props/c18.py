"""C18: regression rates are the least-squares trend of the valid records."""
import math

import numpy as np
import pandas as pd

from .. import env, regress
from ..util import arr_close, close, need
from . import c14

PROPERTY = "C18"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 120000}
SHRINK = [("faults",)]
RULE = ("one run = one simulated record (daily, weekly or monthly) delivered over a faulty link, "
        "analysed by the real degradation_ols or degradation_classical_decomposition and compared "
        "with an independent closed-form regression, yearly mean and Mann-Kendall statistic; "
        "non-trivial = a fault fired or the record holds repeated values, and a rate was reported")
REAL = ["rdtools.degradation_ols, degradation_classical_decomposition", "statsmodels, pandas"]
STUB = ["record source, link, logger, clock (dsim.telemetry)"]
ASSUMPTIONS = ["records in time order with unique times",
               "the trend verdict is not judged when the statistic is within 1e-6 of its limit, "
               "or when the yearly means differ only by rounding"]


def generate(rng, tier):
    plan = c14.generate(rng, tier)
    plan["algo"] = rng.choice(["ols", "classical", "classical"])
    if plan["freq"] == "Dirr":
        plan["algo"] = "ols"
    if plan["algo"] == "classical" and rng.random() < 0.75:
        plan["faults"] = [f for f in plan["faults"] if f["kind"] == "stuck"]
    plan["order"] = "sorted"
    plan["level2"] = rng.choice(["none", "none", "plateau", "steps", "constant"])
    if rng.random() < 0.3:
        plan["freq"], plan["period"] = "M", 86400
        plan["n"] = rng.randint(14, 60)
        plan["faults"] = []
    return plan


def simplify(plan):
    yield from c14.simplify(plan)


def shape(plan, v):
    n = len(v)
    rs = np.random.RandomState(plan["vseed"])
    k = plan["level2"]
    if k == "constant":
        return np.where(np.isnan(v), v, plan["scale"])
    if k == "plateau":
        out = np.full(n, plan["scale"])
        a = rs.randint(0, n)
        out[a:] -= plan["scale"] * 0.01 * rs.choice([-1, 1]) * np.arange(n - a) \
            * (rs.random_sample() < 0.7)
        return np.where(np.isnan(v), v, out)
    if k == "steps":
        out = np.full(n, plan["scale"])
        for _ in range(rs.randint(1, 5)):
            out[rs.randint(0, n):] *= rs.choice([0.97, 1.02, 0.9])
        return np.where(np.isnan(v), v, out)
    return v


def execute(plan, run):
    rd = env.ensure()
    walls, vals = c14.make(plan, run)
    if len(walls) < 4:
        return
    tz = plan["tz"]
    if plan["freq"] == "Dirr" and tz not in (None, "UTC", "Asia/Kolkata"):
        tz = None
    idx, A = c14.abs_s(walls, tz)
    v = shape(plan, np.array(vals, float))
    s = pd.Series(v, index=idx, name="yield" if plan["named"] else None)
    f = pd.infer_freq(s.index) if len(s) > 3 else None
    if f is not None:
        try:
            s.index.freq = f
        except ValueError:
            pass
    t = np.array(A)
    x = (t - t[0]) / 86400 / 365
    regular = s.index.freq is not None and not np.isnan(v).any()
    if not np.nan_to_num(v).any():
        return                          # slope over intercept of a dead plant: no rate exists
    np.random.seed(plan["vseed"] % 2**32)
    if plan["algo"] == "classical":
        try:
            rate, ci, info = rd.degradation_classical_decomposition(s)
        except ValueError as e:
            run.checks += 1
            run.probe("refused")
            run.log("refused", str(e)[:40])
            ma, edge = regress.centred_year_mean(t, np.nan_to_num(v))
            need(not regular or edge or np.isfinite(ma).sum() < 3, "refused",
                 lambda: f"a regular complete record was refused: {e}")
            return
        need(regular, "accepted", "classical decomposition accepted a record with missing data")
        y, edge = regress.centred_year_mean(t, v)
        if edge:
            return
        need(arr_close(info["series"].to_numpy(float), y, 1e-8, 1e-8 * np.nanmax(np.abs(v))),
             "yearly_mean", "the reported series is not the centred yearly mean of the records")
        need(list(info["series"].index) == list(s.index), "yearly_mean", "wrong index")
    else:
        if np.isfinite(v).sum() < 3:
            return
        rate, ci, info = rd.degradation_ols(s)
        y = v
    if np.isfinite(y).sum() < 3:
        return
    b, m, cov, rmse = regress.ols(x, y)
    sc = np.nanmax(np.abs(y))
    rt = 1e-7
    spread = np.nanmax(x[np.isfinite(y)]) - np.nanmin(x[np.isfinite(y)])
    at = 1e-9 * sc / max(spread, 1e-3)
    for k, w in (("slope", m), ("intercept", b), ("rmse", rmse),
                 ("slope_stderr", math.sqrt(cov[1, 1])),
                 ("intercept_stderr", math.sqrt(cov[0, 0]))):
        need(close(float(info[k]), float(w), rt, at), k, lambda: f"{k} is {info[k]!r}, the "
             f"{plan['algo']} regression over the valid records gives {w!r}")
        run.checks += 1
    if abs(b) > 0.05 * sc:
        need(close(float(rate), 100 * m / b, rt, 100 * at / abs(b)), "rate",
             lambda: f"rate {rate!r} %/year, slope over intercept is {100 * m / b!r}")
        need(ci[0] <= ci[1], "ci", f"interval {ci}")
        if plan["level2"] == "none" and plan["shape"] == "steady" and plan["algo"] == "ols" \
                and plan["freq"] != "Dirr":
            true = -100 * plan["rate"]
            first = (t[0] - c14.abs_s([c14.stamp(plan, 0)], tz)[1][0]) / 86400 / 365
            true /= 1 - plan["rate"] * first
            tol = 1e-6 + (abs(true) * 1e-3 if tz else 0)
            need(abs(rate - true) <= tol, "recovery",
                 lambda: f"rate {rate!r}, the plant loses {true!r}")
    if plan["algo"] == "classical":
        # exact: ties only where the yearly windows hold identical values
        got = info["series"].to_numpy(float)
        ok = np.isfinite(y)
        d = np.sort(np.abs(np.diff(np.sort(y[ok]))))
        fuzzy = ((d > 0) & (d < 1e-10 * sc)).any()
        g2 = np.round(got[ok] / sc, 11)
        real = got[ok]
        same_ties = len(np.unique(g2)) == len(np.unique(real))
        if not fuzzy and same_ties:
            trend, margin, ties = regress.mann_kendall(real)
            if margin > 1e-6:
                need(info["mk_test_trend"] == trend, "trend", lambda: f"Mann-Kendall trend "
                     f"{info['mk_test_trend']!r}, the yearly means show {trend!r}")
                run.checks += 1
                run.probe("trend_" + trend.replace(" ", "_"))
                run.probe("ties", int(ties))
    run.nontrivial = bool(run.faults) or plan["level2"] != "none"
    run.log(plan["algo"], f"{float(rate):.8g}")
