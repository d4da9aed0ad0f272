"""C14: year-on-year degradation uses exactly the valid one-year pairs."""
import calendar
import datetime as dtm
import math
import random

import numpy as np
import pandas as pd

from .. import env
from ..telemetry import Wire, generate_faults
from ..util import EPOCH, close, need

PROPERTY = "C14"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 80000}
SHRINK = [("faults",)]
RULE = ("one run = one simulated multi-year record (daily, weekly or monthly, delivered over a "
        "faulty link to a logger) analysed by the real degradation_year_on_year and compared pair "
        "by pair with an independent model in calendar arithmetic; non-trivial = a fault fired "
        "and both used and unused points exist")
REAL = ["rdtools.degradation.degradation_year_on_year", "rdtools.utilities.robust_median",
        "pandas/numpy"]
STUB = ["record source, link, logger, clock (dsim.telemetry)"]
ASSUMPTIONS = ["timestamps are unique after the logger's deduplication",
               "of two records that map to the same instant one year later (28 and 29 February) "
               "either may be the partner"]
ZONES = [None, None, "UTC", "America/Denver", "Asia/Kolkata", "Australia/Sydney"]


def generate(rng, tier):
    freq = rng.choice(["D", "D", "D", "D", "W", "M", "Dirr"])
    years = rng.choice([1.9, 2, 2.003, 2.2, 2.2, 2.7, 3, 3, 3.3, 4, 5])
    per = {"D": 1, "Dirr": 1, "W": 7, "M": 30.44}[freq]
    n = int(round(years * 365.25 / per)) + rng.choice([-1, 0, 0, 1])
    day0 = rng.choice([0, 58, 59, 60, 151, 364, rng.randint(0, 1500)])
    period = {"D": 86400, "Dirr": 86400, "W": 7 * 86400, "M": 86400}[freq]
    kinds = ["partition", "device_down", "logger_crash", "loss", "duplicate", "delay",
             "nan_reading", "stuck"] + (["clock_jump"] if freq == "Dirr" else [])
    return {"freq": freq, "n": n, "day0": day0, "hour": rng.choice([0, 0, 0, 12]),
            "period": period,
            "faults": generate_faults(rng, n, period, kinds=kinds,
                                      density=rng.choice([0.5, 1, 2, 4]))
            if rng.random() < 0.9 else [],
            "rows": rng.choice(["omit", "omit", "nan"]),
            "order": rng.choice(["arrival", "sorted", "reversed", "shuffled"]),
            "tz": rng.choice(ZONES), "flush": rng.choice([1, 4, 16]),
            "shape": rng.choice(["steady", "steady", "noisy", "seasonal", "zeros"]),
            "rate": rng.choice([0.0, 0.005, 0.01, 0.02, -0.004, 0.08]),
            "scale": rng.choice([1.0, 0.8, 1.1, 250.0]),
            "recenter": rng.random() < 0.6,
            "method": rng.choice(["simple", None, "simple", "none"]),
            "named": rng.random() < 0.5, "vseed": rng.randint(0, 10**9)}


def simplify(plan):
    for k, v in (("tz", None), ("order", "sorted"), ("rows", "omit"), ("recenter", False),
                 ("shape", "steady"), ("scale", 1.0), ("hour", 0), ("day0", 0), ("flush", 1)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def stamp(plan, i):
    """Nominal wall-clock time of record i."""
    base = dtm.datetime(2015, 1, 1) + dtm.timedelta(days=plan["day0"], hours=plan["hour"])
    if plan["freq"] == "M":
        m = base.month - 1 + i
        y, m = base.year + m // 12, m % 12 + 1
        return dtm.datetime(y, m, 1, plan["hour"])
    return base + dtm.timedelta(seconds=i * plan["period"])


def plus_year(t):
    d = t.day
    if t.month == 2 and d == 29:
        d = 28
    return t.replace(year=t.year + 1, day=d)


def abs_s(walls, tz):
    """Absolute seconds of wall times."""
    i = pd.DatetimeIndex(walls)
    if tz:
        i = i.tz_localize(tz)
        return i, [x.value / 1e9 for x in i]
    return i, [x.value / 1e9 for x in i]


def robust_median(xs, q=0.99):
    f = sorted(0.0 if math.isnan(x) else x for x in xs)
    k = (len(f) - 1) * q
    a = int(k)
    small = (f[a] + (f[min(a + 1, len(f) - 1)] - f[a]) * (k - a)) / 1000
    v = sorted(x for x in xs if x > small)
    if not v:
        return math.nan
    m = len(v)
    return v[m // 2] if m % 2 else (v[m // 2 - 1] + v[m // 2]) / 2


def median(v):
    v = sorted(v)
    m = len(v)
    return v[m // 2] if m % 2 else (v[m // 2 - 1] + v[m // 2]) / 2


def make(plan, run):
    n = plan["n"]
    rs = np.random.RandomState(plan["vseed"])
    day = np.array([(stamp(plan, i) - stamp(plan, 0)).total_seconds() / 86400 for i in range(n)])
    v = plan["scale"] * (1 - plan["rate"] * day / 365)
    if plan["shape"] == "noisy":
        v = v * (1 + 0.05 * rs.standard_normal(n))
    elif plan["shape"] == "seasonal":
        v = v * (1 + 0.1 * np.sin(day / 365.25 * 2 * np.pi)) + 0.01 * rs.standard_normal(n)
    elif plan["shape"] == "zeros":
        v = np.where(rs.random_sample(n) < 0.1, 0.0, v)
    faults = [f for f in plan["faults"]
              if not (f["kind"] == "stuck" and plan["shape"] == "steady")]
    w = Wire(run, n, plan["period"], lambda i, t: float(v[i]), faults, flush_every=plan["flush"])
    w.go()
    rows = list(w.storage.items())                  # arrival order
    if plan["freq"] == "M":
        walls = [stamp(plan, int(round(t / plan["period"]))) for t, _ in rows]
    else:
        walls = [stamp(plan, 0) + dtm.timedelta(seconds=t) for t, _ in rows]
    vals = [x for _, x in rows]
    if plan["rows"] == "nan" and plan["freq"] != "Dirr":
        have = dict(zip(walls, vals))
        walls = [stamp(plan, i) for i in range(n)]
        vals = [have.get(t, math.nan) for t in walls]
    order = list(range(len(walls)))
    if plan["order"] == "sorted":
        order.sort(key=lambda k: walls[k])
    elif plan["order"] == "reversed":
        order.sort(key=lambda k: walls[k], reverse=True)
    elif plan["order"] == "shuffled":
        random.Random(plan["vseed"]).shuffle(order)
    return [walls[k] for k in order], [vals[k] for k in order]


def execute(plan, run):
    rd = env.ensure()
    walls, vals = make(plan, run)
    run.log("records", len(walls))
    if len(walls) < 4:
        return
    tz = plan["tz"]
    if plan["freq"] == "Dirr" and tz not in (None, "UTC", "Asia/Kolkata"):
        tz = None
    index, _ = abs_s(walls, tz)
    s = pd.Series(vals, index=index, name="yield" if plan["named"] else None, dtype=float)
    # independent model, on sorted records
    o = sorted(range(len(walls)), key=lambda k: walls[k])
    W = [walls[k] for k in o]
    V = [vals[k] for k in o]
    idx, A = abs_s(W, tz)
    _, S = abs_s([plus_year(t) for t in W], tz)
    span_end = W[-1]
    two = W[0].replace(year=W[0].year + 2) if not (W[0].month == 2 and W[0].day == 29) \
        else W[0].replace(year=W[0].year + 2, day=28)
    diffs = [b - a for a, b in zip(W, W[1:])]
    enough = span_end >= two
    short = span_end < two - max(median(diffs), dtm.timedelta(days=31 if plan["freq"] == "M"
                                                              else 0)) - dtm.timedelta(hours=2)
    if plan["recenter"]:
        first = [x for x, a in zip(V, A) if a <= A[0] + 364 * 86400]
        renorm = robust_median(first)
    else:
        renorm = 1.0
    E = [x / renorm for x in V]
    pairs, ties = [], {}
    order = sorted(range(len(S)), key=lambda k: (S[k], k))
    p = -1
    for k in range(len(W)):
        while p + 1 < len(order) and S[order[p + 1]] <= A[k]:
            p += 1
        if p < 0:
            continue
        j = order[p]
        if A[k] - S[j] > 8 * 86400:
            continue
        alt = [j]
        q = p - 1
        while q >= 0 and S[order[q]] == S[j]:
            alt.append(order[q])
            q -= 1
        if len(alt) > 1:
            ties[k] = alt
        pairs.append((k, j))

    def slope(k, j):
        return 100.0 * (E[k] - E[j]) / ((A[k] - A[j]) / (365 * 86400))

    valid = [(k, j) for k, j in pairs if not math.isnan(slope(k, j)) or k in ties]
    np.random.seed(plan["vseed"] % 2**32)
    try:
        r = rd.degradation_year_on_year(s, recenter=plan["recenter"],
                                        uncertainty_method=plan["method"])
    except ValueError as e:
        msg = str(e)
        run.log("refused", msg[:40])
        run.probe("refused")
        run.checks += 1
        sure = any(k not in ties for k, j in valid)
        if "two years" in msg:
            need(not enough, "refused", lambda: f"refused {W[0]}..{W[-1]}: {msg}")
        else:
            need(not sure, "refused", lambda: f"{msg}, but there are {len(valid)} valid pairs")
        return
    need(not short, "accepted", lambda: f"{W[0]}..{W[-1]} accepted although under two years")
    need(bool(valid), "accepted", lambda: "a rate is reported although no valid pair exists")
    run.checks += 1
    if plan["method"] != "simple":
        need(isinstance(r, float), "shape", f"result {r!r}")
        if not ties:
            want = median([slope(k, j) for k, j in valid])
            need(close(float(r), want), "rate", lambda: f"rate {r!r}, the valid pairs give {want!r}")
        if ties and plan["shape"] != "steady":
            return
        rate = float(r)
    else:
        rate, ci, info = r
        yoy = info["YoY_values"]
        need(close(float(info["renormalizing_factor"]), renorm), "renorm",
             lambda: f"renormalizing factor {info['renormalizing_factor']!r}, expected {renorm!r}")
        got = dict(zip(yoy.index, yoy.to_numpy(float)))
        need(len(got) == len(yoy), "pairs", "duplicate year-on-year labels")
        final = []
        for k, j in pairs:
            lab = idx[k]
            opts = [x for x in ties.get(k, [j])]
            sl = [slope(k, x) for x in opts]
            if lab in got:
                hit = [x for x, y in zip(opts, sl) if close(got[lab], y)]
                need(bool(hit), "slope", lambda: f"slope at {lab} is {got[lab]!r}; partner "
                     f"{idx[opts[0]]} gives {sl[0]!r}")
                final.append((k, hit[0]))
            else:
                need(any(math.isnan(y) for y in sl), "missing_pair",
                     lambda: f"pair {idx[j]} -> {lab} (slope {sl[0]!r}) is missing")
        extra = set(got) - {idx[k] for k, _ in pairs}
        need(not extra, "extra_pair", lambda: f"slope reported at {sorted(extra)[0]} which has no "
             "record one year before")
        run.checks += len(pairs)
        want = median([slope(k, j) for k, j in final])
        need(close(float(rate), want), "rate", lambda: f"rate {rate!r}, the pairs give {want!r}")
        used_r = {k for k, _ in final}
        used_l = {j for _, j in final}
        u = info["usage_of_points"]
        need(len(u) == len(W) and list(u.index) == list(idx), "usage_index",
             "usage_of_points is not on the records")
        un = u.to_numpy(float)
        amb = {x for k in ties for x in ties[k]}
        for k in range(len(W)):
            c = (k in used_r) + (k in used_l)
            need(un[k] == c or k in amb, "usage", lambda: f"usage of {idx[k]} is {un[k]}, it is "
                 f"used {c} times")
        run.checks += len(W)
        run.nontrivial = bool(run.faults) and 0 in un and 2 in un
        lo, hi = min(got.values()), max(got.values())
        need(lo - 1e-9 <= ci[0] <= ci[1] <= hi + 1e-9, "ci", f"interval {ci} outside the slopes")
    if plan["shape"] == "steady" and plan["freq"] != "Dirr":
        true = -100 * plan["rate"] * plan["scale"] / renorm
        # DST shifts a wall-clock day by an hour of real time
        tol = 1e-7 * plan["scale"] + (abs(true) * 2e-4 if tz else 0)
        need(abs(rate - true) <= tol, "recovery", lambda: f"rate {rate!r}, the plant loses {true!r}")
        run.checks += 1
    run.log("rate", f"{float(rate):.10g}")


assert EPOCH and calendar
