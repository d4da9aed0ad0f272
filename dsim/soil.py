"""Simulated soiling site and an independent model of the rate-and-recovery analysis."""
import math

import numpy as np
import pandas as pd
from scipy.stats.mstats import theilslopes

ZONES = [None, None, "UTC", "America/Denver", "Australia/Sydney"]


def gen_site(rng):
    day_scale = rng.choice([13, 13, 13, 7, 9, 14, 5])
    n = rng.choice([90, 150, 260, 400, 500, 760])
    ev = []
    t = rng.randint(5, 40)
    while t < n:
        ev.append({"kind": rng.choice(["rain", "rain", "wash", "drizzle"]), "t": t,
                   "recovery": rng.choice([1.0, 1.0, round(rng.uniform(0.2, 1), 2)])})
        t += rng.choice([rng.randint(3, 12), rng.randint(15, 60), rng.randint(20, 120)])
    for _ in range(rng.choice([0, 1, 1, 2, 4, 6])):
        ln = rng.choice([1, 2, day_scale - 1, day_scale, day_scale + 1, day_scale + 2,
                         2 * day_scale, rng.randint(1, 60)])
        ev.append({"kind": "outage", "t": rng.randrange(n), "len": ln})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ev.append({"kind": "negstep", "t": rng.randrange(n), "size": rng.choice([0.03, 0.08, 0.2]),
                   "len": rng.randint(5, 60)})
    for _ in range(rng.choice([0, 0, 1])):
        ev.append({"kind": "insol_gap", "t": rng.randrange(n), "len": rng.randint(1, 20)})
    for _ in range(rng.choice([0, 0, 1])):
        ev.append({"kind": "growth", "t": rng.randrange(n), "len": rng.randint(15, 60)})
    if rng.random() < 0.5:
        p = rng.choice([0.02, 0.1, 0.3])
        ev.append({"kind": "lost_days", "ids": [i for i in range(n) if rng.random() < p]})
    if rng.random() < 0.3:
        p = rng.choice([0.01, 0.05, 0.25])
        ev.append({"kind": "dead_days", "value": rng.choice([0.0, 0.0, -0.002]),
                   "ids": [i for i in range(n) if rng.random() < p]})
    return {"n": n, "day0": rng.choice([0, 30, 60, 250, 300]), "tz": rng.choice(ZONES),
            "rates": [round(rng.choice([0, 0.0005, 0.001, 0.002, 0.004]), 5) for _ in range(7)],
            "noise": rng.choice([0.0, 0.0, 0.003, 0.01, 0.02]),
            "scale": rng.choice([1.0, 0.9, 40.0]), "seed": rng.randint(0, 10**9),
            "lead": rng.choice([0, 0, 3])}, ev, day_scale


class Site:
    def __init__(self, spec, events, run):
        n = spec["n"]
        self.n = n
        idx = pd.date_range(pd.Timestamp("2019-01-01") + pd.Timedelta(days=spec["day0"]),
                            periods=n, freq="D")
        if spec["tz"]:
            idx = idx.tz_localize(spec["tz"])
            idx = pd.date_range(idx[0], periods=n, freq="D")
        self.index = idx
        rs = np.random.RandomState(spec["seed"])
        rain = np.zeros(n)
        clean = {}
        lost = set()
        dead = {}
        gap = set()
        step = np.zeros(n)
        grow = np.zeros(n, bool)
        for e in sorted(events, key=lambda e: (e.get("t", -1), e["kind"])):
            k = e["kind"]
            run.log("event", k, e.get("t"), e.get("len"))
            run.fault(k, len(e["ids"]) if "ids" in e else 1)
            if k in ("rain", "wash"):
                clean[e["t"]] = e["recovery"]
                if k == "rain":
                    rain[e["t"]] = 0.5
            elif k == "drizzle":
                rain[e["t"]] = 0.5
            elif k == "outage":
                lost.update(range(e["t"], min(n, e["t"] + e["len"])))
            elif k == "lost_days":
                lost.update(i for i in e["ids"] if i < n)
            elif k == "dead_days":
                dead.update((i, e["value"]) for i in e["ids"] if i < n)
            elif k == "insol_gap":
                gap.update(range(e["t"], min(n, e["t"] + e["len"])))
            elif k == "negstep":
                step[e["t"]:e["t"] + e["len"]] -= e["size"]
            elif k == "growth":
                grow[e["t"]:e["t"] + e["len"]] = True
        ratio = np.empty(n)
        cur, which = 1.0, 0
        self.rate_of = np.zeros(n)
        for i in range(n):
            if i in clean:
                cur += (1 - cur) * clean[i]
                which += 1
            ratio[i] = cur
            r = spec["rates"][which % len(spec["rates"])]
            if grow[i]:
                r = -0.001
            self.rate_of[i] = r
            cur = min(max(cur - r, 0.3), 1.2)
        self.ratio = ratio
        pm = (ratio + step) * spec["scale"] * (1 + spec["noise"] * rs.standard_normal(n))
        for i, x in dead.items():
            pm[i] = x * spec["scale"]          # recorded while the plant was down
        pm[sorted(lost)] = math.nan
        insol = 3000 + 3000 * rs.random_sample(n)
        insol[sorted(gap)] = math.nan
        self.pm, self.insol, self.rain = pm, insol, rain
        self.clean = clean
        run.sim_seconds += n * 86400
        run.steps += n

    def series(self):
        return (pd.Series(self.pm, self.index, name="pm"),
                pd.Series(self.insol, self.index, name="insol"),
                pd.Series(self.rain, self.index, name="rain"))


def qtl(a, q):
    a = np.sort(a[~np.isnan(a)])
    if not len(a):
        return math.nan
    k = (len(a) - 1) * q
    i = int(k)
    return a[i] + (a[min(i + 1, len(a) - 1)] - a[i]) * (k - i)


class Skip(Exception):
    pass


def segment(site, kw, use_rain):
    """Days of the analysed span, their interval numbers, and the day-by-day working columns."""
    ok = np.flatnonzero(~np.isnan(site.pm))
    a, b = ok[0], ok[-1]
    pm = site.pm[a:b + 1]
    n = len(pm)
    D = kw["day_scale"]
    if kw["recenter"]:
        t = site.index[a:b + 1]
        renorm = np.median([x for x, s in zip(pm, t)
                            if s - t[0] <= pd.Timedelta("364d") and not math.isnan(x)])
    else:
        renorm = 1.0
    y = pm / renorm
    valid = ~np.isnan(y)
    # outages longer than the day scale
    brk = np.zeros(n, bool)
    i = 0
    while i < n:
        if valid[i]:
            i += 1
            continue
        j = i
        while j < n and not valid[j]:
            j += 1
        if j - i > D:
            brk[i - 1] = True
            brk[j] = True
        i = j
    # forward fill, at most D days
    f = y.copy()
    last, age = math.nan, 0
    for i in range(n):
        if valid[i]:
            last, age = y[i], 0
        else:
            age += 1
            f[i] = last if age <= D else math.nan
    med = np.full(n, math.nan)
    off = (D - 1) // 2
    for i in range(n):
        lo, hi = i - D + 1 + off, i + off
        if lo < 0 or hi >= n:
            continue
        w = f[lo:hi + 1]
        if not np.isnan(w).any():
            med[i] = np.median(w)
    delta = np.full(n, math.nan)
    delta[1:] = med[1:] - med[:-1]
    thr = kw["clean_threshold"]
    if thr == "infer":
        ad = np.abs(delta)
        q1, q3 = qtl(ad, 0.25), qtl(ad, 0.75)
        thr = q3 + kw["outlier_factor"] * (q3 - q1)
    with np.errstate(invalid="ignore"):
        shift = delta > thr
        close = np.abs(delta - thr) <= 1e-11
    if close.any() and "shift" in kw["clean_criterion"]:
        raise Skip("shift at the threshold")
    rain = (site.rain[a:b + 1] > kw["precip_threshold"]) if use_rain else np.zeros(n, bool)
    c = kw["clean_criterion"]
    if c == "shift":
        ev = shift
    elif c == "precip":
        ev = rain
    elif c == "precip_or_shift":
        ev = shift | rain
    else:
        near = rain.copy()
        near[1:] |= rain[:-1]
        near[:-1] |= rain[1:]
        ev = shift & near
    ev = ev | brk
    run = np.cumsum(ev)
    return dict(first=a, n=n, y=y, valid=valid, run=run, delta=np.where(np.isnan(delta), 0, delta),
                renorm=renorm, insol=np.where(np.isnan(site.insol[a:b + 1]), 0,
                                              site.insol[a:b + 1]), brk=brk)


def intervals(S, kw):
    out = []
    ids = sorted(set(S["run"]))
    if kw["trim"]:
        ids = ids[1:-1]
    for r in ids:
        d = np.flatnonzero(S["run"] == r)
        use = d[S["valid"][d]]
        use = use[S["y"][use] > 0]
        fitdays = use if len(use) else d
        row = dict(run=r, i=d[0], j=d[-1], length=d[-1] - d[0], rate=0.0, low=0.0, high=0.0,
                   valid=False, neg=S["delta"][fitdays].min())
        yy = np.where(np.isnan(S["y"][fitdays]), 0, S["y"][fitdays])
        row["istart"] = row["iend"] = yy.mean()
        if len(use) > kw["min_interval_length"]:
            fit = theilslopes(S["y"][use], use)
            row.update(rate=float(fit[0]), low=float(fit[2]), high=min(0.0, float(fit[3])),
                       valid=True, istart=fit[0] * d[0] + fit[1], iend=fit[0] * d[-1] + fit[1])
        out.append(row)
    if not out:
        return None
    for row in out:
        if row["rate"] != 0:
            err = (row["high"] - row["low"]) / abs(row["rate"])
        else:
            w = row["high"] - row["low"]
            err = math.inf if w > 0 else math.nan
        m = kw["max_relative_slope_error"] / 100
        if row["valid"] and (abs(err - m) < 1e-9 * m or abs(row["rate"]) < 1e-12
                             or abs(row["neg"] + kw["max_negative_step"]) < 1e-11):
            raise Skip("validity criterion at its limit")
        if row["rate"] > 0 or err >= m or row["neg"] <= -kw["max_negative_step"]:
            row.update(rate=0.0, low=0.0, high=0.0, valid=False)
    if not any(r["valid"] for r in out):
        return None
    v = [r for r in out if r["valid"]]
    for r, nx in zip(v, v[1:] + [None]):
        if nx is None:
            r["recovery"] = 1.0
        else:
            r["recovery"] = min(max(min(max(nx["istart"], 0), 1) - r["iend"], 0), 1)
    return out


def profile(rows, method, u, z):
    """Start value and slope of every interval when each uniform draw is at fraction u of its
    range and each normal draw is z standard deviations."""
    for r in rows:
        r["slope"] = r["low"] + u * (r["high"] - r["low"])
    if method == "perfect_clean":
        for r in rows:
            r["start"] = 1.0
        return
    cur = 1.0
    prev = None
    groups = []
    for r in rows:
        if r["valid"]:
            r["start"] = cur
            end = cur + r["slope"] * r["length"]
            r["stop"] = end
            if method == "half_norm_clean":
                x = min(max(end + r["recovery"], 0), 1)
                cur = 1 - abs(z * (1 - x) / 3)
            else:
                cur = end + u * (1 - end)
            prev = r
        else:
            if groups and groups[-1][0] is prev:
                groups[-1][1].append(r)
            else:
                groups.append((prev, [r]))
    starts = {id(r): k for k, r in enumerate(rows)}
    for prev, rs in groups:
        low = prev["stop"] if prev else 1.0
        nxt = next((r for r in rows[starts[id(rs[-1])] + 1:] if r["valid"]), None)
        high = nxt["start"] if nxt else 1.0
        for r in rs:
            r["start"] = low + u * (high - low)
            r["range"] = (min(low, high), max(low, high))
