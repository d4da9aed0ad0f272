"""C19: the clear-sky ambient temperature follows the bundled table at every site and instant."""
import datetime as dt
import math
import os
import zoneinfo

import numpy as np
import pandas as pd

from .. import env, files, telemetry
from ..util import arr_close, catch, first_diff, fl, need

PROPERTY = "C19"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 40000}
SHRINK = [("faults",)]
RULE = ("one run = one synthetic day/night temperature table (with holes) on disk, one site, and the "
        "time stamps a simulated logger kept (partitions, crashes, losses, clocks that follow DST), "
        "given to the real get_clearsky_tamb and compared with an independent model working on "
        "absolute time; then subsets and a shifted longitude are asked again; non-trivial = a "
        "link fault fired, a DST change lies in the period, or the site is at an edge of the table")
REAL = ["rdtools.get_clearsky_tamb", "h5py reading a real file", "pandas"]
STUB = ["the table (synthetic, documented layout; the data file is not part of the checkout)",
        "logger, link (dsim.telemetry)"]
ASSUMPTIONS = ["stamps in time order, on whole minutes, with a time zone",
               "first and last stamp are the earliest and latest"]
PERIODS = [1, 5, 10, 15, 15, 20, 30, 45, 60, 60, 60, 90, 120, 180, 240, 360, 1440, 10080]
ZONES = ["UTC", "Etc/GMT+7", "America/Denver", "Europe/Berlin", "Asia/Kolkata",
         "Australia/Lord_Howe", "Atlantic/Azores", "America/Havana", "America/Santiago",
         "Asia/Beirut", "Pacific/Auckland", "Asia/Shanghai", "America/St_Johns"]


def generate(rng, tier):
    period = rng.choice(PERIODS)
    n = rng.randint(1, 260) if rng.random() < 0.75 or period > 360 else rng.randint(300, 1200)
    tz = rng.choice(ZONES)
    y = rng.randint(2014, 2024)
    if rng.random() < 0.55 and tz not in ("UTC", "Etc/GMT+7", "Asia/Kolkata", "Asia/Shanghai"):
        m = rng.choice([3, 4, 10, 11, 9])
        start = dt.date(y, m, rng.randint(1, 28)) - dt.timedelta(days=rng.randint(0, 60))
    else:
        start = dt.date(y, rng.randint(1, 12), rng.randint(1, 28))
    nlon, nlat = rng.choice([(72, 36), (72, 36), (36, 18), (120, 60), (37, 19)])
    k = rng.random()
    if k < 0.6:
        lat, lon = rng.uniform(-89, 89), rng.uniform(-179, 179)
    elif k < 0.75:
        lat, lon = rng.uniform(-89, 89), rng.choice([180, -180, 179.99, -179.99, 178, -178, 0,
                                                     round(180 - 360 / nlon / 2 + 0.01, 2)])
    elif k < 0.9:
        lat, lon = rng.choice([90, -90, 89.99, -89.99, 0]), rng.uniform(-179, 179)
    else:
        lat, lon = rng.choice([90, -90]), rng.choice([180, -180, 179.99])
    return {"period": period, "n": n, "tz": tz, "start": start.isoformat(),
            "hour": rng.choice([0, 0, 3, 12, 23]), "lat": round(lat, 3), "lon": round(lon, 3),
            "nlon": nlon, "nlat": nlat, "tseed": rng.randint(0, 10**6),
            "monthly_holes": rng.random() < 0.4, "freq": rng.random() < 0.4,
            "window": rng.choice([40, 40, 40, 30, 21]), "std": rng.choice([20, 20, 10]),
            "faults": telemetry.generate_faults(
                rng, n, period * 60, kinds=["partition", "device_down", "logger_crash", "loss", "duplicate",
                                           "clock_jump", "delay"],
                density=0.6) if rng.random() < 0.6 else []}


def simplify(plan):
    if plan["n"] > 24:
        yield dict(plan, n=plan["n"] // 2)
    if plan["monthly_holes"]:
        yield dict(plan, monthly_holes=False)


def first_instant(date, zone):
    """Epoch seconds of the first instant of a calendar day in a zone."""
    u = dt.datetime(date.year, date.month, date.day, tzinfo=dt.timezone.utc).timestamp()
    # scan: the earliest instant whose local date is `date`
    lo, hi = int(u) - 20 * 3600, int(u) + 20 * 3600
    for step in (1800, 300):
        t = lo - lo % step
        while t <= hi:
            if dt.datetime.fromtimestamp(t, zone).date() >= date:
                break
            t += step
        lo, hi = t - step, t
    return t


_days = {}


def midnight(date, tz):
    k = (date, tz)
    if k not in _days:
        if len(_days) > 60000:
            _days.clear()
        _days[k] = first_instant(date, zoneinfo.ZoneInfo(tz))
    return _days[k]


def cell(lat, lon, nlon, nlat):
    """(indices, ambiguous) of the table cell nearest to the site."""
    x = ((lon + 180) % 360) / 360 * nlon
    y = (90 - lat) / 180 * nlat
    amb = min(abs(x - math.floor(x) - 0.5), abs(y - math.floor(y) - 0.5)) < 1e-9
    return int(math.floor(x + 0.5)) % nlon, min(int(math.floor(y + 0.5)), nlat - 1), amb


def smooth(vals, window, std):
    """Gaussian-weighted mean over `window` days around each day, missing days skipped."""
    v = np.asarray(vals, float)
    k = np.arange(window)
    w = np.exp(-0.5 * ((k - (window - 1) / 2) / std) ** 2)
    back = window - 1 - (window - 1) // 2
    out = np.full(len(v), np.nan)
    for i in range(len(v)):
        j = i - back + k
        ok = (j >= 0) & (j < len(v))
        jj, ww = j[ok], w[ok]
        f = np.isfinite(v[jj])
        if f.any():
            out[i] = (v[jj][f] * ww[f]).sum() / ww[f].sum()
    return out


def reference(day, night, abs_s, tz, lon, window, std):
    """Estimates per stamp, and the first instants of the days used."""
    z = zoneinfo.ZoneInfo(tz)
    loc = [dt.datetime.fromtimestamp(t, z) for t in abs_s]
    d0 = loc[0].date() - dt.timedelta(days=window)
    d1 = loc[-1].date() + dt.timedelta(days=window)
    dates = [d0 + dt.timedelta(days=k) for k in range((d1 - d0).days + 1)]
    mids = np.array([midnight(d, tz) for d in dates], float)
    months = [d.month - 1 for d in dates]
    D = smooth([day[m] for m in months], window, std)
    N = smooth([night[m] for m in months], window, std)
    t = np.asarray(abs_s, float)

    def at(c, x):
        ok = np.isfinite(c)
        if not ok.any():
            return np.full(len(x), np.nan)
        r = np.interp(x, mids[ok], c[ok])
        r[x < mids[ok][0]] = np.nan         # nothing before the first known day
        return r

    def temp(x):
        hour = np.array([q.hour + q.minute / 60 for q in loc])
        off = np.array([q.utcoffset().total_seconds() / 3600 for q in loc])
        d, n = at(D, x), at(N, x)
        ph = (hour + 8 + lon / 15 - off) / 24 * 2 * np.pi
        return (d - n) * 0.5 * 0.7 * np.cos(ph) + (d + n) / 2

    return temp(t), mids


def execute(plan, run):
    rd = env.ensure()
    day, night = files.synthetic_table(plan["tseed"], plan["nlon"], plan["nlat"])
    if plan["monthly_holes"]:
        r = np.random.RandomState(plan["tseed"])
        h = r.rand(*day.shape) < 0.15
        day[h] = np.nan
        night[r.rand(*day.shape) < 0.15] = np.nan
    i, j, amb = cell(plan["lat"], plan["lon"], plan["nlon"], plan["nlat"])
    if amb:
        return
    model = os.path.join(env.REPO, "rdtools", "models", "xgboost_clipping_model.json")
    sc = files.Scratch(plan["tseed"], model, plan["nlon"], plan["nlat"], tables=(day, night),
                       damaged=False)
    try:
        with files.Faults(sc).installed():
            _execute(rd, plan, run, day[i, j], night[i, j])
    finally:
        sc.close()


def _execute(rd, plan, run, day, night):
    tz, P = plan["tz"], plan["period"] * 60
    z = zoneinfo.ZoneInfo(tz)
    start = midnight(dt.date.fromisoformat(plan["start"]), tz) + plan["hour"] * 3600
    run.sim_seconds += 0 if plan["faults"] else plan["n"] * P
    stamps = [start + k * P for k in range(plan["n"])]
    if plan["faults"]:
        w = telemetry.Wire(run, plan["n"], P, lambda i, t: 1.0, plan["faults"])
        stamps = [start + int(round(t / 60)) * 60 for t, _ in w.go()]
    if not stamps:
        return
    abs_s = sorted(stamps)
    idx = pd.DatetimeIndex(np.array(abs_s, "int64") * 10**9).tz_localize("UTC").tz_convert(tz)
    if not plan["faults"] and plan["freq"]:
        idx = pd.date_range(idx[0], periods=len(idx), freq=f"{plan['period']}min")
        run.probe("freq_attribute")
    elif len(idx) > 2 and pd.infer_freq(idx) is None:
        run.probe("irregular")
    kw = {} if (plan["window"], plan["std"]) == (40, 20) else \
        {"window_size": plan["window"], "gauss_std": plan["std"]}

    def ask(ix, lat=plan["lat"], lon=plan["lon"]):
        before = ix.copy()
        with catch() as log:
            r = rd.get_clearsky_tamb(ix, lat, lon, **kw)
        need(isinstance(r, pd.Series) and r.index.equals(before), "index",
             "the estimate is not on the requested times")
        nanw = any("includes NaNs" in str(w.message) for w in log)
        need(nanw == bool(r.isna().any()), "warning",
             lambda: f"NaN warning {nanw}, NaNs {int(r.isna().sum())}")
        run.checks += 1
        return r.to_numpy(float)

    got = ask(idx)
    want, mids = reference(day, night, abs_s, tz, plan["lon"], plan["window"], plan["std"])
    bad = ~((np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= 1e-7))
    if bad.any():
        k = int(np.argmax(bad))
        need(False, "estimate", f"{idx[k]}: the estimate at ({plan['lat']}, {plan['lon']}) is "
             f"{got[k]!r}, the table gives {want[k]!r} ({int(bad.sum())} of {len(bad)} stamps)")
    run.checks += len(got)
    run.log("n", len(idx), "nan", int(np.isnan(got).sum()), fl(np.nan_to_num(got[0])),
            fl(np.nan_to_num(got[-1])))
    offs = {dt.datetime.fromtimestamp(t, z).utcoffset() for t in (mids[0], mids[-1], abs_s[0],
                                                                 abs_s[-1])}
    edge = abs(plan["lon"]) > 177 or abs(plan["lat"]) > 89
    if len(offs) > 1:
        run.probe("dst_change_in_window")
    if edge:
        run.probe("table_edge")
    if np.isnan(got).any():
        run.probe("no_data_at_site")
    if np.isfinite(got).any():
        run.probe("estimates_given")
    run.nontrivial = bool(run.faults) or len(offs) > 1 or edge
    run.interleaving = run.digest()
    # the same place written with another longitude
    if abs(plan["lon"]) == 180:
        other = ask(idx, lon=-plan["lon"])
        need(arr_close(other, got, 1e-9, 1e-7), "longitude",
             lambda: f"180 and -180 degrees differ by {np.nanmax(np.abs(other - got))!r}")
    # the order in which the stamps are asked for does not matter
    if len(idx) > 1 and plan["tseed"] % 3 == 0:
        sh = np.random.RandomState(plan["tseed"] + 1).permutation(len(idx))
        if plan["tseed"] % 2:
            sh = np.r_[len(idx) // 2:len(idx), 0:len(idx) // 2]     # an old block came in late
        out = ask(idx[sh])
        d = first_diff(out, got[sh], 1e-9, 1e-7)
        need(d is None, "order", lambda: f"{idx[sh[d]]}: {out[d]!r} when the stamps are out of "
             f"order, {got[sh[d]]!r} otherwise")
        run.probe("out_of_order")
    # other stamps asked for at the same time have no influence
    if len(idx) > 4 and not (np.isnan(day).any() or np.isnan(night).any()):
        rs = np.random.RandomState(plan["tseed"])
        pick = np.sort(rs.choice(len(idx), rs.randint(1, len(idx)), replace=False))
        part = ask(idx[pick])
        d = first_diff(part, got[pick], 1e-9, 1e-7)
        need(d is None, "other_stamps", lambda: f"{idx[pick[d]]}: {part[d]!r} when fewer stamps "
             f"are asked for, {got[pick[d]]!r} otherwise")
