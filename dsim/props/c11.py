"""C11: interpolation never invents data inside a telemetry gap and never alters a reading."""
import bisect
import math

import numpy as np
import pandas as pd

from .. import env
from ..telemetry import Wire, generate_faults
from ..util import ZONES, catch, fl, first_diff, need, to_index

PROPERTY = "C11"
LEVEL = "exploration"
RUNS = {"quick": 16000, "thorough": 600000}
SHRINK = [("cols",)] + [("cols", k, "faults") for k in range(4)]
RULE = ("one run = one simulated data-acquisition history (per column: device, link, logger with "
        "its own fault list) interpolated by the real code onto a drawn target and compared "
        "point by point with an independent reference; non-trivial = at least one fault fired "
        "and the output contains both a value strictly between readings and a NaN")
REAL = ["rdtools.normalization.interpolate (and everything below it)", "pandas/numpy"]
STUB = ["devices, links, logger and their clocks (dsim.telemetry)"]
ASSUMPTIONS = ["timestamps have nanosecond resolution, stored series are sorted and free of "
               "duplicate timestamps (the logger's storage guarantees it)"]


def generate(rng, tier):
    period = rng.choice([60, 300, 900, 900, 1800, 3600, 86400])
    n = rng.choice([2, 3, 5, 12, 40, 97, 200])
    start = rng.choice([0, 0, 68 * 86400 + rng.randint(0, 3) * 3600,
                        305 * 86400 + rng.randint(0, 8) * 3600, rng.randint(0, 10**7)])
    ncol = rng.choice([0, 0, 0, 1, 2, 3, 4])
    cols = []
    for _ in range(max(1, ncol)):
        cols.append({"faults": generate_faults(rng, n, period, density=rng.choice([0.5, 1, 2]),
                                               start=start) if rng.random() < 0.9 else [],
                     "vseed": rng.randint(0, 10**9),
                     "shape": rng.choice(["walk", "bell", "int", "const", "big"])})
    kind = rng.choice(["self", "grid", "grid", "random", "shift", "freq", "freq", "offset",
                       "outside", "unsorted"])
    return {"period": period, "n": n, "start": start, "frame": ncol > 0, "cols": cols,
            "tz": rng.choice(ZONES), "target": kind,
            "tz_target": rng.choice(ZONES[1:]) if rng.random() < 0.3 else None,
            "step_ratio": rng.choice([0.2, 0.25, 0.5, 1, 1, 1.5, 2, 3, 7]),
            "phase": rng.choice([0, 0, 0.5, rng.random()]),
            "tseed": rng.randint(0, 10**9),
            "maxgap": rng.choice([None, None, None, 1, 2, 3, 5, 0.5, 1.5, 20, 1000]),
            "warn": rng.choice([0.1, 0.1, 0.0, 0.05, 0.3, 1.0]),
            "flush": rng.choice([1, 4, 16]),
            "mixed_tz": rng.random() < 0.02}


def simplify(plan):
    for k, v in (("tz", None), ("tz_target", None), ("maxgap", None), ("start", 0),
                 ("warn", 0.1), ("phase", 0), ("step_ratio", 1)):
        if plan[k] != v:
            c = dict(plan, **{k: v})
            yield c
    for n in (2, 3, 5, 12, 40):
        if n < plan["n"]:
            yield dict(plan, n=n)


def _values(col, n):
    r = np.random.RandomState(col["vseed"] % 2**32)
    s = col["shape"]
    if s == "walk":
        v = np.cumsum(r.normal(size=n))
    elif s == "bell":
        v = np.maximum(0, np.sin(np.arange(n) / 7.0)) * 1000 + r.uniform(0, 1, n)
    elif s == "int":
        v = r.randint(0, 50, n).astype(float)
    elif s == "const":
        v = np.full(n, 3.25)
    else:
        v = r.uniform(-1, 1, n) * 1e9
    return v


def reference(ts, vals, targets, max_ns):
    """ts: valid readings (int ns, ascending); one target at a time, by bisection."""
    out = []
    for t in targets:
        k = bisect.bisect_left(ts, t)
        if k < len(ts) and ts[k] == t:
            out.append(vals[k])
        elif k == 0 or k == len(ts):
            out.append(math.nan)
        else:
            a, b = ts[k - 1], ts[k]
            if b - a > max_ns:
                out.append(math.nan)
            else:
                w = (t - a) / (b - a)
                out.append(vals[k - 1] + (vals[k] - vals[k - 1]) * w)
    return out


def median(xs):
    xs = sorted(xs)
    m = len(xs)
    return math.nan if not m else (xs[m // 2] if m % 2 else (xs[m // 2 - 1] + xs[m // 2]) / 2)


def execute(plan, run):
    rd = env.ensure()
    period, n = plan["period"], plan["n"]
    stores = []
    for c in plan["cols"]:
        v = _values(c, n)
        w = Wire(run, n, period, lambda i, t, v=v: float(v[i]), c["faults"],
                 start=plan["start"], flush_every=plan["flush"])
        stores.append(dict(w.go()))
    stamps = sorted(set().union(*stores))
    run.log("stored", [len(s) for s in stores], len(stamps))
    if len(stamps) < 2:
        run.log("too little data")
        return
    idx = to_index(stamps, plan["tz"])
    frame = pd.DataFrame({f"c{k}": [s.get(t, math.nan) for t in stamps]
                          for k, s in enumerate(stores)}, index=idx)
    data = frame if plan["frame"] else frame["c0"]
    r = np.random.RandomState(plan["tseed"] % 2**32)
    step = max(1, int(round(period * plan["step_ratio"])))
    a, b = stamps[0], stamps[-1]
    kind = plan["target"]
    tz2 = plan["tz_target"] if (plan["tz"] and plan["tz_target"]) else plan["tz"]
    if kind == "self":
        target = idx
    elif kind in ("grid", "outside"):
        lo = a + int(plan["phase"] * period)
        hi = b
        if kind == "outside":
            lo -= 3 * step
            hi += 4 * step
        pts = np.arange(lo, hi + 1, max(step, (hi - lo) // 600 + 1))
        target = to_index(pts, tz2)
    elif kind in ("random", "unsorted"):
        pts = np.unique(r.randint(a - period, b + period + 1, 60))
        if kind == "unsorted":
            r.shuffle(pts)
        target = to_index(pts, tz2)
    elif kind == "shift":
        target = to_index(np.array(stamps) + r.randint(1, period), tz2)
    else:
        step = max(step, int((b - a) / 3000) + 1)
        target = f"{step}s" if kind == "freq" else pd.tseries.frequencies.to_offset(f"{step}s")
    if isinstance(target, pd.DatetimeIndex):
        expect_idx = target
    else:
        expect_idx = pd.date_range(idx.min(), idx.max(), freq=target)
    mg = plan["maxgap"]
    max_td = None if mg is None else pd.Timedelta(seconds=int(mg * period))
    if plan["mixed_tz"]:
        other = expect_idx.tz_localize(None) if expect_idx.tz is not None \
            else expect_idx.tz_localize("UTC")
        try:
            rd.interpolate(data, other, max_td)
        except ValueError:
            run.log("mixed tz refused")
        else:
            need(False, "mixed_tz", "time-zone-naive and -aware stamps were mixed silently")
    with catch() as w:
        out = rd.interpolate(data, target, max_td, warning_threshold=plan["warn"])
    n_warn = sum("excluded data" in str(x.message) for x in w)
    need(type(out) is type(data), "type", f"got {type(out)} for {type(data)}")
    need(out.index.equals(expect_idx) and str(out.index.tz) == str(expect_idx.tz), "index",
         "result is not on the requested target timestamps")
    cols = [("c0", data, out)] if not plan["frame"] else \
        [(c, data[c], out[c]) for c in data.columns]
    if plan["frame"]:
        need(list(out.columns) == list(data.columns), "columns",
             f"columns {list(out.columns)} != {list(data.columns)}")
    else:
        need(out.name == data.name, "name", f"name {out.name!r} != {data.name!r}")
    tns = [int(x) for x in expect_idx.asi8]
    all_ns = [int(x) for x in idx.asi8]
    want_warn = 0
    seen_nan = seen_between = False
    for name, src, got in cols:
        pairs = [(t, float(v)) for t, v in zip(all_ns, src.values) if not math.isnan(v)]
        ts = [p[0] for p in pairs]
        vs = [p[1] for p in pairs]
        gaps = [y - x for x, y in zip(ts, ts[1:])]
        if max_td is None:
            if not gaps:
                run.log(name, "too few readings for a default gap")
                g = np.asarray(got, float)
                ok = [math.isnan(x) or (t in ts) for x, t in zip(g, tns)]
                need(all(ok), "invented", "value invented from fewer than two readings")
                continue
            max_ns = 2 * median(gaps)
        else:
            max_ns = max_td.value
        frac = sum(g > max_ns for g in gaps) / len(ts) if ts else math.nan
        want_warn += bool(frac > plan["warn"])
        ref = reference(ts, vs, tns, max_ns)
        g = np.asarray(got, float)
        scale = max([1.0] + [abs(x) for x in vs])
        k = first_diff(g, ref, rtol=1e-9, atol=1e-9 * scale)
        run.checks += len(ref)
        if k is not None:
            t = expect_idx[k]
            measured = tns[k] in ts
            cls = ("altered_reading" if measured else
                   "value_in_gap" if math.isnan(ref[k]) else
                   "missing_value" if math.isnan(g[k]) else "wrong_value")
            need(False, cls, f"column {name} at {t}: got {g[k]!r}, expected {ref[k]!r} "
                             f"(max gap {max_ns / 1e9}s)")
        seen_nan |= any(math.isnan(x) for x in ref)
        tsset = set(ts)
        seen_between |= any(not math.isnan(x) and t not in tsset for x, t in zip(ref, tns))
        run.log(name, len(ref), fl(np.nansum(g)), int(np.isnan(g).sum()))
    need(n_warn == want_warn or (want_warn == 0) == (n_warn == 0), "warning",
         f"{n_warn} excluded-data warnings, expected {want_warn}")
    run.nontrivial = bool(run.faults) and seen_nan and seen_between
    run.interleaving = run.digest()
    run.probe("nan_in_output", int(seen_nan))
    run.probe("interpolated_between", int(seen_between))
    run.probe("warned", int(n_warn > 0))
