"""C17: every filter keeps exactly the readings its documented rule admits."""
import math

import numpy as np
import pandas as pd
import pvlib

from .. import chainref as ref
from .. import env, session
from ..telemetry import Wire, generate_faults
from ..util import ZONES, fl, need, to_index

PROPERTY = "C17"
LEVEL = "exploration"
RUNS = {"quick": 40000, "thorough": 120000}
SHRINK = [("faults",), ("bad",)]
RULE = ("one run = one record (sub-daily or daily) written by a simulated logger behind a faulty "
        "link (loss, duplication, delay, crash, partition, stuck, wild and NaN readings, clock "
        "jumps), passed to one filter with random settings and compared reading by reading with an "
        "independent model of its documented rule, points within rounding of the boundary "
        "excepted; clipping filters are checked against the simulated inverter limit; "
        "non-trivial = the record has faults and the filter keeps some readings and rejects some")
REAL = ["rdtools.filtering, rdtools.utilities (and the interpolation below the clipping filter)"]
STUB = ["devices, links and logger are simulated"]
ASSUMPTIONS = ["missing daily values pass the two-way window filter, as its source says"]
DAY = ref.DAY
KINDS = ["normalized", "poa", "tcell", "csi", "quantile_clip", "two_way", "insolation", "hampel",
         "tukey", "hour_angle", "pvlib_clear", "clip", "clip", "robust"]


def generate(rng, tier):
    kind = rng.choice(KINDS)
    daily = kind in ("two_way", "insolation", "hampel", "tukey")
    if daily:
        period, n = 86400, rng.randint(8, 420)
    elif kind == "clip":
        period = rng.choice([300, 600, 900, 900, 1800, 3600])
        n = rng.randint(4, 9) * 86400 // period
    elif kind == "pvlib_clear":
        period = rng.choice([60, 300, 600, 900, 1800])
        n = rng.randint(1, 2) * 86400 // period
    else:
        period = rng.choice([300, 900, 3600])
        n = rng.randint(5, 200)
    kinds = ["partition", "device_down", "logger_crash", "loss", "duplicate", "delay",
             "nan_reading"]
    if kind not in ("clip", "pvlib_clear"):
        kinds += ["stuck", "clock_jump"]
    f = generate_faults(rng, n, period, kinds=kinds, density=rng.choice([0.5, 1])) \
        if rng.random() < 0.85 else []
    arg = {"normalized": lambda: rng.choice([{}, {"energy_normalized_low": 0.5},
                                            {"energy_normalized_low": None},
                                            {"energy_normalized_high": 1.1},
                                            {"energy_normalized_low": 0.25,
                                             "energy_normalized_high": 1.0}]),
           "poa": lambda: rng.choice([{}, {"poa_global_low": 300}, {"poa_global_high": 700},
                                      {"poa_global_low": 0, "poa_global_high": 500}]),
           "tcell": lambda: rng.choice([{}, {"temperature_cell_low": 0},
                                        {"temperature_cell_high": 40},
                                        {"temperature_cell_low": -10,
                                         "temperature_cell_high": 25}]),
           "csi": lambda: rng.choice([{}, {"threshold": 0.3}, {"threshold": 0.05}]),
           "quantile_clip": lambda: rng.choice([{}, {"quantile": 0.9}, {"quantile": 0.5},
                                                {"quantile": 1.0}]),
           "two_way": lambda: rng.choice([{}, {}, {"outlier_threshold": 0.01},
                                          {"roll_period": 14}, {"roll_period": 5,
                                                               "outlier_threshold": 0.1}]),
           "insolation": lambda: rng.choice([{}, {"quantile": 0.5}, {"quantile": 0.02}]),
           "hampel": lambda: rng.choice([{}, {"k": 30}, {"t0": 1}, {"k": 7, "t0": 5}]),
           "tukey": lambda: rng.choice([{}, {"k": 0.5}, {"k": 3.0}, {"roll_period": 14}]),
           "hour_angle": lambda: rng.choice([{}, {"min_hour_angle": -75, "max_hour_angle": 10}]),
           "pvlib_clear": lambda: rng.choice([{}, {"lookup_parameters": True},
                                              {"lookup_parameters": True}, {"mean_diff": 40},
                                              {"window_length": 60, "max_diff": 50}]),
           "clip": lambda: rng.choice([{}, {}, {"mounting_type": "single_axis_tracking"},
                                       {"rolling_range_max_cutoff": 0.4},
                                       {"roll_periods": 4}]),
           "robust": lambda: {}}[kind]()
    bad = [[rng.randrange(n), rng.choice([0.0, -3.0, 5.0, 50.0, 1.03, 0.97])]
           for _ in range(rng.choice([0, 0, 3, 12]))]
    return {"kind": kind, "period": period, "n": n, "faults": f, "arg": arg, "bad": bad,
            "tz": rng.choice(ZONES), "wrapper": rng.random() < 0.5,
            "rows": rng.random() < 0.3,
            "start": rng.choice([0, 66 * 86400, 300 * 86400, rng.randint(0, 500) * 86400]),
            "vseed": rng.randint(0, 10**9), "limit": rng.choice([None, 0.75, 0.85, 0.9]),
            "q": rng.choice([0.5, 0.9, 0.99]), "lat": round(rng.uniform(-60, 60), 1),
            "lon": round(rng.uniform(-170, 170), 1)}


def simplify(plan):
    for k, v in (("tz", None), ("start", 0), ("arg", {}), ("wrapper", False), ("rows", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for n in (2, 5, 12, 40):
        if n < plan["n"] and plan["kind"] not in ("clip", "pvlib_clear"):
            yield dict(plan, n=n)


def _values(plan):
    r = np.random.RandomState(plan["vseed"] % 2**32)
    n, k = plan["n"], plan["kind"]
    x = np.arange(n)
    if k in ("two_way", "hampel", "tukey"):
        v = (1 - 0.0001 * x) * (1 - 0.001 * (x % 37)) * r.normal(1, r.choice([0.003, 0.02]), n)
    elif k == "insolation":
        v = 5000 + 2500 * np.sin(x / 58.0) + r.normal(0, 600, n)
    elif k == "poa":
        v = r.uniform(-20, 1400, n)
        v[r.rand(n) < 0.1] = r.choice([200.0, 1200.0, 300.0, 700.0, 0.0])
    elif k == "tcell":
        v = r.uniform(-70, 130, n)
        v[r.rand(n) < 0.1] = r.choice([-50.0, 110.0, 25.0, 40.0])
    elif k == "normalized":
        v = r.normal(0.8, 0.4, n)
        v[r.rand(n) < 0.1] = r.choice([0.01, 0.5, 1.1, 1.0, np.inf, 0.0])
    elif k == "clip":
        h = (x * plan["period"] % 86400) / 3600
        peak = 5000 * (1 + 0.02 * ((x * plan["period"] // 86400) % 3))
        v = np.maximum(0, np.sin((h - 6) / 12 * np.pi)) * peak
        v = v * np.array([1.03, 0.97, 1.01, 0.95])[x % 4]    # differs over one or two steps
    else:
        v = np.maximum(0, np.sin(x / 11.0)) * 1000 * r.uniform(0.4, 1.0, n)
        v[r.rand(n) < 0.05] = 0.0
    if k not in ("clip",):
        for i, m in plan["bad"]:
            v[i % n] *= m
    return v, r


def execute(plan, run):
    rd = env.ensure()
    k = plan["kind"]
    v, r = _values(plan)
    if k == "clip" and plan["limit"]:
        v = np.minimum(v, plan["limit"] * 5000.0)
    for _ in plan["bad"] if k != "clip" else ():
        run.fault("wild_reading")
    w = Wire(run, plan["n"], plan["period"], lambda i, t: float(v[i]), plan["faults"],
             start=plan["start"])
    rows = w.go()
    if len(rows) < 3:
        run.log("too little data")
        return
    idx = to_index([a for a, _ in rows], plan["tz"])
    if not idx.is_unique:
        return
    s = pd.Series([b for _, b in rows], index=idx, name="x")
    x, ts = s.to_numpy(), idx.asi8
    a = dict(plan["arg"])
    run.log(k, len(s), sorted(a))
    if k == "robust":
        return robust(plan, rd, run, s)
    if k == "clip":
        return clip(plan, rd, run, s, a)
    if k == "pvlib_clear":
        return clear(plan, rd, run, v, r, a)
    wts = ts
    if plan["rows"] and k in ("two_way", "tukey", "hampel"):
        # a window of so many rows, missing ones included
        wts = np.arange(len(ts)) * DAY
        name = "k" if k == "hampel" else "roll_period"
        width = a.get(name, 15) | (k == "hampel")
        a[name] = width
        run.probe("row_windows")
    else:
        name, width = "roll_period", a.get("roll_period", 7)
        if "roll_period" in a:
            a["roll_period"] = pd.Timedelta(days=width)
        if k == "hampel":
            width = a.get("k", 14)
            if "k" in a:
                a["k"] = f"{width}d"
    with np.errstate(all="ignore"):
        if k == "normalized":
            got = rd.normalized_filter(s, **a)
            m, mg = ref.between(x, a.get("energy_normalized_low", 0.01),
                                a.get("energy_normalized_high"))
            mg = np.full(len(x), np.inf)
        elif k == "poa":
            got = rd.poa_filter(s, **a)
            m, _ = ref.between(x, a.get("poa_global_low", 200), a.get("poa_global_high", 1200))
            mg = np.full(len(x), np.inf)
        elif k == "tcell":
            got = rd.tcell_filter(s, **a)
            m, _ = ref.between(x, a.get("temperature_cell_low", -50),
                               a.get("temperature_cell_high", 110))
            mg = np.full(len(x), np.inf)
        elif k == "csi":
            cs = pd.Series(np.where(r.rand(len(s)) < 0.6, x * r.uniform(0.7, 1.4, len(s)),
                                    r.uniform(0, 1100, len(s))), index=idx)
            got = rd.clearsky_filter(s, cs, model="csi", **a) if plan["wrapper"] else \
                rd.csi_filter(s, cs, **a)
            m, mg = ref.csi(x, cs.to_numpy(), a.get("threshold", 0.15))
        elif k == "quantile_clip":
            got = rd.clip_filter(s, model="quantile", **a) if plan["wrapper"] else \
                rd.quantile_clip_filter(s, **a)
            m, mg = ref.quantile_clip(x, a.get("quantile", 0.98))
        elif k == "two_way":
            got = rd.two_way_window_filter(s, **a)
            m, mg = ref.two_way(wts, x, width * DAY,
                                a.get("outlier_threshold", 0.03))
        elif k == "insolation":
            got = rd.insolation_filter(s, **a)
            m, mg = ref.insolation(x, a.get("quantile", 0.1))
        elif k == "hampel":
            got = rd.hampel_filter(s, **a)
            m, mg = ref.hampel(wts, x, width * DAY, a.get("t0", 3))
        elif k == "tukey":
            got = rd.directional_tukey_filter(s, **a)
            m, mg = ref.tukey(wts, x, width * DAY, a.get("k", 1.5))
        elif k == "hour_angle":
            got = rd.hour_angle_filter(s, plan["lat"], plan["lon"], **a)
            eot = pvlib.solarposition.get_solarposition(idx, plan["lat"], plan["lon"])[
                "equation_of_time"]
            ha = np.asarray(pvlib.solarposition.hour_angle(idx, plan["lon"], eot), float)
            lo, hi = a.get("min_hour_angle", -30), a.get("max_hour_angle", 30)
            m, mg = (ha >= lo) & (ha <= hi), np.minimum(np.abs(ha - lo), np.abs(ha - hi))
    compare(run, plan, got, idx, m, mg, x)


def compare(run, plan, got, idx, m, mg, x):
    k = plan["kind"]
    need(got.index.equals(idx), "index", f"{k}: the mask is not on the readings' times")
    g = got.to_numpy(dtype=bool)
    bad = ref.same_mask(g, m, mg, 1e-9)
    run.checks += len(g)
    if bad is not None:
        need(False, k, f"{k} filter {plan['arg']}: reading {x[bad]!r} at {idx[bad]} "
             f"{'kept' if g[bad] else 'rejected'}, the documented rule "
             f"{'keeps' if m[bad] else 'rejects'} it")
    run.log("kept", int(g.sum()), len(g))
    run.probe(k)
    run.nontrivial = bool(run.faults) and 0 < g.sum() < len(g)
    run.interleaving = run.digest()


def robust(plan, rd, run, s):
    u = rd.utilities
    x = s.to_numpy()
    q = plan["q"]
    small = ref.quantile(np.where(np.isnan(x), 0.0, x), q) / 1000
    with np.errstate(invalid="ignore"):
        big = x[x > small]
    for nm, got, want in (("robust_quantile", u.robust_quantile(s, q), ref.quantile(big, q)),
                          ("robust_median", u.robust_median(s, q), ref.quantile(big, 0.5)),
                          ("robust_mean", u.robust_mean(s, q), big.mean() if len(big) else
                           math.nan)):
        ok = (got == want) or (math.isnan(got) and math.isnan(want)) or \
            abs(got - want) <= 1e-9 * max(1.0, abs(want))
        need(ok, nm, f"{nm}(q={q}) = {got!r}, its definition gives {want!r}")
        run.checks += 1
        run.log(nm, fl(got))
    run.probe("robust")
    run.nontrivial = bool(run.faults)
    run.interleaving = run.digest()


def clip(plan, rd, run, s, a):
    """Readings at the inverter's limit are rejected, readings clearly below it are kept."""
    period = plan["period"]
    run.probe("clip")
    x = s.to_numpy()
    fin = ~np.isnan(x)
    if fin.sum() <= 12 or len(np.unique(np.diff(s.index.asi8))) == 0:
        return
    steps = np.diff(s.index.asi8[fin])
    if np.mean(steps == period * 10**9) < 0.6:
        run.log("sampling too irregular")
        return
    with session.quiet():
        got = rd.clip_filter(s, **a) if plan["wrapper"] else rd.logic_clip_filter(s, **a)
        twice = rd.logic_clip_filter(s * 1024.0, **a)
    need(got.index.equals(s.index), "index", "the mask is not on the readings' times")
    need(got.dtype == bool, "clip_dtype", f"mask has dtype {got.dtype}")
    need((got.to_numpy() == twice.to_numpy()).all(), "clip_units",
         "the clipping mask depends on the unit of power")
    run.checks += len(s)
    g = got.to_numpy()
    lim = None if plan["limit"] is None else plan["limit"] * 5000.0
    wall = s.index.tz_localize(None) if s.index.tz is not None else s.index
    day = wall.normalize().asi8
    cutoff = a.get("rolling_range_max_cutoff", 0.2)

    def steep(k):
        """A completely recorded day without three similar readings in a row."""
        y = x[k]
        if len(k) < 86400 // period or np.isnan(y).any():
            return False
        hi = np.maximum(np.maximum(y[2:], y[1:-1]), y[:-2])
        lo = np.minimum(np.minimum(y[2:], y[1:-1]), y[:-2])
        use = lo > 0
        return bool((200 * (hi - lo)[use] / (hi + lo)[use] > 2 * cutoff).all())
    if lim is None:
        if period >= 600 and (~g).mean() < 0.03:
            for d in np.unique(day):
                k = np.flatnonzero(day == d)
                if steep(k):
                    run.probe("steep_days")
                    need(g[k].all(), "clip_false", lambda: "a plant that never reached a limit: "
                         f"reading {x[k][~g[k]][0]} at {s.index[k][~g[k]][0]} rejected as clipped")
        return
    need_run = 5 * max(1, -(-900 // period))
    at = fin & (x == lim)
    hits = 0
    for d in np.unique(day):
        k = np.flatnonzero(day == d)
        runlen = best = 0
        prev = None
        for j in k:
            ok = at[j] and (prev is None or s.index.asi8[j] - prev == period * 10**9)
            runlen = runlen + 1 if ok else (1 if at[j] else 0)
            prev = s.index.asi8[j]
            best = max(best, runlen)
        full = len(k) >= 0.9 * 86400 / period
        if best >= need_run + 2 and full:
            hits += 1
            wrong = k[at[k] & g[k]]
            if len(wrong):
                need(False, "clip_missed", f"reading {x[wrong[0]]} at {s.index[wrong[0]]} lies on "
                     f"the inverter limit {lim} during a clipped day but was kept ({a})")
    if period >= 600:
        full = np.zeros(len(x), bool)
        for d in np.unique(day):
            k = np.flatnonzero(day == d)
            full[k] = len(k) == 86400 // period and not np.isnan(x[k]).any()
        low = full & (x < 0.985 * lim) & ~g
        if low.any():
            j = np.flatnonzero(low)[0]
            need(False, "clip_false", f"reading {x[j]} at {s.index[j]} is below the inverter limit "
                 f"{lim} but was rejected as clipped ({a})")
    run.log("clipped days", hits, int((~g).sum()))
    run.probe("clipped_days", hits)
    run.nontrivial = bool(run.faults) and hits > 0
    run.interleaving = run.digest()


def clear(plan, rd, run, v, r, a):
    n, period = plan["n"], plan["period"]
    idx = pd.date_range("2020-05-03", periods=n, freq=f"{period}s", tz=plan["tz"])
    h = np.arange(n) * period / 3600.0
    cs = 1000 * np.clip(np.sin((h % 24 - 6) / 12 * np.pi), 0, None)
    cloud = np.ones(n)
    for _ in range(3):
        i = r.randint(0, n)
        cloud[i:i + n // 8] = r.uniform(0.2, 1.0, len(cloud[i:i + n // 8]))
    meas = pd.Series(cs * cloud * 0.99, index=idx)
    csi = pd.Series(cs, index=idx)
    kw = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45,
              upper_line_length=80, var_diff=0.032, slope_dev=75)
    kw.update({k: x for k, x in a.items() if k in kw})
    if a.get("lookup_parameters"):
        f = min(max(period / 60.0, 1), 30)
        for key, tab in (("window_length", [50, 60, 90, 120]), ("max_diff", [60, 65, 75, 90]),
                         ("var_diff", [0.005, 0.01, 0.032, 0.07]), ("slope_dev", [50, 60, 75, 96])):
            kw[key] = float(np.interp(f, [1, 5, 15, 30], tab))
    try:
        want = pvlib.clearsky.detect_clearsky(meas, csi, **kw)
    except (ValueError, RuntimeError) as e:
        run.log("pvlib refuses", type(e).__name__)
        return
    got = rd.clearsky_filter(meas, csi, **a) if plan["wrapper"] else \
        rd.pvlib_clearsky_filter(meas, csi, **a)
    compare(run, plan, got, idx, want.to_numpy(dtype=bool), np.full(n, np.inf), meas.to_numpy())
