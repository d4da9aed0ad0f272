"""C21: normalized energy is measured over expected energy, at any mix of granularities."""
import math

import numpy as np
import pandas as pd
from scipy import optimize

from .. import env
from ..telemetry import Wire, generate_faults
from ..util import ZONES, arr_close, catch, first_diff, fl, need, to_index
from .c10 import integral
from .c11 import median, reference as interp_reference

PROPERTY = "C21"
LEVEL = "exploration"
RUNS = {"quick": 25000, "thorough": 100000}
SHRINK = [("mfaults",), ("wfaults",)]
RULE = ("one run = a plant whose meter and weather station sample at different periods and deliver "
        "over their own faulty links; the stored records go through the real normalization "
        "(expected power or PVWatts), insolation-weighted aggregation or irradiance rescaling and "
        "are compared with independent piecewise integrals, weighted sums and least squares; "
        "non-trivial = a fault fired and a finite number was compared")
REAL = ["rdtools.normalize_with_expected_power, normalize_with_pvwatts, pvwatts_dc_power, "
        "aggregation_insol, irradiance_rescale", "pandas, scipy.optimize"]
STUB = ["meter, weather station, links, loggers and their clocks (dsim.telemetry)"]
ASSUMPTIONS = ["the meter series is regular (lost rows are NaN), as documented",
               "a model recorded less often (by mean spacing) than the measurements is "
               "interpolated to them with the default gap limit, as documented in the code"]


def generate(rng, tier):
    mode = rng.choice(["normalize"] * 11 + ["aggregate"] * 6 + ["rescale"] * 3)
    P = rng.choice([300, 900, 900, 1800, 3600, 3600])
    n = rng.choice([6, 24, 48, 96, 200, 300])
    start = rng.choice([0, 0, 68 * 86400 + rng.randint(0, 3) * 3600,
                        305 * 86400 + rng.randint(0, 8) * 3600,
                        rng.randint(0, 10**5) * 60])
    ratio = rng.choice([1, 1, 1, 2, 3, 4, 5, -2, -3, -4, 6])
    W = P // ratio if ratio > 0 else P * -ratio
    m = n * P // W + 1
    kinds = ["partition", "device_down", "logger_crash", "loss", "nan_reading", "delay",
             "duplicate", "stuck"]
    return {"mode": mode, "P": P, "n": n, "W": W, "m": m, "start": start,
            "shift": rng.choice([0, 0, 0, 2, -2, 5]), "tz": rng.choice(ZONES),
            "mfaults": generate_faults(rng, n, P, kinds, 0.6) if rng.random() < 0.7 else [],
            "wfaults": generate_faults(rng, m, W, kinds, 0.6) if rng.random() < 0.8 else [],
            "wrows": rng.choice(["omit", "nan"]), "api": rng.choice(["pvwatts", "expected"]),
            "pv": rng.choice(["energy", "power"]), "freq": rng.random() < 0.5,
            "split": rng.random() < 0.4, "temp": rng.choice(["none", "both", "gamma", "temp"]),
            "ref": rng.random() < 0.3, "rated": rng.choice([1.0, 5000.0]),
            "vseed": rng.randint(0, 10**9),
            "agg": rng.choice(["D", "D", "D", "W", "MS", "6h", "2D"]),
            "factor": round(rng.uniform(0.7, 1.35), 4), "clear": rng.choice([1.0, 0.8, 0.5]),
            "method": rng.choice(["iterative", "iterative", "single_opt"]),
            "spikes": rng.choice([0, 0, 1, 3]),
            "conv": rng.choice([None, None, [round(10 ** rng.uniform(-3, -1), 5),
                                             rng.randint(1, 4)]])}


def simplify(plan):
    for k, v in (("tz", None), ("start", 0), ("split", False), ("shift", 0), ("ref", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for n in (6, 24, 48):
        if n < plan["n"]:
            yield dict(plan, n=n, m=n * plan["P"] // plan["W"] + 1)


def sun(t):
    h = (t % 86400) / 3600
    return max(0.0, math.sin((h - 5) / 14 * math.pi)) if 5 < h < 19 else 0.0


def wire(plan, run, n, period, faults, value, start, rows):
    w = Wire(run, n, period, value, [_move(f, start) for f in faults], start=start)
    got = dict(w.go())
    stamps = [start + i * period for i in range(n)]
    if rows == "nan":
        return stamps, [got.get(t, math.nan) for t in stamps]
    stamps = [t for t in stamps if t in got]
    return stamps, [got[t] for t in stamps]


def _move(f, s):
    return {k: (v + s if k in ("from", "to", "at", "restart") else v) for k, v in f.items()}


def energy_ref(idx, vals, freq):
    """Reference right-labelled energies {label ns: Wh} for one stored power series."""
    raw = [int(x) for x in idx.asi8]
    med = median([b - a for a, b in zip(raw, raw[1:])])
    size = pd.tseries.frequencies.to_offset(freq).nanos
    pairs = [(t, x) for t, x in zip(raw, vals) if not math.isnan(x)]
    ts, vs = [p[0] for p in pairs], [p[1] for p in pairs]
    end = raw[-1]
    if size <= med:
        g = list(range(raw[0], raw[-1] + 1, size))
        end = g[-1]
        gv = interp_reference(ts, vs, g, med)
        keep = [(t, x) for t, x in zip(g, gv) if not math.isnan(x)]
        ts, vs = [p[0] for p in keep], [p[1] for p in keep]
    labels = [raw[0]]
    while labels[-1] < end:
        labels.append(labels[-1] + size)
    ref = integral(ts, vs, labels, med, False)
    k = 0
    for j, lab in enumerate(labels):
        while k < len(raw) and raw[k] < lab:
            k += 1
        if 0 < k < len(raw) and raw[k] - raw[k - 1] > med:
            ref[j] = math.nan
    return dict(zip(labels[1:], ref[1:]))


def execute(plan, run):
    rd = env.ensure()
    {"normalize": normalize, "aggregate": aggregate, "rescale": rescale}[plan["mode"]](rd, plan, run)
    run.interleaving = run.digest()


def normalize(rd, plan, run):
    P, W, n, m, s0 = plan["P"], plan["W"], plan["n"], plan["m"], plan["start"]
    rs = np.random.RandomState(plan["vseed"] % 2**32)
    nz = rs.uniform(0.6, 1.0, m + 1)
    base = (s0 // 3600) * 3600 * 0
    ms = s0 + plan["shift"] * P
    wst, irr = wire(plan, run, m, W, plan["wfaults"],
                    lambda i, t: 1000 * (0.05 + sun(t - base)) * nz[i], ms, plan["wrows"])
    yst, meter = wire(plan, run, n, P, plan["mfaults"],
                      lambda i, t: 700 * (0.02 + sun(t)) + 3 * (i % 5), s0, "nan")
    if len(wst) < 3 or sum(not math.isnan(x) for x in irr) < 3:
        return
    tz = plan["tz"]
    widx, midx = to_index(wst, tz), to_index(yst, tz)
    if plan["freq"]:
        midx = pd.date_range(midx[0], periods=len(midx), freq=f"{P}s")
    poa = pd.Series(irr, index=widx, name="poa")
    tc = pd.Series(20 + 30 * rs.rand(len(widx)), index=widx)
    tc[rs.rand(len(tc)) < 0.05] = np.nan if plan["split"] else 25.0
    kw = {"power_dc_rated": plan["rated"]}
    a, g = 1000.0, 25.0
    if plan["ref"]:
        a, g = 900.0, 30.0
        kw.update(poa_global_ref=a, temperature_cell_ref=g)
    if plan["temp"] in ("both", "temp"):
        kw["temperature_cell"] = tc
    if plan["temp"] in ("both", "gamma"):
        kw["gamma_pdc"] = -0.004
    expv = plan["rated"] * np.array(irr) / a
    if plan["temp"] == "both":
        expv = expv * (1 - 0.004 * (tc.to_numpy() - g))
    pv = pd.Series(meter, index=midx, name="meter")
    energy_in = plan["pv"] == "energy" or plan["api"] == "pvwatts"
    mean_w = (wst[-1] - wst[0]) / (len(wst) - 1)
    freq = f"{P}s"
    run.log("stored", len(wst), len(yst))
    iv, ev = np.array(irr), expv
    cidx = widx
    mean_e = P            # energies are on the regular meter grid either way
    if mean_w > mean_e * (1 + 1e-6):
        if mean_w < mean_e * 1.0001:
            return          # hardly less often: either reading is fine
        mt = [int(x) for x in midx.asi8]
        wt = [int(x) for x in widx.asi8]

        def onto(v):
            q = [(t, x) for t, x in zip(wt, v) if not math.isnan(x)]
            tt = [x[0] for x in q]
            if len(tt) < 2:
                return None
            return interp_reference(tt, [x[1] for x in q], mt,
                                    2 * median([b - a for a, b in zip(tt, tt[1:])]))
        ev, iv = onto(ev), onto(iv)
        if ev is None or iv is None:
            return
        cidx = midx
        run.probe("model_interpolated")
    if sum(not math.isnan(x) for x in ev) < 2 or sum(not math.isnan(x) for x in iv) < 2:
        return
    if sum(not math.isnan(x) for x in meter) < 2:
        return              # nothing was ever recorded
    # readings that survive resampling to the output interval
    with catch():
        if plan["api"] == "pvwatts":
            got, ins = rd.normalize_with_pvwatts(pv, dict(kw, poa_global=poa))
        else:
            dc = rd.normalization.pvwatts_dc_power(poa, **kw)
            need(arr_close(dc.to_numpy(), expv, 1e-12), "dc_power", "PVWatts power differs")
            got, ins = rd.normalize_with_expected_power(pv, dc, poa, pv_input=plan["pv"])
    E = energy_ref(cidx, list(ev), freq)
    S = energy_ref(cidx, list(iv), freq)
    if energy_in:
        M = {int(t): x for t, x in zip(midx.asi8, meter)}
    else:
        M = energy_ref(midx, meter, freq)
    times = sorted(set(M) | set(E) | set(S))
    need([int(x) for x in got.index.asi8] == times and got.index.equals(ins.index), "index",
         lambda: f"{len(got)} normalized points, {len(times)} intervals "
         f"({got.index[:2]} ... {got.index[-1]})")
    scale = 1000 * P / 3600
    wi = np.array([S.get(t, math.nan) for t in times])
    d = first_diff(ins.to_numpy(float), wi, 1e-8, 1e-9 * scale)
    need(d is None, "insolation", lambda: f"{ins.index[d]}: insolation {ins.iloc[d]!r}, the recorded "
         f"irradiance gives {wi[d]!r}")
    with np.errstate(all="ignore"):
        wn = np.array([M.get(t, math.nan) for t in times]) / \
            np.array([E.get(t, math.nan) for t in times])
    d = first_diff(got.to_numpy(float), wn, 1e-8, 1e-10)
    need(d is None, "normalized", lambda: f"{got.index[d]}: normalized {got.iloc[d]!r}, measured "
         f"over expected energy is {wn[d]!r}")
    run.checks += 2 * len(times)
    run.nontrivial = bool(run.faults) and bool(np.isfinite(wn).any())
    run.probe("finite_points", int(np.isfinite(wn).sum()))
    run.probe("missing_points", int(np.isnan(wn).sum()))
    run.log("normalized", fl(np.nansum(wn[np.isfinite(wn)])), int(np.isnan(wn).sum()))


def aggregate(rd, plan, run):
    P, n, s0 = plan["P"], plan["n"] * 3, plan["start"]
    rs = np.random.RandomState(plan["vseed"] % 2**32)
    x = rs.normal(0.9, 0.05, n)
    st, vals = wire(plan, run, n, P, plan["mfaults"], lambda i, t: float(x[i]), s0, plan["wrows"])
    if not st:
        return
    ins = np.array([0.0 if rs.rand() < 0.3 else 500 * rs.rand() for _ in st])
    ins[rs.rand(len(st)) < (0.1 if plan["split"] else 0)] = np.nan
    idx = to_index(st, plan["tz"])
    v = np.array(vals, float)
    a, b = pd.Series(v, index=idx), pd.Series(ins, index=idx)
    f = plan["agg"]
    try:
        bins = b.resample(f, origin="start_day").sum().index
    except Exception as e:
        run.log("no such intervals", type(e).__name__)
        return
    kw = {} if f == "D" and plan["freq"] else {"frequency": f}
    with catch():
        got = rd.aggregation_insol(a, b, **kw)
    need(got.index.equals(bins), "index", "aggregates are not on the requested periods")
    # which period does a reading belong to: period starts are the labels, W ends on Sunday
    day = [t.tz_localize(None).normalize() for t in idx]
    if f == "W":
        key = [d + pd.Timedelta(days=6 - d.dayofweek) for d in day]
        lab = [t.tz_localize(None).normalize() for t in bins]
    elif f in ("D", "MS", "2D"):
        lab = [t.tz_localize(None).normalize() for t in bins]
        key = [max(q for q in lab if q <= d) for d in day]
    else:
        lab = list(bins)
        key = [max(q for q in lab if q <= t) for t in idx]
    num, den = {}, {}
    for k, y, w in zip(key, v, ins):
        if not (math.isnan(y) or math.isnan(w)):
            num[k] = num.get(k, 0) + y * w
            den[k] = den.get(k, 0) + w
    want = np.array([num[k] / den[k] if den.get(k) else math.nan for k in lab])
    g = got.to_numpy(float)
    d = first_diff(g, want, 1e-9, 1e-12)
    need(d is None, "aggregate", lambda: f"{bins[d]} ({f}): {g[d]!r}, the insolation-weighted mean "
         f"of its readings is {want[d]!r}")
    ok = np.isfinite(want)
    if ok.any():
        need(np.nanmin(v) - 1e-12 <= np.nanmin(want) and np.nanmax(want) <= np.nanmax(v) + 1e-12,
             "range", "aggregate outside the readings")
    run.checks += len(want)
    run.probe("aggregated_periods", int(ok.sum()))
    run.nontrivial = bool(run.faults) and bool(ok.any())
    run.log("aggregated", f, fl(np.nansum(want)), int((~ok).sum()))


def rescale(rd, plan, run):
    P = max(plan["P"], 1800)
    n, s0 = 86400 // P * 8, 0
    rs = np.random.RandomState(plan["vseed"] % 2**32)
    cloudy = rs.rand(8) > plan["clear"]
    k = plan["factor"]
    clear = rs.normal(1, 0.01, n)
    cl = rs.uniform(0.1, 0.7, n)
    st, vals = wire(plan, run, n, P, plan["wfaults"], lambda i, t: k * 1000 * sun(t) *
                    (cl[i] if cloudy[int(t // 86400)] else clear[i]), s0, "nan")
    for i in rs.randint(0, n, plan["spikes"]):
        vals[i] = float(rs.choice([1250.0, 1400.0, 3000.0, 32767.0]))   # sensor fault
        run.fault("spike")
    idx = to_index(st, plan["tz"])
    irr = pd.Series(vals, index=idx)
    sim = pd.Series([1000 * sun(t) for t in st], index=idx)
    if irr.notna().sum() < 20:
        return
    if plan["method"] == "iterative" and plan["conv"]:
        return iterate(rd, plan, run, irr, sim)
    try:
        with catch():
            out = rd.normalization.irradiance_rescale(irr, sim, method=plan["method"])
    except Exception as e:
        need(type(e).__name__ == "ConvergenceError", "raised", f"{type(e).__name__}: {e}")
        run.probe("not_converged")
        run.log("not converged")
        return
    s, v = sim.to_numpy(), irr.to_numpy(float)
    pos = s > 0
    f = np.median(out.to_numpy()[pos] / s[pos])
    need(out.index.equals(idx) and arr_close(out.to_numpy(), f * s, 1e-9, 1e-9), "not_a_factor",
         "the result is not the modelled irradiance times one factor")
    run.checks += 1
    with np.errstate(all="ignore"):
        c = v / (f * s)
        used = (c >= 0.8) & (c <= 1.2)
    if plan["method"] == "iterative":
        used &= v > 200
        edge = np.nanmin(np.abs(np.r_[c[v > 150] - 0.8, c[v > 150] - 1.2])) if (v > 150).any() else 0
        if used.any() and edge > 1e-3 and np.nanmin(np.abs(v - 200)) > 1e-6:
            best = (s[used] * v[used]).sum() / (s[used] ** 2).sum()
            need(abs(f - best) < 2e-3 * max(best, 1), "factor", lambda: f"factor {f!r}, the readings "
                 f"taken as clear give {best!r}")
            run.checks += 1
    else:
        def rmse(q):
            q = float(np.ravel(q)[0])
            with np.errstate(all="ignore"):
                z = v / (q * s)
                use = (z >= 0.8) & (z <= 1.2)
            return math.sqrt(((q * s - v)[use] ** 2).mean()) if use.any() else math.nan
        best = optimize.minimize(rmse, np.percentile(v[~np.isnan(v)], 90) / np.percentile(s, 90),
                                 method="Nelder-Mead")["x"][0]
        a, b = rmse(f), rmse(best)
        if not math.isnan(b):
            need(abs(f - best) < 1e-3 * best or a <= b * 1.001 + 1e-9, "single_opt", lambda:
                 f"factor {f!r} (error {a!r}) where minimising the error gives {best!r} ({b!r})")
            run.checks += 1
    sunny = sum(x > 200 for x, q in zip(v, st) if not cloudy[int(q // 86400)])
    if cloudy.mean() <= 0.4 and sunny > 25 and not plan["spikes"] and not any(f["kind"] == "stuck"
                                                      for f in plan["wfaults"]):
        guess = np.percentile(v[~np.isnan(v)], 90) / np.percentile(s, 90)
        if 0.9 < guess / k < 1.1:
            need(abs(f / k - 1) < 0.03, "recovery", lambda: f"factor {f!r}, the plant has {k!r}")
            run.probe("recovered")
    # missing readings have no influence
    ok = ~np.isnan(v)
    if (~ok).any() and np.percentile(s, 90) > 0:
        big = np.r_[v, np.full(3, np.nan)]
        i2 = idx.append(idx[-1] + pd.to_timedelta([1, 2, 3], unit="D"))
        s2 = np.r_[s, s[: 3] * np.nan]
        with catch():
            o2 = rd.normalization.irradiance_rescale(pd.Series(big, index=i2), pd.Series(s2, index=i2),
                                       method=plan["method"])
        need(arr_close(o2.to_numpy()[:n], out.to_numpy(), 1e-9, 1e-9), "missing",
             "missing readings change the factor")
        run.checks += 1
    run.nontrivial = bool(run.faults)
    run.log("rescale", fl(f))


def iterate(rd, plan, run, irr, sim):
    """The documented iteration with a wide threshold: same factor, or the same refusal."""
    thr, limit = plan["conv"]
    s, v = sim.to_numpy(), irr.to_numpy(float)
    f, prev, k = np.percentile(v[~np.isnan(v)], 90) / np.percentile(s, 90), 1.0, 0
    want = None
    while True:
        if abs(abs(f - prev) - thr) < 2e-3 * max(1, f):
            return              # rounding of the minimiser may decide
        if abs(f - prev) <= thr:
            want = f
            break
        k += 1
        if k > limit:
            break
        with np.errstate(all="ignore"):
            c = v / (f * s)
            near = np.abs(np.r_[c - 0.8, c - 1.2])
            use = (c >= 0.8) & (c <= 1.2) & (v > 200)
        if not use.any() or (k > 1 and np.nanmin(near) < 2e-3):
            return
        prev, f = f, (s[use] * v[use]).sum() / (s[use] ** 2).sum()
    try:
        with catch():
            out = rd.normalization.irradiance_rescale(irr, sim, max_iterations=limit,
                                                      convergence_threshold=thr)
    except Exception as e:
        need(type(e).__name__ == "ConvergenceError", "raised", f"{type(e).__name__}: {e}")
        need(want is None, "refused", lambda: f"not converged within {limit} iterations, but step "
             f"{k} changed the factor by less than {thr}")
        run.probe("refused")
    else:
        need(want is not None, "accepted", f"a factor after {limit} iterations that have not "
             f"converged to {thr}")
        need(arr_close(out.to_numpy(), want * s, 2e-3, 1e-6), "iterated",
             lambda: f"factor after {k} steps is not {want!r}")
        run.probe("iterated")
    run.checks += 1
    run.nontrivial = bool(run.faults)
    run.log("iterate", k, want is None)
