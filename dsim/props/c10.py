"""C10: energy is the integral of the recorded power - nothing invented in gaps, nothing lost."""
import math

import numpy as np
import pandas as pd

from .. import env
from ..telemetry import Wire, generate_faults
from ..util import ZONES, catch, fl, first_diff, need, to_index
from .c11 import _values, median, reference as interp_reference

PROPERTY = "C10"
LEVEL = "exploration"
RUNS = {"quick": 30000, "thorough": 300000}
SHRINK = [("faults",)]
RULE = ("one run = one simulated data-acquisition history of a power meter (device, link, logger "
        "with crash-lost buffers, clock jumps) integrated by the real code and compared interval "
        "by interval with an independent piecewise integral; non-trivial = a fault fired and the "
        "result has both finite intervals and NaN intervals")
REAL = ["rdtools.normalization.energy_from_power (and everything below it)", "pandas/numpy"]
STUB = ["devices, links, logger and their clocks (dsim.telemetry)"]
ASSUMPTIONS = ["timestamps have nanosecond resolution; stored series sorted, no duplicates",
               "the output interval boundaries are pandas' right-closed resample bins starting "
               "at the first reading"]


def generate(rng, tier):
    period = rng.choice([60, 300, 900, 900, 1800, 3600, 3600, 86400])
    n = rng.choice([1, 2, 3, 5, 12, 40, 97, 200])
    start = rng.choice([0, 0, 68 * 86400 + rng.randint(0, 3) * 3600,
                        305 * 86400 + rng.randint(0, 8) * 3600, rng.randint(0, 10**7)])
    return {"period": period, "n": n, "start": start,
            "faults": generate_faults(rng, n, period, density=rng.choice([0.5, 1, 2]),
                                      start=start) if rng.random() < 0.92 else [],
            "vseed": rng.randint(0, 10**9),
            "shape": rng.choice(["walk", "bell", "bell", "int", "const", "big"]),
            "tz": rng.choice(ZONES), "flush": rng.choice([1, 4, 16]),
            "rows": rng.choice(["omit", "omit", "nan"]),
            "target": rng.choice([None, None, None, 0.2, 0.25, 0.5, 2 / 3, 1, 1, 1.5, 2, 3, 4, 24,
                                  "D", "ME", "MS", "W", "offset"]),
            "maxgap": rng.choice([None, None, None, 1, 2, 3, 5, 0.5, 1.5, 20, 1000]),
            "ptype": rng.choice(["right_labeled", "right_labeled", "instantaneous", "default"])}


def simplify(plan):
    for k, v in (("tz", None), ("maxgap", None), ("start", 0), ("target", None),
                 ("rows", "omit"), ("ptype", "default")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for n in (2, 3, 5, 12, 40):
        if n < plan["n"]:
            yield dict(plan, n=n)


def integral(ts, vs, labels, max_ns, inst):
    """Energy per (labels[j-1], labels[j]]; ts/vs valid readings only; pure Python."""
    out = [math.nan] * len(labels)
    acc = [0.0] * len(labels)
    hit = [False] * len(labels)
    j = 0
    for (a, b, va, vb) in zip(ts, ts[1:], vs, vs[1:]):
        if b - a > max_ns:
            continue
        while j > 0 and labels[j - 1] > a:
            j -= 1
        while j < len(labels) and labels[j] <= a:
            j += 1
        k = j
        lo = a
        while lo < b:
            hi = min(b, labels[k]) if k < len(labels) else b
            if k >= len(labels):
                break
            if inst:
                f = (vb - va) / (b - a)
                p = va + f * (((lo + hi) / 2) - a)
            else:
                p = vb
            acc[k] += p * (hi - lo) / 3.6e12
            hit[k] = True
            lo = hi
            k += 1
    for k in range(len(labels)):
        if hit[k]:
            out[k] = acc[k]
    return out


def execute(plan, run):
    rd = env.ensure()
    period, n = plan["period"], plan["n"]
    v = _values(plan, n)
    w = Wire(run, n, period, lambda i, t: float(v[i]), plan["faults"], start=plan["start"],
             flush_every=plan["flush"])
    rows = w.go()
    run.log("stored", len(rows))
    if not rows:
        return
    stamps = [r[0] for r in rows]
    vals = [r[1] for r in rows]
    regular = all((t - plan["start"]) % period == 0 for t in stamps)
    if plan["rows"] == "nan" and regular:
        have = dict(rows)
        stamps = [plan["start"] + i * period for i in range(n)]
        vals = [have.get(t, math.nan) for t in stamps]
    idx = to_index(stamps, plan["tz"])
    power = pd.Series(vals, index=idx, name="power", dtype=float)
    ptype = "right_labeled" if plan["ptype"] == "default" else plan["ptype"]
    kw = {} if plan["ptype"] == "default" else {"power_type": ptype}
    tr = plan["target"]
    if tr is None:
        target = None
    elif tr == "offset":
        target = pd.tseries.frequencies.to_offset(f"{2 * period}s")
    elif isinstance(tr, str):
        target = tr
    else:
        target = f"{max(1, int(round(period * tr)))}s"
    fin = [x for x in vals if not math.isnan(x)]
    if len(stamps) == 1:
        if target is None or isinstance(tr, str) and tr in ("ME", "MS", "W") or \
                ptype == "instantaneous":
            try:
                rd.energy_from_power(power, target, **kw)
            except ValueError:
                run.log("single reading refused")
                return
            need(False, "single", "a single reading without a fixed interval length was accepted")
        got = rd.energy_from_power(power, target, **kw)
        h = pd.tseries.frequencies.to_offset(target).nanos / 3.6e12
        need(len(got) == 1 and got.index.equals(idx), "single_index", "wrong index")
        need(first_diff(got.values, [vals[0] * h]) is None, "single_value",
             f"{got.values} != {vals[0] * h}")
        run.checks += 1
        return
    if not fin:
        return                      # nothing was ever recorded
    mg = plan["maxgap"]
    max_td = None if mg is None else pd.Timedelta(seconds=max(1, int(mg * period)))
    raw = [int(x) for x in idx.asi8]
    steps = [b - a for a, b in zip(raw, raw[1:])]
    med = median(steps)
    max_ns = med if max_td is None else max_td.value
    tgt = target if target is not None else f"{int(med)}ns"
    off = pd.tseries.frequencies.to_offset(tgt)
    try:
        size = off.nanos
    except ValueError:
        size = None
    if size is None:
        try:
            cal = pd.date_range(idx[0], idx[-1], freq=tgt)
        except Exception:
            run.log("pandas cannot lay the calendar from an ambiguous local time, skipped")
            return
        d = [b - a for a, b in zip(cal.asi8, cal.asi8[1:])]
        if not d:
            run.log("shorter than two calendar periods, skipped")
            return
        size = median([int(x) for x in d])
    if (idx[-1] - idx[0]).value / max(size if size == size else 1e18, 1) > 20000:
        run.log("target grid too fine, skipped")
        return
    pairs = [(t, x) for t, x in zip(raw, vals) if not math.isnan(x)]
    ts = [p[0] for p in pairs]
    vs = [p[1] for p in pairs]
    grid_idx = idx
    up = size <= med
    if up:
        try:
            grid_idx = pd.date_range(idx[0], idx[-1], freq=tgt)
        except Exception:
            run.log("pandas cannot lay days from an ambiguous local time, skipped")
            return
        g = [int(x) for x in grid_idx.asi8]
        gv = interp_reference(ts, vs, g, max_ns)
        keep = [(t, x) for t, x in zip(g, gv) if not math.isnan(x)]
        ts = [p[0] for p in keep]
        vs = [p[1] for p in keep]
        run.probe("upsampled")
    if not ts:
        run.log("no reading survives resampling")
        return
    if tr in ("ME", "MS", "W"):
        # calendar intervals: pandas' own bin edges are day-granular, so only conservation
        with catch():
            got = rd.energy_from_power(power, target, max_td, **kw)
        if min(vs) >= 0:
            tot = np.nansum(integral(ts, vs, [ts[-1]], max_ns, ptype == "instantaneous"))
            need(np.nansum(got.values) <= tot * (1 + 1e-9) + 1e-9, "energy_invented",
                 f"{np.nansum(got.values)} Wh reported, only {tot} Wh recorded ({tr})")
            run.checks += 1
        run.log("calendar", fl(np.nansum(got.values)))
        run.probe("calendar_target")
        return
    try:
        bins = pd.Series(0, index=grid_idx).resample(
            tgt, closed="right", label="right", origin="start").sum().index
    except Exception as e:          # pandas cannot form wall-clock days here (DST ambiguity)
        run.log("no such intervals", type(e).__name__)
        return
    labels = [int(x) for x in bins.asi8]
    ref = integral(ts, vs, labels, max_ns, ptype == "instantaneous")
    # an interval whose end falls inside a too-long gap between stored rows is not reported
    k = 0
    for j, lab in enumerate(labels):
        while k < len(raw) and raw[k] < lab:
            k += 1
        if 0 < k < len(raw) and raw[k] - raw[k - 1] > max_ns:
            ref[j] = math.nan
    ref, labels = ref[1:], labels[1:]
    with catch():
        got = rd.energy_from_power(power, target, max_td, **kw)
    m = len(bins) - 1
    if len(got) > m:                # pandas may add an empty calendar bin after the last label
        need(bool(got.iloc[m:].isna().all()), "energy_in_gap",
             f"energy reported after the last reading: {got.iloc[m:]}")
        got = got.iloc[:m]
    need(got.index.equals(bins[1:]), "index", "result is not on the right-labelled intervals "
         f"of the requested frequency: {got.index[:3]} vs {bins[1:4]}")
    need(got.name == "energy_Wh", "name", f"name {got.name}")
    g = np.asarray(got, float)
    scale = max([1.0] + [abs(x) for x in fin]) * max(1.0, (size if size == size else 1) / 3.6e12)
    d = first_diff(g, ref, rtol=1e-8, atol=1e-9 * scale)
    run.checks += len(ref)
    if d is not None:
        cls = ("energy_in_gap" if math.isnan(ref[d]) else
               "energy_lost" if math.isnan(g[d]) else "wrong_energy")
        need(False, cls, f"interval ending {bins[1:][d]}: got {g[d]!r} Wh, integral of the "
                         f"recorded power is {ref[d]!r} Wh ({ptype}, target {tgt}, "
                         f"max gap {max_ns / 1e9}s)")
    nn = int(np.isnan(g).sum())
    run.log("energy", fl(np.nansum(g)), nn, len(g))
    run.nontrivial = bool(run.faults) and 0 < nn < len(g)
    run.interleaving = run.digest()
    run.probe("nan_intervals", nn)
    run.probe("finite_intervals", len(g) - nn)
    run.probe(ptype)
