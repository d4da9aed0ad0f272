"""C13: a silent inverter costs nothing unless the meter misses its power."""
import math

import numpy as np
import pandas as pd

from .. import env, plant
from ..util import need

PROPERTY = "C13"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 60000}
SHRINK = [("events",)]
RULE = ("one run = one simulated plant (inverters, meter, logger) with inverter trips, per-inverter "
        "partitions, meter gaps and grid outages, analysed by the real AvailabilityAnalysis and "
        "compared per time step with an independent model and with what physically happened; "
        "non-trivial = some step has an inverter silent and another reporting")
REAL = ["rdtools.availability.AvailabilityAnalysis (run, both loss algorithms, roll-up)",
        "pandas/numpy/scipy"]
STUB = ["inverters, meter, logger, links (dsim.plant)"]
ASSUMPTIONS = ["the physical-truth oracle is used when the inverters are proportional to their "
               "sizes, the meter is exact and the relative sizes are given",
               "steps within 1e-9 of a decision boundary are not judged"]


def generate(rng, tier):
    spec, ev = plant.gen_plant(rng, "subsystem")
    return {"plant": spec, "events": ev,
            "thr": rng.choice([None, None, "scalar", "series"]),
            "sizes": rng.choice([None, "dict", "series", "shuffled"]),
            "limit": rng.choice([None, None, None, 0.5, 0.8, 0.95, "series"])}


def simplify(plan):
    s = plan["plant"]
    for k, v in (("thr", None), ("sizes", "dict"), ("limit", None)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in (("tz", None), ("start", 0), ("cloud", 0), ("eta", 1.0), ("night", 0.0),
                 ("bias", 1.0), ("peak", 100.0), ("days", 8), ("step", 60)):
        if s[k] != v:
            yield dict(plan, plant=dict(s, **{k: v}))


def settings(plan, P):
    s = plan["plant"]
    n, m = P.n, s["ninv"]
    cols = [f"inv{i}" for i in range(m)]
    kw = {}
    thr = None
    if plan["thr"] == "scalar":
        thr = 0.002 * s["peak"] * min(s["sizes"])
        kw["low_threshold"] = thr
    elif plan["thr"] == "series":
        thr = np.array(s["sizes"]) * s["peak"] * 0.003
        kw["low_threshold"] = pd.Series(thr, index=cols)
    sizes = None
    if plan["sizes"]:
        sizes = P.size / P.size.mean()
        d = dict(zip(cols, sizes))
        if plan["sizes"] == "shuffled":
            d = {c: d[c] for c in reversed(cols)}
        kw["relative_sizes"] = d if plan["sizes"] != "series" else pd.Series(d)
    limit = None
    if plan["limit"] == "series":
        limit = P.full.max() * (0.6 + 0.4 * np.cos(np.arange(n) / 17) ** 2)
        kw["power_system_limit"] = pd.Series(limit, index=P.index)
    elif plan["limit"] is not None:
        limit = float(P.full.max() * plan["limit"])
        kw["power_system_limit"] = limit
    return kw, thr, sizes, limit


def close(a, b, scale, rel=1e-9):
    return (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * scale)


def execute(plan, run):
    rd = env.ensure()
    P = plant.Plant(plan["plant"], plan["events"], run)
    meter, sub, cum, exp = P.series()
    kw, thr, sizes, limit = settings(plan, P)
    ref, on, ambig = plant.ref_subsystem(P.inv, P.meter, thr, sizes, limit)
    with np.errstate(invalid="ignore"):
        if ((ref == 0) & (P.meter > 0) & (P.exp > 0)).sum() < 8 or not on.any():
            run.log("too little normal operation")
            return
    if sizes is None and not (on.any(axis=0)).all():
        run.log("an inverter never reports")
        return
    a = rd.availability.AvailabilityAnalysis(meter, sub, cum, exp)
    a.run(rollup_period="D", **kw)
    got = a.loss_subsystem
    need(got.index.equals(P.index), "index", "loss_subsystem is not on the input index")
    g = got.to_numpy(float)
    mask = a.reporting_mask.to_numpy(bool)
    scale = max(P.full.max(), 1e-300)
    run.checks += P.n
    bad = np.flatnonzero((mask != on).any(axis=1) & ~ambig)
    need(len(bad) == 0, "online", lambda: f"reporting mask wrong at {P.index[bad[0]]}: "
         f"{mask[bad[0]]} expected {on[bad[0]]} for {P.inv[bad[0]]}")
    need(not np.isnan(g).any() and (g >= 0).all(), "negative",
         lambda: f"negative or missing loss at {P.index[np.flatnonzero(~(g >= 0))[0]]}")
    bad = np.flatnonzero(~close(g, ref, scale) & ~ambig)
    need(len(bad) == 0, "loss", lambda: f"loss_subsystem at {P.index[bad[0]]} is {g[bad[0]]!r}, "
         f"expected {ref[bad[0]]!r} (inverters {P.inv[bad[0]]}, meter {P.meter[bad[0]]}); "
         f"{len(bad)} steps differ")
    allon = on.all(axis=1) & ~ambig
    need((g[allon] == 0).all(), "allonline", "loss although every inverter reports")
    night = P.full <= 0
    need((g[night] == 0).all(), "night", "loss at night")
    some = on.any(axis=1) & ~on.all(axis=1) & ~np.isnan(P.meter) & ~ambig
    run.nontrivial = bool(some.any())
    run.probe("partly_silent_steps", int(some.sum()))
    run.probe("loss_steps", int((ref > 0).sum()))
    # what physically happened
    if plan["plant"]["eta"] == 1.0 and sizes is not None:
        truth = P.lost.copy()
        if limit is not None:
            cap = np.maximum(limit - P.produced, 0)
            truth = np.minimum(truth, cap)
        silent_kw = np.where(on, 0, P.potential)          # everything the logger misses
        m = some.copy()
        # a tripped inverter is only distinguishable above its start-up threshold
        m &= ~((silent_kw > 0) & P.up & P.seen).any(axis=1)
        bad = np.flatnonzero(m & ~close(g, truth, scale, 1e-7))
        need(len(bad) == 0, "truth",
             lambda: f"at {P.index[bad[0]]} the plant really lost {truth[bad[0]]!r} but "
             f"{g[bad[0]]!r} is reported")
        run.checks += int(m.sum())
        run.probe("truth_steps", int(m.sum()))
    # totals
    tot = a.loss_total.to_numpy(float)
    sysl = a.loss_system.to_numpy(float)
    need(close(tot, sysl + g, scale).all(), "total", "loss_total != loss_system + loss_subsystem")
    unknown = np.isnan(sysl)
    need(not (unknown & some).any(), "system_while_reporting",
         "an inverter reports in daylight but the step is inside a system outage")
    days = pd.Series(P.index.date)
    e = plant.interval_energy(tot, P.dt)
    want = {}
    for d, x in zip(days, e):
        want[d] = want.get(d, 0.0) + (0.0 if math.isnan(x) else x)
    for d, x in a.results["lost_production"].items():
        need(abs((0 if math.isnan(x) else x) - want[d.date()]) <= 1e-9 * scale * 24, "rollup",
             lambda: f"lost production of {d.date()} is {x!r}, the loss series gives "
             f"{want[d.date()]!r}")
    run.log("loss", repr(round(float(g.sum()), 9)))
