"""C12: communication loss is not production loss; real outages are, in the right amount."""
import math

import numpy as np
import pandas as pd

from .. import env, plant
from ..util import need
from .c13 import close

PROPERTY = "C12"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
SHRINK = [("events",)]
RULE = ("one run = one simulated plant with grid outages, plant-wide partitions, counter resets, "
        "inverter trips and meter gaps, analysed by the real AvailabilityAnalysis and compared "
        "with an independent model and with what physically happened; non-trivial = at least one "
        "system outage was reported")
REAL = ["rdtools.availability.AvailabilityAnalysis", "rdtools.energy_from_power",
        "pandas/numpy/scipy"]
STUB = ["inverters, meter with cumulative counter, logger, links (dsim.plant)"]
ASSUMPTIONS = ["regular time steps (the documented input)",
               "the physical-truth oracle is used when the counter readings just before and at "
               "the end of the outage are the device's own and no reset lies between",
               "outages within 1e-9 of a decision boundary are not judged"]


def generate(rng, tier):
    spec, ev = plant.gen_plant(rng, "system")
    return {"plant": spec, "events": ev,
            "quantiles": rng.choice([[0.01, 0.99], [0.01, 0.99], [0.0, 1.0], [0.2, 0.8]]),
            "rollup": rng.choice(["ME", "D", "W", "MonthEnd", "3D"])}


def simplify(plan):
    s = plan["plant"]
    for k, v in (("quantiles", [0.01, 0.99]), ("rollup", "ME")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in (("tz", None), ("start", 0), ("cloud", 0), ("eta", 1.0), ("night", 0.0),
                 ("bias", 1.0), ("peak", 100.0), ("days", 8), ("step", 60)):
        if s[k] != v:
            yield dict(plan, plant=dict(s, **{k: v}))


def groups(index, rollup):
    """Positions of each roll-up period, by calendar arithmetic."""
    if rollup in ("ME", "MonthEnd"):
        keys = [(t.year, t.month) for t in index]
    elif rollup == "D":
        keys = [t.date() for t in index]
    elif rollup == "W":
        keys = [t.date().toordinal() // 7 if t.weekday() != 6 else None for t in index]
        # weeks end on Sunday: Monday..Sunday share a label
        keys = [(t.date().toordinal() + (6 - t.weekday())) for t in index]
    else:
        return None
    out = {}
    for i, k in enumerate(keys):
        out.setdefault(k, []).append(i)
    return out


def label_key(label, rollup):
    if rollup in ("ME", "MonthEnd"):
        return (label.year, label.month)
    if rollup == "D":
        return label.date()
    return label.date().toordinal()


def execute(plan, run):
    rd = env.ensure()
    P = plant.Plant(plan["plant"], plan["events"], run)
    meter, sub, cum, exp = P.series()
    cols = list(sub.columns)
    sizes = P.size / P.size.mean()
    q = tuple(plan["quantiles"])
    loss_sub, on, ambig = plant.ref_subsystem(P.inv, P.meter, None, sizes, None)
    with np.errstate(invalid="ignore"):
        if ((loss_sub == 0) & (P.meter > 0) & (P.exp > 0)).sum() < 8 or not on.any():
            run.log("too little normal operation")
            return
    a = rd.availability.AvailabilityAnalysis(meter, sub, cum, exp)
    roll = pd.offsets.MonthEnd() if plan["rollup"] == "MonthEnd" else plan["rollup"]
    a.run(relative_sizes=dict(zip(cols, sizes)), quantiles=q, rollup_period=roll)
    if ambig.any():
        run.log("ambiguous step, not judged")
        return
    R = plant.ref_system(P, on, loss_sub, q)
    info = a.outage_info
    want = R["outages"]
    run.nontrivial = bool(want)
    run.checks += 1 + 8 * len(want)
    got_ext = [(r.start, r.end) for r in info.itertuples()]
    want_ext = [(P.index[o["i"]], P.index[o["j"]]) for o in want]
    need(got_ext == want_ext, "extent", lambda: f"outages reported {got_ext}, in the records "
         f"{want_ext}")
    if any(o["ambiguous"] for o in want):
        run.log("ambiguous outage, not judged")
        return
    tiny = P.full.sum() * P.dt
    for o, r in zip(want, info.to_dict("records")):
        t = f"outage {r['start']} - {r['end']}"
        need(r["duration"] == r["end"] - r["start"], "fields", f"{t}: duration {r['duration']}")
        need(r["intervals"] == o["j"] - o["i"] + 1 and r["daylight_intervals"] == o["daylight"],
             "fields", f"{t}: {r['intervals']} intervals, {r['daylight_intervals']} in daylight; "
             f"expected {o['j'] - o['i'] + 1}, {o['daylight']}")
        run.probe("outage_" + o["type"])
        scale = max(o["expected"], 1e-6 * tiny, abs(o["start"]) if o["start"] == o["start"] else 0)
        for key, v in (("energy_expected", o["expected"]), ("energy_start", o["start"]),
                       ("energy_end", o["end"]), ("energy_actual", o["actual"]),
                       ("ci_lower", o["ci"][0]), ("ci_upper", o["ci"][1]), ("loss", o["loss"])):
            need(close(np.float64(r[key]), np.float64(v), scale, 1e-8), "field_" + key,
                 lambda: f"{t}: {key} = {r[key]!r}, expected {v!r}")
        need(r["type"] == o["type"], "type", lambda: f"{t}: {r['type']}, expected {o['type']} "
             f"(actual {o['actual']}, bounds {o['ci']})")
        truth(P, o, r, t, run)
    lost = a.loss_system.to_numpy(float)
    scale = P.full.max() * 1.0
    bad = np.flatnonzero(~close(lost, R["lost"], scale, 1e-8))
    need(len(bad) == 0, "loss_series", lambda: f"loss_system at {P.index[bad[0]]} is "
         f"{lost[bad[0]]!r}, expected {R['lost'][bad[0]]!r}")
    for o in want:
        if not math.isnan(o["loss"]):
            s = float(lost[max(o["i"], 1):o["j"] + 1].sum() * P.dt)
            need(abs(s - o["loss"]) <= 1e-8 * tiny, "sum",
                 lambda: f"outage {P.index[o['i']]}: loss series adds up to {s!r}, the outage's "
                 f"loss is {o['loss']!r}")
    fixed = a.energy_cumulative_corrected.to_numpy(float)
    bad = np.flatnonzero(~close(fixed, R["fixed"], max(np.nanmax(np.abs(P.cum)), tiny), 1e-9))
    need(len(bad) == 0, "corrected", lambda: f"corrected cumulative energy at {P.index[bad[0]]} "
         f"is {fixed[bad[0]]!r}, expected {R['fixed'][bad[0]]!r}")
    # roll-up
    tot = R["lost"] + loss_sub
    e = plant.interval_energy(tot, P.dt)
    res = a.results
    g = groups(P.index, plan["rollup"])
    need(np.array_equal(a.loss_total.isna().to_numpy(), np.isnan(tot)), "total", "loss_total")
    cscale = max(np.nanmax(np.abs(P.cum)), tiny)
    if g is not None:
        need({label_key(x, plan["rollup"]) for x in res.index} == set(g), "periods",
             f"periods {list(res.index)}")
        for lab, row in res.iterrows():
            pos = g[label_key(lab, plan["rollup"])]
            le = e[pos]
            L = float(np.nansum(le))
            f = R["fixed"][pos]
            f = f[~np.isnan(f)]
            prod = f[-1] - f[0] if len(f) else math.nan
            gl = row["lost_production"]
            need(close(np.float64(0 if math.isnan(gl) else gl), np.float64(L), tiny, 1e-8),
                 "rollup", lambda: f"{lab}: lost_production {gl!r}, expected {L!r}")
            need(close(np.float64(row["actual_production"]), np.float64(prod), cscale, 1e-9),
                 "rollup", lambda: f"{lab}: actual_production {row['actual_production']!r}, "
                 f"expected {prod!r}")
            run.checks += 1
    for lab, row in res.iterrows():
        L, p, v = row["lost_production"], row["actual_production"], row["availability"]
        if not math.isnan(L + p) and L + p > 1e-6 * tiny:
            need(abs(v - p / (L + p)) < 1e-9, "availability",
                 lambda: f"{lab}: availability {v!r}, production {p!r}, loss {L!r}")
    run.log("outages", [(o["i"], o["j"], o["type"]) for o in want])


def truth(P, o, r, t, run):
    i, j = o["i"], o["j"]
    if i == 0 or not (P.honest[i - 1] and P.honest[j]):
        return
    if any(i <= k <= j for k in P.reset_at):
        return
    produced = P.total[j] - P.total[i - 1]
    true_loss = float((P.lost[i:j + 1] * P.dt).sum())
    potential = float((P.full[i:j + 1] * P.dt).sum())
    used = true_loss + produced / P.spec["eta"] - potential     # own consumption
    eps = P.spec["eps"]
    if math.isnan(o["actual"]):
        return
    tol = (3.2 * eps + (1 - P.spec["eta"]) * 1.2) * potential + abs(used) * 1.01 \
        + 1e-9 * abs(P.total[j])
    need(abs(r["loss"] - true_loss) <= tol, "truth",
         lambda: f"{t}: the plant really lost {true_loss!r} of {potential!r} while silent, "
         f"reported {r['loss']!r} ({r['type']})")
    run.checks += 1
    run.probe("truth_outages")
