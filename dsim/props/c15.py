"""C15: soiling intervals respect outages, cleanings and physical bounds."""
import contextlib
import math

import numpy as np
import pandas as pd

from .. import env, soil
from ..util import close, need

PROPERTY = "C15"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 50000}
SHRINK = [("events",)]
RULE = ("one run = one simulated soiling site (rain, washing, outages, lost days, step losses) "
        "analysed by the real SRRAnalysis under a controlled random stream and compared with an "
        "independent model of segmentation, fits, profiles, annual and monthly tables; "
        "non-trivial = at least three intervals of which one is valid and one outage or lost day")
REAL = ["rdtools.soiling.SRRAnalysis, soiling_srr, annual_soiling_ratios, monthly_soiling_rates",
        "pandas/numpy; scipy theilslopes (also used by the model)"]
STUB = ["site, weather and data logger (dsim.soil)",
        "in 'pinned' runs: numpy's uniform/normal draws, placed at a chosen quantile"]
ASSUMPTIONS = ["daily series with NaN rows for missing days (the documented input)",
               "runs in which a shift or validity criterion is within rounding of its limit are "
               "not judged"]


def generate(rng, tier):
    site, ev, D = soil.gen_site(rng)
    kw = {"day_scale": D, "clean_threshold": rng.choice(["infer", "infer", 0.01, 0.03]),
          "trim": rng.random() < 0.2,
          "method": rng.choice(["half_norm_clean", "half_norm_clean", "random_clean",
                                "perfect_clean"]),
          "clean_criterion": rng.choice(["shift", "shift", "precip", "precip_or_shift",
                                         "precip_and_shift"]),
          "precip_threshold": rng.choice([0.01, 0.3, 0.7]),
          "min_interval_length": rng.choice([2, 7, 7, 14]),
          "recenter": rng.random() < 0.6,
          "max_relative_slope_error": rng.choice([500.0, 500.0, 50.0, 1e6]),
          "max_negative_step": rng.choice([0.05, 0.05, 0.01, 0.5]),
          "outlier_factor": rng.choice([1.5, 1.5, 0.5, 4.0]),
          "exceedance_prob": rng.choice([95.0, 90.0, 50.0, 1.0]),
          "confidence_level": rng.choice([68.2, 95.0, 50.0, 100.0])}
    return {"site": site, "events": ev, "kw": kw, "reps": rng.choice([1, 2, 5, 12]),
            "rain": rng.random() < 0.8, "pin": rng.choice([None, None, 0.0, 0.5, 1.0, 0.83]),
            "z": rng.choice([0.0, 1.0, -2.0, 0.4]), "draw": rng.randint(0, 2**31),
            "cls": rng.random() < 0.3,
            "monthly": {"min_interval_length": rng.choice([14, 5]),
                        "max_relative_slope_error": rng.choice([500.0, 60.0]),
                        "reps": rng.choice([50, 400])}}


def simplify(plan):
    s = plan["site"]
    for k, v in (("reps", 1), ("cls", False), ("pin", 0.5)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in (("tz", None), ("noise", 0.0), ("scale", 1.0), ("day0", 0)):
        if s[k] != v:
            yield dict(plan, site=dict(s, **{k: v}))
    base = {"day_scale": 13, "clean_threshold": "infer", "trim": False,
            "method": "perfect_clean", "clean_criterion": "shift", "precip_threshold": 0.01,
            "min_interval_length": 7, "recenter": False, "max_relative_slope_error": 500.0,
            "max_negative_step": 0.05, "outlier_factor": 1.5, "exceedance_prob": 95.0,
            "confidence_level": 68.2}
    for k, v in base.items():
        if plan["kw"][k] != v:
            yield dict(plan, kw=dict(plan["kw"], **{k: v}))


class pinned:
    """numpy's global draws replaced: every uniform at fraction u, every normal at z sigma."""

    def __init__(self, u, z):
        def shape(size, *a):
            return np.broadcast_shapes(*(np.shape(x) for x in a)) if size is None else size

        def out(v, size, *a):
            s = shape(size, *a)
            v = np.broadcast_to(np.asarray(v, float), s)
            return float(v) if v.ndim == 0 else v.copy()

        self.new = {
            "uniform": lambda low=0.0, high=1.0, size=None: out(
                np.asarray(low) + u * (np.asarray(high, float) - np.asarray(low, float)), size,
                low, high),
            "normal": lambda loc=0.0, scale=1.0, size=None: out(
                np.asarray(loc) + z * np.asarray(scale, float), size, loc, scale),
            "random": lambda size=None: out(u, size or ()),
            "random_sample": lambda size=None: out(u, size or ()),
            "rand": lambda *d: out(u, d),
            "standard_normal": lambda size=None: out(z, size or ()),
            "randn": lambda *d: out(z, d),
        }

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in self.new}
        for k, v in self.new.items():
            setattr(np.random, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)



nothing = contextlib.nullcontext


def execute(plan, run):
    rd = env.ensure()
    import rdtools.soiling as so
    st = soil.Site(plan["site"], plan["events"], run)
    if (~np.isnan(st.pm)).sum() < 10:
        return
    pm, insol, rain = st.series()
    kw = plan["kw"]
    use_rain = plan["rain"]
    try:
        S = soil.segment(st, kw, use_rain)
        rows = soil.intervals(S, kw)
    except soil.Skip as e:
        run.log("skip", e)
        run.probe("skipped")
        return
    np.random.seed(plan["draw"])
    pin = plan["pin"]
    args = dict(kw, reps=plan["reps"])
    try:
        with pinned(pin, plan["z"]) if pin is not None else nothing():
            if plan["cls"]:
                a = so.SRRAnalysis(pm, insol, precipitation_daily=rain if use_rain else None)
                r = a.run(**args)
            else:
                r = so.soiling_srr(pm, insol, precipitation_daily=rain if use_rain else None,
                                   **args)
    except so.NoValidIntervalError:
        run.checks += 1
        run.probe("no_valid_interval")
        need(rows is None, "refused", lambda: "refused although valid intervals exist: "
             f"{[(x['i'], x['j']) for x in rows if x['valid']]}")
        return
    need(rows is not None, "accepted", "a ratio is reported although no valid interval exists")
    ratio, ci, info = r
    day = st.index[S["first"]:S["first"] + S["n"]]
    T = info["soiling_interval_summary"]
    scale = 1.0
    got = [(x.start, x.end) for x in T.itertuples()]
    want = [(day[x["i"]], day[x["j"]]) for x in rows]
    need(got == want, "segmentation", lambda: "intervals differ, first difference: reported "
         f"{next((g for g, w in zip(got + [None], want + [None]) if g != w), None)}, expected "
         f"{next((w for g, w in zip(got + [None], want + [None]) if g != w), None)} "
         f"({len(got)} vs {len(want)})")
    need(close(float(info["renormalizing_factor"]), float(S["renorm"])), "renorm",
         lambda: f"renormalizing factor {info['renormalizing_factor']!r}, expected {S['renorm']!r}")
    for x, t in zip(rows, T.to_dict("records")):
        lab = f"interval {t['start']}..{t['end']}"
        need(int(t["length"]) == x["length"], "length", lambda: f"{lab}: length {t['length']}")
        need(bool(t["valid"]) == x["valid"], "valid", lambda: f"{lab}: valid={t['valid']}, "
             f"expected {x['valid']}")
        need(t["soiling_rate_low"] - 1e-15 <= t["soiling_rate"] <= t["soiling_rate_high"] + 1e-15
             and t["soiling_rate"] <= 0 and t["soiling_rate_high"] <= 0, "bounds",
             lambda: f"{lab}: rate {t['soiling_rate']} not within its bounds "
             f"[{t['soiling_rate_low']}, {t['soiling_rate_high']}] or positive")
        for k, m in (("soiling_rate", "rate"), ("soiling_rate_low", "low"),
                     ("soiling_rate_high", "high"), ("inferred_start_loss", "istart"),
                     ("inferred_end_loss", "iend")):
            need(close(float(t[k]), float(x[m]), 1e-8, 1e-10 * scale), "fit_" + k,
                 lambda: f"{lab}: {k} = {t[k]!r}, its own valid days give {x[m]!r}")
    run.checks += len(rows) * 8
    nv = sum(x["valid"] for x in rows)
    run.nontrivial = len(rows) >= 3 and nv >= 1 and bool(
        {"outage", "lost_days"} & set(run.faults))
    run.probe("intervals", len(rows))
    run.probe("valid_intervals", nv)
    run.probe("long_outages", int(S["brk"].sum()) // 2)
    # imposed rates
    if plan["site"]["noise"] == 0 and kw["clean_criterion"] == "precip" and use_rain:
        truth_rates(st, S, rows, T, run)
    # perfect-clean curve
    pc = info["soiling_ratio_perfect_clean"]
    wantpc = {day[d]: 1 + (d - x["i"]) * x["rate"] for x in rows if x["valid"]
              for d in range(x["i"], x["j"] + 1)}
    need(set(pc.index) == set(wantpc) and all(close(v, wantpc[k], 1e-8, 1e-9)
                                               for k, v in pc.items()), "perfect_clean",
         "soiling_ratio_perfect_clean is not 1 + rate * days since cleaning of the valid "
         "intervals")
    profiles(plan, S, rows, day, info, ratio, ci, run, pin)
    tables(plan, so, st, insol, T, info, run, pin)
    run.log("ratio", f"{float(ratio):.10g}", len(rows), nv)
    assert rd


def truth_rates(st, S, rows, T, run):
    a = S["first"]
    for x, rate in zip(rows, T["soiling_rate"]):
        d = np.arange(x["i"], x["j"] + 1)
        r = st.rate_of[a + d[:-1]]
        inside = [k for k in st.clean if a + x["i"] < k <= a + x["j"]]
        steps = np.diff(st.pm[a + d] / st.ratio[a + d])
        if not x["valid"] or inside or len(set(r)) != 1 or r[0] <= 0:
            continue
        if np.nanmax(np.abs(steps), initial=0) > 1e-9 or st.ratio[a + d].min() <= 0.31 \
                or st.ratio[a + d].max() > 1:
            continue
        lvl = st.pm[a + d] / st.ratio[a + d]
        lvl = np.nanmedian(lvl) / S["renorm"]
        run.checks += 1
        run.probe("imposed_rates_recovered")
        need(abs(rate + r[0] * lvl) <= 1e-9 * max(lvl, 1), "recovery",
             lambda: f"imposed rate {-r[0] * lvl}, reported {rate}")


def profiles(plan, S, rows, day, info, ratio, ci, run, pin):
    kw = plan["kw"]
    P = info["stochastic_soiling_profiles"]
    need(len(P) == plan["reps"], "reps", f"{len(P)} profiles for {plan['reps']} repetitions")
    lo, hi = rows[0]["i"], rows[-1]["j"]
    span = day[lo:hi + 1]
    ins = S["insol"][lo:hi + 1]
    ratios = []
    for p in P:
        need(len(p) == len(span) and bool((p.index == span).all()), "profile_days",
             lambda: f"profile covers {p.index[0]}..{p.index[-1]} ({len(p)} days), analysed "
             f"{span[0]}..{span[-1]} ({len(span)})")
        v = p.to_numpy(float)
        need(not np.isnan(v).any(), "profile_nan", "NaN in a soiling profile")
        ratios.append(float((v * ins).sum() / ins.sum()))
        prev = None
        for k, x in enumerate(rows):
            seg = v[x["i"] - lo:x["j"] + 1 - lo]
            s0 = seg[0]
            lab = f"profile at {day[x['i']]}..{day[x['j']]}"
            need(s0 <= 1 + 1e-9, "above_one", lambda: f"{lab} starts at {s0!r}")
            if len(seg) > 1:
                m = (seg[-1] - seg[0]) / (len(seg) - 1)
                need(np.abs(seg - (s0 + m * np.arange(len(seg)))).max() < 1e-9, "straight",
                     lambda: f"{lab} is not a straight line")
                need(x["low"] - 1e-9 <= m <= x["high"] + 1e-9, "slope_range",
                     lambda: f"{lab} has slope {m!r} outside [{x['low']}, {x['high']}]")
            if kw["method"] == "perfect_clean":
                need(abs(s0 - 1) < 1e-9, "perfect", lambda: f"{lab} starts at {s0!r}")
            elif x["valid"]:
                if prev is None:
                    need(abs(s0 - 1) < 1e-9, "first", lambda: f"{lab} (first) starts at {s0!r}")
                elif kw["method"] == "random_clean":
                    need(min(prev, 1) - 1e-9 <= s0 <= max(prev, 1) + 1e-9, "recovery_range",
                         lambda: f"{lab} starts at {s0!r}, previous interval ended at {prev!r}")
                prev = seg[-1]
            else:
                nxt = next((y for y in rows[k + 1:] if y["valid"]), None)
                a = prev if prev is not None else 1.0
                b = v[nxt["i"] - lo] if nxt else 1.0
                need(min(a, b) - 1e-9 <= s0 <= max(a, b) + 1e-9, "invalid_level",
                     lambda: f"{lab} (no valid fit) is at {s0!r}, outside the range between the "
                     f"neighbouring intervals {a!r} and {b!r}")
        run.checks += len(rows)
    if pin is not None:
        soil.profile(rows, kw["method"], pin, plan["z"])
        w = np.concatenate([x["start"] + x["slope"] * np.arange(x["j"] - x["i"] + 1)
                            for x in rows])
        d = np.abs(P[0].to_numpy(float) - w)
        k = int(d.argmax())
        need(d[k] < 1e-8, "profile", lambda: f"profile on {span[k]} is {P[0].iloc[k]!r}, expected "
             f"{w[k]!r} for draws at fraction {pin}, z={plan['z']}")
    h = kw["confidence_level"] / 2
    q = np.percentile(ratios, [50, 50 - h, 50 + h, 100 - kw["exceedance_prob"]])
    g = [ratio, ci[0], ci[1], info["exceedance_level"]]
    need(all(close(float(x), float(y), 1e-9, 1e-9) for x, y in zip(g, q)), "percentiles",
         lambda: f"reported {g}, the profiles give {list(q)}")
    run.checks += 4


def tables(plan, so, st, insol, T, info, run, pin):
    P = info["stochastic_soiling_profiles"]
    cl = plan["kw"]["confidence_level"]
    A = so.annual_soiling_ratios(P, insol, confidence_level=cl)
    yr = P[0].index.year
    w = insol.reindex(P[0].index).to_numpy(float)
    years = sorted(set(yr))
    need(list(A["year"]) == years, "annual_years", f"years {list(A['year'])}, expected {years}")
    for y, row in zip(years, A.to_dict("records")):
        m = (yr == y)
        wi = np.where(np.isnan(w[m]), 0, w[m])
        if wi.sum() <= 0:
            continue
        v = [float((p.to_numpy(float)[m] * wi).sum() / wi.sum()) for p in P]
        e = [np.percentile(v, 50), np.percentile(v, max(0, 50 - cl / 2)),
             np.percentile(v, min(100, 50 + cl / 2))]
        g = [row["soiling_ratio_median"], row["soiling_ratio_low"], row["soiling_ratio_high"]]
        need(all(close(float(a), float(b), 1e-9, 1e-9) for a, b in zip(g, e)), "annual",
             lambda: f"annual ratio {y}: {g}, the profiles give {e}")
        run.checks += 3
    mk = plan["monthly"]
    with pinned(pin, plan["z"]) if pin is not None else nothing():
        M = so.monthly_soiling_rates(T, confidence_level=cl, **mk)
    need(list(M["month"]) == list(range(1, 13)), "monthly", "months missing")
    use = []
    for t in T.to_dict("records"):
        if not t["valid"] or t["length"] < mk["min_interval_length"]:
            continue
        e = 100 * abs((t["soiling_rate_high"] - t["soiling_rate_low"]) / t["soiling_rate"])
        if abs(e - mk["max_relative_slope_error"]) < 1e-9:
            return
        if e <= mk["max_relative_slope_error"]:
            use.append(t)
    for row in M.to_dict("records"):
        k = row["month"]
        n = [sum(d.month == k for d in pd.date_range(t["start"], t["end"])) for t in use]
        rel = [(t, c) for t, c in zip(use, n) if c > 0]
        need(row["interval_count"] == len(rel), "monthly_count", lambda: f"month {k}: "
             f"{row['interval_count']} intervals, expected {len(rel)}")
        g = [row["soiling_rate_low"], row["soiling_rate_median"], row["soiling_rate_high"]]
        if not rel:
            need(all(math.isnan(x) for x in g), "monthly_empty", f"month {k}: {g} from nothing")
            continue
        lo = min(t["soiling_rate_low"] for t, _ in rel)
        hi = max(t["soiling_rate_high"] for t, _ in rel)
        need(lo - 1e-12 <= g[0] <= g[1] <= g[2] <= hi + 1e-12, "monthly_range",
             lambda: f"month {k}: {g} outside the rates of its intervals [{lo}, {hi}]")
        if pin is not None:
            s = np.concatenate([np.full(int(math.ceil(c / sum(n) * mk["reps"])),
                                        t["soiling_rate_low"] + pin * (t["soiling_rate_high"]
                                                                       - t["soiling_rate_low"]))
                                for t, c in rel])
            e = np.percentile(s, [max(0, 50 - cl / 2), 50, min(100, 50 + cl / 2)])
            need(all(close(float(a), float(b), 1e-9, 1e-12) for a, b in zip(g, e)),
                 "monthly_rate", lambda: f"month {k}: {g}, weighted intervals give {list(e)}")
        run.checks += 1
