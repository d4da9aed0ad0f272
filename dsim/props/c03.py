"""C03: uncertainty outputs are coherent for every random stream."""
import datetime as dtm
import math

import numpy as np
import pandas as pd

from .. import env, regress, soil
from ..util import need
from . import c14

PROPERTY = "C03"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}
SHRINK = [("faults",), ("events",), ("table",)]
RULE = ("one run = one simulated record with lost data analysed by a real estimator under several "
        "controlled random streams and levels (or a degenerate stream), compared with the exact "
        "or independently simulated resampling distribution; non-trivial = the interval has a "
        "positive width")
REAL = ["rdtools.degradation (year-on-year, OLS, classical), rdtools.bootstrap, "
        "rdtools.soiling.soiling_srr and monthly_soiling_rates", "numpy, statsmodels, arch"]
STUB = ["record source, link, logger (dsim.telemetry) and soiling site (dsim.soil)",
        "in 'degenerate' runs numpy's draw functions: every draw at one place of its range"]
ASSUMPTIONS = ["a percentile of R draws is accepted within six standard errors of its rank",
               "year-on-year slopes themselves are decided by C14, interval fits by C15"]
LEVELS = [0.0, 1.0, 20.0, 50.0, 68.2, 90.0, 95.0, 99.0, 100.0]


def generate(rng, tier):
    mode = rng.choices(["yoy", "ols", "classical", "srr", "monthly", "circular"],
                       [50, 14, 8, 14, 10, 8])[0]
    levels = sorted(rng.sample(LEVELS, 3) + [round(rng.uniform(0, 100), 1)])
    exc = sorted(rng.sample([1.0, 5.0, 50.0, 75.0, 90.0, 95.0, 99.0], 2)
                 + [round(rng.uniform(0, 100), 1)])
    plan = {"mode": mode, "levels": levels, "exc": exc, "draws": [rng.randint(0, 2**31)
                                                                  for _ in range(2)],
            "pin": rng.choice([None, None, 0.0, 0.4, 0.999]), "own": rng.randint(0, 2**31)}
    if mode in ("yoy", "ols", "classical", "circular"):
        rec = c14.generate(rng, tier)
        if mode in ("classical", "circular"):
            rec.update(rows="nan", order="sorted", faults=[] if mode == "classical" else
                       rec["faults"], freq=rng.choice(["D", "W", "D"]), hour=0, tz=None)
            rec["period"] = 86400 * (7 if rec["freq"] == "W" else 1)
            rec["n"] = int(rng.choice([2.1, 2.6, 3.2]) * 365.25 * 86400 / rec["period"])
            rec["faults"] = [f for f in rec["faults"] if f.get("i", 0) < rec["n"]] \
                if mode == "classical" else []
            rec["ar"] = rng.choice([0.0, 0.97, 0.998])
            plan["nan_frac"] = rng.choice([0, 0.02, 0.2]) if mode == "circular" else 0
            plan["block"] = rng.choice([1, 7, 30]) if rec["freq"] == "W" else \
                rng.choice([5, 30, 90, 200])
        if rec["shape"] == "steady" and rng.random() < 0.8:
            rec["shape"] = "noisy"
        plan["rec"] = rec
        plan["faults"] = rec.pop("faults")
    elif mode == "srr":
        site, ev, D = soil.gen_site(rng)
        plan.update(site=site, events=ev, reps=200, kw={
            "day_scale": D, "clean_threshold": "infer", "trim": False,
            "method": rng.choice(["half_norm_clean", "random_clean", "perfect_clean"]),
            "clean_criterion": rng.choice(["shift", "precip_or_shift"]),
            "precip_threshold": 0.3, "min_interval_length": 7, "recenter": True,
            "max_relative_slope_error": 500.0, "max_negative_step": 0.05,
            "outlier_factor": 1.5})
    else:
        t, d = [], rng.randint(0, 300)
        for _ in range(rng.randint(1, 9)):
            ln = rng.choice([rng.randint(10, 40), rng.randint(20, 200), 13, 14, 400])
            r = -rng.choice([0.0005, 0.001, 0.004]) * rng.uniform(0.5, 1)
            w = rng.choice([0.0, 0.3, 1.0, 3.0]) * abs(r)
            a = rng.random()
            t.append({"d": d, "len": ln, "rate": r, "low": r - a * w,
                      "high": min(r + (1 - a) * w, 0.0), "valid": rng.random() < 0.85})
            d += ln + 1
        plan.update(table=t, reps=rng.choice([2000, 20000]), minlen=rng.choice([14, 14, 30, 1]),
                    maxerr=rng.choice([500.0, 150.0, 1e9]))
    return plan


def simplify(plan):
    if plan.get("pin") is not None:
        yield dict(plan, pin=None)
    if "rec" in plan:
        for c in c14.simplify(plan["rec"]):
            yield dict(plan, rec=c)


class degenerate:
    """Every numpy draw lands at fraction u of its range (choice: one element)."""

    def __init__(self, u):
        self.called = 0

        def choice(a, size=None, replace=True, p=None):
            self.called += 1
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            v = a[min(int(u * len(a)), len(a) - 1)]
            return v if size is None else np.full(size, v)

        def randint(low, high=None, size=None, dtype=int):
            self.called += 1
            if high is None:
                low, high = 0, low
            v = low + min(int(u * (high - low)), high - low - 1)
            return v if size is None else np.full(size, v, dtype)

        self.new = {"choice": choice, "randint": randint}

    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in self.new}
        for k, v in self.new.items():
            setattr(np.random, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)


def ordered(what, levels, cis, lo, hi, atol=0.0):
    """Intervals of one stream at rising levels: ordered, nested, inside [lo, hi]."""
    tol = 1e-12 * max(abs(lo), abs(hi), 1e-300) + atol
    for c, (a, b) in zip(levels, cis):
        need(a <= b, "order", lambda: f"{what}: interval at {c} % is [{a!r}, {b!r}]")
        need(lo - tol <= a and b <= hi + tol, "range", lambda: f"{what}: interval [{a!r}, {b!r}] "
             f"at {c} % leaves the range [{lo!r}, {hi!r}] the resampling can produce")
    for (c, x), (d, y) in zip(zip(levels, cis), list(zip(levels, cis))[1:]):
        need(y[0] <= x[0] + tol and x[1] <= y[1] + tol, "widening", lambda: f"{what}: on one "
             f"random stream the interval at {d} % is {list(y)}, narrower than {list(x)} at {c} %")


def record(plan, run):
    rec = dict(plan["rec"], faults=plan["faults"])
    walls, vals = c14.make(rec, run)
    if len(walls) < 10:
        return None
    tz = rec["tz"]
    if rec["freq"] == "Dirr" and tz not in (None, "UTC", "Asia/Kolkata"):
        tz = None
    idx, _ = c14.abs_s(walls, tz)
    s = pd.Series(vals, index=idx, dtype=float)
    return s


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def rd_errors():
    from rdtools.soiling import NoValidIntervalError
    return NoValidIntervalError


def hash_free(name):
    return float(sum(map(ord, name)))


def defaults(run, plan, what, f, args, kw, documented):
    """Leaving an argument out means its documented default, on one random stream."""
    got = []
    for extra in ({}, documented):
        np.random.seed(plan["draws"][0])
        try:
            with seeded_default_rng(plan["draws"][1]):
                r = f(*args, **dict(kw, **{k: v for k, v in extra.items() if k not in kw}))
        except (ValueError, rd_errors()) as e:
            got.append(np.array([hash_free(type(e).__name__)]))
            continue
        if isinstance(r, pd.DataFrame):
            got.append(r.select_dtypes("number").to_numpy(float).ravel())
        else:
            got.append(np.r_[float(r[0]), np.ravel(np.asarray(r[1], float)),
                             float(r[2].get("exceedance_level", 0.0))])
    need(np.array_equal(got[0], got[1], equal_nan=True), "defaults", lambda: f"{what}: with the "
         f"documented defaults {documented} spelled out the answer is {got[1][:4]}, without them "
         f"{got[0][:4]}")
    run.checks += 1


def yoy(plan, run, rd):
    s = record(plan, run)
    if s is None:
        return
    rc = plan["rec"]["recenter"]
    out = []
    try:
        for k, seed in enumerate(plan["draws"]):
            for c, e in zip(plan["levels"], plan["exc"] + plan["exc"][-1:]):
                if k and out and len(out) >= len(plan["levels"]) + 1:
                    break
                np.random.seed(seed)
                out.append((k, c, e) + rd.degradation_year_on_year(
                    s, recenter=rc, confidence_level=c, exceedance_prob=e))
    except ValueError as e:
        run.log("refused", str(e)[:40])
        run.probe("refused")
        return
    rate, info = out[0][3], out[0][5]
    y = info["YoY_values"].to_numpy(float)
    for o in out[1:]:
        need(same(o[3], rate), "stream_rate", lambda: f"rate {rate!r} became {o[3]!r} under "
             "another random stream or level")
        i = o[5]
        need(np.array_equal(i["YoY_values"].to_numpy(float), y)
             and i["usage_of_points"].equals(info["usage_of_points"])
             and same(float(i["renormalizing_factor"]), float(info["renormalizing_factor"])),
             "stream_info", "slopes, usage or factor depend on the random stream or level")
    np.random.seed(plan["draws"][1])
    alone = rd.degradation_year_on_year(s, recenter=rc, uncertainty_method=None)
    need(same(float(alone), rate), "stream_rate", f"rate {rate!r} without uncertainty {alone!r}")
    if not np.isfinite(y).all():
        return
    one = [o for o in out if o[0] == 0]
    ordered("year-on-year", [o[1] for o in one], [tuple(map(float, o[4])) for o in one],
            y.min(), y.max())
    ex = sorted((o[2], float(o[5]["exceedance_level"])) for o in one)
    for (p, a), (q, b) in zip(ex, ex[1:]):
        need(b <= a or p == q, "exceedance_order", lambda: f"exceeded with {q} %: {b!r}, with {p} "
             f"%: {a!r}")
    B = regress.MedianBootstrap(y)
    tol = 1e-9 * max(1.0, np.abs(y).max())
    for k, c, e, _, ci, i in out:
        for p, v, w in (((50 - c / 2) / 100, ci[0], f"lower bound at {c} %"),
                        ((50 + c / 2) / 100, ci[1], f"upper bound at {c} %"),
                        ((100 - e) / 100, i["exceedance_level"], f"exceedance level {e} %")):
            a, b = B.bracket(p, 10000)
            need(a - tol <= v <= b + tol, "distribution", lambda: f"{w} is {v!r}; the medians of "
                 f"resampled slopes put it in [{a!r}, {b!r}]")
            run.checks += 1
    defaults(run, plan, "year-on-year", rd.degradation_year_on_year, (s,), {},
             {"recenter": True, "exceedance_prob": 95, "confidence_level": 68.2,
              "uncertainty_method": "simple"})
    run.nontrivial = float(out[-1][4][1]) > float(out[-1][4][0])
    if plan["pin"] is not None:
        with degenerate(plan["pin"]) as g:
            r, ci, i = rd.degradation_year_on_year(s, recenter=rc,
                                                   confidence_level=plan["levels"][-1])
        need(same(r, rate), "stream_rate", f"rate {rate!r} became {r!r} under a constant stream")
        run.fault("degenerate_stream")
        if g.called:
            v = [float(ci[0]), float(ci[1]), float(i["exceedance_level"])]
            need(max(v) - min(v) <= tol and np.abs(y - v[0]).min() <= tol, "degenerate",
                 lambda: f"every resample is one single slope, but interval and exceedance are {v}")
            run.checks += 1
    run.log("rate", f"{rate:.10g}", f"{float(out[0][4][0]):.10g}")


def regression(plan, run, rd):
    s = record(plan, run)
    if s is None or s.notna().sum() < 10:
        return
    classical = plan["mode"] == "classical"
    f = rd.degradation_classical_decomposition if classical else rd.degradation_ols
    if classical:
        s = s.asfreq(s.index.freq or pd.infer_freq(s.index))
    if not s.index.is_monotonic_increasing:
        s = s.sort_index()
    t = s.index.view("int64") / 1e9
    yv = s.to_numpy(float)
    if classical:
        yv, edge = regress.centred_year_mean(t, yv)
        if edge or (~np.isnan(yv)).sum() < 5:
            return
    b, m, cov, rmse = regress.ols((t - t[0]) / 86400 / 365, yv)
    if b <= 0 or math.sqrt(cov[0, 0]) > b / 12:
        run.probe("skipped")        # the ratio of the draws has no sensible distribution
        return
    res = []
    for k, seed in enumerate(plan["draws"]):
        for c in plan["levels"]:
            np.random.seed(seed)
            res.append((k, c) + f(s, confidence_level=c))
            if k:
                break
    rate = res[0][2]
    need(all(same(x[2], rate) for x in res), "stream_rate", "rate depends on the random stream")
    sd = np.sqrt(np.diag(cov))
    own = np.random.RandomState(plan["own"]).standard_normal((200000, 2))
    L = np.array([[sd[0], 0], [cov[0, 1] / sd[0] if sd[0] else 0, 0]])
    L[1, 1] = math.sqrt(max(cov[1, 1] - L[1, 0] ** 2, 0))
    z = own @ L.T
    dist = 100 * (m + z[:, 1]) / (b + z[:, 0])
    tol = 1e-6 * max(abs(100 * m / b), 1e-3) + 1e-9
    one = [x for x in res if x[0] == 0]
    w = dist.max() - dist.min()
    ordered(plan["mode"], [x[1] for x in one], [tuple(map(float, x[3])) for x in one],
            dist.min() - w, dist.max() + w, 1e-9)
    for k, c, _, ci, _ in res:
        for p, v in (((50 - c / 2) / 100, float(ci[0])), ((50 + c / 2) / 100, float(ci[1]))):
            ok, r, e = regress.rank_ok(dist, v, p, 10000, tol)
            need(ok, "distribution", lambda: f"{plan['mode']}: bound {v!r} at {c} % has rank "
                 f"{r:.4f} in the distribution of slope/intercept, expected {p:.4f} +- {e:.4f}")
            run.checks += 1
    defaults(run, plan, plan["mode"], f, (s,), {}, {"confidence_level": 68.2})
    run.nontrivial = float(res[-1][3][1]) > float(res[-1][3][0])
    run.log(plan["mode"], f"{rate:.10g}", f"{float(res[0][3][0]):.10g}")


def circular(plan, run, rd):
    rec = plan["rec"]
    s = record(plan, run)
    if s is None:
        return
    n = len(s)
    rs = np.random.RandomState(plan["own"])
    e = rs.standard_normal(n) * 0.02
    for i in range(1, n):
        e[i] += rec["ar"] * e[i - 1]
    s = s + e * rec["scale"]
    s[rs.random_sample(n) < plan["nan_frac"]] = np.nan
    bl = plan["block"]
    c, ex = plan["levels"][-2], plan["exc"][1]
    np.random.seed(plan["draws"][0])
    st = np.random.get_state()[1].copy(), np.random.get_state()[2]
    try:
        with seeded_default_rng(plan["draws"][1]):
            rate, ci, info = rd.degradation_year_on_year(
                s, recenter=rec["recenter"], uncertainty_method="circular_block",
                block_length=bl, confidence_level=c, exceedance_prob=ex)
    except ValueError as err:
        run.log("refused", str(err)[:40])
        need(bl > n / 3 or "two years" in str(err), "refused", lambda: str(err))
        return
    need(bl <= n / 3, "accepted", f"block of {bl} accepted for {n} records")
    now = np.random.get_state()
    run.probe("global_stream_untouched", int(np.array_equal(now[1], st[0]) and now[2] == st[1]))
    alone = rd.degradation_year_on_year(s, recenter=rec["recenter"], uncertainty_method=None)
    need(same(float(alone), float(rate)), "stream_rate", f"rate {rate!r}, alone {alone!r}")
    br = info["bootstrap_rates"].to_numpy(float)
    if not np.isfinite(br).all():
        return
    q = np.percentile(br, [50 - c / 2, 50 + c / 2, 100 - ex])
    got = [float(ci[0]), float(ci[1]), float(info["exceedance_level"])]
    need(np.allclose(q, got, rtol=1e-9, atol=1e-9), "percentiles",
         lambda: f"interval and exceedance {got}, the resampled rates give {list(q)}")
    # independent circular-block resampling
    y = s.to_numpy(float) / float(info["renormalizing_factor"])
    t = s.index
    days = (t[-1] - t[0]).days / n
    trend = 1 + rate / 100 / 365 * np.arange(n) * days
    res = y / trend
    W = [x.to_pydatetime() for x in t]
    A = np.array([x.timestamp() for x in W])
    S = np.array([c14.plus_year(x).timestamp() for x in W])
    j = np.searchsorted(S, A, side="right") - 1
    k = np.flatnonzero(j >= 0)
    k = k[A[k] - S[j[k]] <= 8 * 86400]
    j = j[k]
    dy = (A[k] - A[j]) / 86400 / 365
    R = 1500
    own = np.empty(R)
    nb = -(-n // bl)
    for r in range(R):
        st0 = rs.randint(0, n, nb)
        ids = ((st0[:, None] + np.arange(bl)[None, :]) % n).ravel()[:n]
        x = trend * res[ids]
        own[r] = np.nanmedian(100 * (x[k] - x[j]) / dy)
    tol = 1e-7 * max(1, abs(rate))
    for p in (0.05, 0.16, 0.3, 0.5, 0.7, 0.84, 0.95):
        v = float(np.quantile(br, p))
        ok, r, e = regress.rank_ok(own, v, p, len(br), tol)
        need(ok, "distribution", lambda: f"circular blocks of {bl}: the {p} quantile of the "
             f"resampled rates, {v!r}, has rank {r:.3f} in an independent resampling (+-{e:.3f})")
        run.checks += 1
    run.fault("os_entropy_controlled")
    run.nontrivial = got[1] > got[0]
    run.log("circular", f"{rate:.10g}", f"{got[0]:.10g}")


class seeded_default_rng:
    """The operating system's entropy behind numpy.random.default_rng() is controlled."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.old = np.random.default_rng

        def f(seed=None, _o=self.old):
            return _o(self.seed if seed is None else seed)
        np.random.default_rng = f
        self.mods = []
        import sys
        for n, m in list(sys.modules.items()):
            if n.startswith("arch") and getattr(m, "default_rng", None) is self.old:
                m.default_rng = f
                self.mods.append(m)

    def __exit__(self, *a):
        np.random.default_rng = self.old
        for m in self.mods:
            m.default_rng = self.old


def srr(plan, run, rd):
    import rdtools.soiling as so
    st = soil.Site(plan["site"], plan["events"], run)
    if (~np.isnan(st.pm)).sum() < 10:
        return
    pm, insol, rain = st.series()
    kw = plan["kw"]
    try:
        S = soil.segment(st, kw, True)
        rows = soil.intervals(S, kw)
    except soil.Skip:
        run.probe("skipped")
        return
    if rows is None:
        return
    out = []
    R = plan["reps"]
    for c, e in zip(plan["levels"], plan["exc"]):
        np.random.seed(plan["draws"][0])
        r = so.soiling_srr(pm, insol, reps=R if not out else 30, precipitation_daily=rain,
                           confidence_level=c, exceedance_prob=e, **kw)
        out.append((c, e) + r)
    P = out[0][4]["stochastic_soiling_profiles"]
    M = np.array([p.to_numpy(float) for p in P])
    # same stream, same repetitions: nested intervals
    w = np.nan_to_num(S["insol"][rows[0]["i"]:rows[-1]["j"] + 1])
    ordered("soiling", [o[0] for o in out[1:]], [tuple(map(float, o[3])) for o in out[1:]], -9, 1.2)
    for a, b in zip(out[1:], out[2:]):
        need(b[4]["exceedance_level"] <= a[4]["exceedance_level"] or a[1] >= b[1],
             "exceedance_order", "soiling exceedance level rises with the probability")
        need(same(float(a[2]), float(b[2])), "stream_rate", "median soiling ratio depends on the "
             "confidence level")
    defaults(run, plan, "soiling", so.soiling_srr, (pm, insol),
             dict(kw, precipitation_daily=rain, reps=30) if plan["draws"][1] % 2 else
             dict(precipitation_daily=rain, reps=30, clean_criterion=kw["clean_criterion"]),
             {"confidence_level": 68.2, "exceedance_prob": 95, "day_scale": 13,
              "clean_threshold": "infer", "trim": False, "method": "half_norm_clean",
              "precip_threshold": 0.01, "min_interval_length": 7, "recenter": True,
              "max_relative_slope_error": 500.0, "max_negative_step": 0.05,
              "outlier_factor": 1.5})
    rat = (M * w).sum(1) / w.sum()
    need(rat.min() - 1e-9 <= float(out[0][2]) <= rat.max() + 1e-9, "range",
         "soiling ratio outside its realisations")
    # the draws: uniform slopes, recoveries as documented, independent
    lo = rows[0]["i"]
    us, prev_end, prev_u, pv = [], None, None, None
    for x in rows:
        seg = M[:, x["i"] - lo:x["j"] + 1 - lo]
        if not x["valid"]:
            continue
        n = seg.shape[1]
        lab = f"interval of day {x['i']}-{x['j']}"
        u = None
        if n > 1 and (x["high"] - x["low"]) * (n - 1) > 1e-5:
            u = ((seg[:, -1] - seg[:, 0]) / (n - 1) - x["low"]) / (x["high"] - x["low"])
            D = regress.ks(np.clip(u, 0, 1))
            need(D < 3.2, "slope_draws", lambda: f"{lab}: soiling rates of the realisations are "
                 f"not uniform over their range (KS {D:.2f})")
            if prev_u is not None:
                rho = abs(np.corrcoef(u, prev_u)[0, 1])
                need(rho * math.sqrt(R) < 6, "independent", lambda: f"{lab}: rates of consecutive "
                     f"intervals are correlated ({rho:.2f})")
            run.checks += 1
        if prev_end is not None and kw["method"] == "random_clean":
            d = 1 - prev_end
            if d.min() > 1e-5:
                f = (seg[:, 0] - prev_end) / d
                D = regress.ks(np.clip(f, 0, 1))
                need(D < 3.2, "recovery_draws", lambda: f"{lab}: recoveries are not uniform between "
                     f"none and complete (KS {D:.2f})")
                run.checks += 1
        if prev_end is not None and kw["method"] == "half_norm_clean":
            y = np.clip(prev_end + pv["recovery"], 0, 1)
            g = (1 - y) > 1e-4
            if g.sum() > R / 2:
                z = (1 - seg[g, 0]) * 3 / (1 - y[g])
                f = np.array([math.erf(a / math.sqrt(2)) for a in z])
                D = regress.ks(f)
                need(D < 3.2, "recovery_draws", lambda: f"{lab}: recoveries are not half-normal "
                     f"around the fitted recovery (KS {D:.2f})")
                run.checks += 1
        prev_end, prev_u, pv = seg[:, -1], u, x
    run.nontrivial = bool(rat.max() > rat.min())
    run.log("srr", f"{float(out[0][2]):.10g}")


def monthly(plan, run, rd):
    import rdtools.soiling as so
    base = pd.Timestamp("2018-01-01")
    T = pd.DataFrame([{"start": base + pd.Timedelta(days=t["d"]),
                       "end": base + pd.Timedelta(days=t["d"] + t["len"]),
                       "length": t["len"], "soiling_rate": t["rate"],
                       "soiling_rate_low": t["low"], "soiling_rate_high": t["high"],
                       "valid": t["valid"]} for t in plan["table"]])
    if not len(T):
        return
    out = []
    for c in plan["levels"]:
        np.random.seed(plan["draws"][0])
        out.append(so.monthly_soiling_rates(T, min_interval_length=plan["minlen"],
                                            max_relative_slope_error=plan["maxerr"],
                                            reps=plan["reps"], confidence_level=c))
    if plan["reps"] < 10000:
        defaults(run, plan, "monthly soiling", so.monthly_soiling_rates, (T,),
                 {} if plan["draws"][1] % 4 == 0 else {"reps": plan["reps"]},
                 {"min_interval_length": 14, "max_relative_slope_error": 500.0, "reps": 100000,
                  "confidence_level": 68.2})
    use = [t for t in plan["table"] if t["valid"] and t["len"] >= plan["minlen"]
           and 100 * abs((t["high"] - t["low"]) / t["rate"]) <= plan["maxerr"]]
    if any(abs(100 * abs((t["high"] - t["low"]) / t["rate"]) - plan["maxerr"]) < 1e-6
           for t in plan["table"]):
        return
    for m in range(1, 13):
        cnt = []
        for t in use:
            d0 = dtm.date(2018, 1, 1) + dtm.timedelta(days=t["d"])
            cnt.append(sum((d0 + dtm.timedelta(days=k)).month == m for k in range(t["len"] + 1)))
        rows = [o.iloc[m - 1] for o in out]
        if not sum(cnt):
            need(all(np.isnan(r[["soiling_rate_median", "soiling_rate_low",
                                 "soiling_rate_high"]].astype(float)).all() for r in rows),
                 "monthly_empty", f"month {m} has rates but no interval")
            continue
        rel = [(t, k) for t, k in zip(use, cnt) if k]
        lo = min(t["low"] for t, _ in rel)
        hi = max(t["high"] for t, _ in rel)
        ordered(f"month {m}", plan["levels"], [(float(r.soiling_rate_low),
                                                float(r.soiling_rate_high)) for r in rows], lo, hi)
        wt = np.array([math.ceil(k / sum(cnt) * plan["reps"]) for _, k in rel], float)
        N = wt.sum()
        wt /= N
        tol = 1e-12

        def cdf(x):
            return sum(w * (min(max((x - t["low"]) / (t["high"] - t["low"]), 0), 1)
                            if t["high"] > t["low"] else float(x >= t["low"]))
                       for w, (t, _) in zip(wt, rel))
        for c, r in zip(plan["levels"], rows):
            need(same(float(r.soiling_rate_median), float(rows[0].soiling_rate_median)),
                 "stream_rate", f"month {m}: median depends on the confidence level")
            for p, v in (((50 - c / 2) / 100, r.soiling_rate_low), (0.5, r.soiling_rate_median),
                         ((50 + c / 2) / 100, r.soiling_rate_high)):
                e = regress.slack(p, N)
                a, b = cdf(v - tol - 1e-9 * abs(v)), cdf(v + tol + 1e-9 * abs(v))
                need(a - e <= p <= b + e, "distribution", lambda: f"month {m}: {v!r} has rank "
                     f"{a:.4f} among the day-weighted interval rates, expected {p:.4f} +- {e:.4f}")
                run.checks += 1
    run.sim_seconds += sum(t["len"] for t in plan["table"]) * 86400.0
    run.nontrivial = len(use) > 1
    run.log("monthly", len(use))


def execute(plan, run):
    rd = env.ensure()
    run.probe("mode_" + plan["mode"])
    {"yoy": yoy, "ols": regression, "classical": regression, "circular": circular, "srr": srr,
     "monthly": monthly}[plan["mode"]](plan, run, rd)

