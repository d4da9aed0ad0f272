"""C20: CODS combines exactly its usable fits, whatever fits fail."""
import itertools
import math

import numpy as np
import pandas as pd

from .. import env, session
from ..util import arr_close, catch, close, fl, need

PROPERTY = "C20"
LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 15000}
SHRINK = [("bad_fits",), ("bad_reals",), ("gaps",)]
RULE = ("one run = one CODS analysis (run_bootstrap or soiling_cods) of a simulated daily record "
        "with outages, in which each of the 16 initial fits and each bootstrap realisation either "
        "succeeds with a scripted result, raises, or is reported as non-stationary / without "
        "soiling signal; all reported numbers are compared with an independent combination of "
        "the usable fits; one run in eight instead makes one real decomposition of a plant with "
        "soiling, season, degradation and outages and checks the reported components against "
        "each other; non-trivial = some fit or realisation failed, or the record has an outage")
REAL = ["rdtools.soiling.CODSAnalysis.run_bootstrap, soiling_cods, circular-block bootstrap, "
        "seasonal samples", "iterative_signal_decomposition and its Kalman filter (1 run in 8)"]
STUB = ["single fits in the other runs (scripted results, injected failures)"]
ASSUMPTIONS = ["a fit fails by raising ValueError (LinAlgError included), as the library's own "
               "refusals do", "no two initial fits are equally good"]
COLS = ["soiling_ratio", "soiling_rates", "cleaning_events", "seasonal_component",
        "degradation_trend", "total_model", "residuals"]


def generate(rng, tier):
    n = rng.choice([745, 760, 800, 900, 1100])
    if rng.random() < 0.12:
        return {"mode": "fit", "n": n, "start": rng.choice(["2019-01-01", "2020-06-15",
                                                            "2021-03-01"]),
                "vseed": rng.randint(0, 10**9), "iters": rng.choice([3, 4, 6, 9, 18]),
                "order": rng.choice([["SR", "SC", "Rd"], ["SC", "SR", "Rd"], ["SR", "Rd"],
                                     ["SR", "SC"]]),
                "method": rng.choice(["YoY", "YoY", "STL"]), "amp": rng.choice([1, 1, 0.3, 0.05]),
                "noise": rng.choice([0.003, 0.01, 0.02]), "rate": rng.choice([0, -1, -2.5, 0.8]),
                "season": rng.choice([0, 0.02, 0.06]), "ffill": rng.random() < 0.5,
                "renorm": rng.choice([None, None, 0.8]), "lead": rng.choice([0, 0, 5]),
                "gaps": gaps(rng, n), "bad_fits": [], "bad_reals": []}
    alt = rng.random() < 0.3
    reps = rng.choice([1, 7, 16, 16, 20, 32, 32, 48])
    total = -(-reps // 16) * 16
    k = rng.choice([0, 0, 1, 2, 3, 5, 7, 8, 9, 12, 16])
    style = rng.choice(["value", "nonstat", "mixed", "mixed"])
    bad = []
    for i in sorted(rng.sample(range(16), k)):
        bad.append([i, {"value": rng.choice(["value_error", "linalg"]),
                        "nonstat": "nonstationary",
                        "mixed": rng.choice(["value_error", "linalg", "nonstationary",
                                             "nonstationary"])}[style]])
    m = rng.choice([0, 0, 1, 2, 4, total // 3, total - 1, total])
    reals = [[i, rng.choice(["value_error", "linalg", "nonstationary"])]
             for i in sorted(rng.sample(range(total), min(m, total)))]
    return {"mode": "combine", "n": n, "start": rng.choice(["2019-01-01", "2020-06-15"]),
            "reps": reps, "conf": rng.choice([68.2, 68.2, 95, 50, 10]),
            "method": rng.choice(["YoY", "YoY", "STL"]), "pn": rng.choice([1e-4, 5e-4]),
            "alt": alt, "api": rng.choice(["class", "class", "function"]),
            "vseed": rng.randint(0, 10**9), "shape": rng.choice(["exact", "flat", "free"]),
            "small": rng.choice([0, 0, 0, 3, 8, 9, 14]), "bad_fits": bad, "bad_reals": reals,
            "kw": rng.random() < 0.4, "verbose": rng.random() < 0.2, "lead": rng.choice([0, 0, 4]),
            "gaps": gaps(rng, n) if rng.random() < 0.5 else []}


def gaps(rng, n):
    return [[rng.randrange(30, n - 60), rng.choice([1, 3, 10, 30])]
            for _ in range(rng.choice([0, 1, 2, 4]))]


def simplify(plan):
    if plan["mode"] == "combine":
        for k, v in (("alt", False), ("kw", False), ("verbose", False), ("lead", 0)):
            if plan[k]:
                yield dict(plan, **{k: v})
        if plan["n"] > 745:
            yield dict(plan, n=745, gaps=[g for g in plan["gaps"] if g[0] < 670])


def record(plan, run):
    n = plan["n"]
    idx = pd.date_range(plan["start"], periods=n, freq="D", tz="Etc/GMT+7")
    rs = np.random.RandomState(plan["vseed"] % 2**32)
    d = np.arange(n)
    sr = np.ones(n)
    level, rate, left = 1.0, 0.002, 0
    for i in range(n):
        if left == 0:
            level, rate, left = 1.0, rs.choice([0.001, 0.002, 0.004]), rs.randint(20, 60)
        sr[i] = 1 - (1 - level) * plan.get("amp", 1)
        level -= rate
        left -= 1
    season = 1 + plan.get("season", 0.02) * np.cos(2 * np.pi * idx.dayofyear.to_numpy() / 365)
    trend = 1 + d * plan.get("rate", -0.7) / 100 / 365
    pm = sr * season * trend * (1 + plan.get("noise", 0.01) * rs.normal(size=n))
    for a, ln in plan["gaps"]:
        pm[a: a + ln] = np.nan
        run.fault("outage")
    pm[: plan["lead"]] = np.nan
    return pd.Series(pm, index=idx, name="pm"), sr


def execute(plan, run):
    rd = env.ensure()
    run.sim_seconds += plan["n"] * 86400
    pm, sr = record(plan, run)
    if plan["mode"] == "fit":
        real_fit(rd, plan, run, pm)
    else:
        combine(rd, plan, run, pm)
    run.interleaving = run.digest()


# ------------------------------------------------------------------ one real decomposition

def real_fit(rd, plan, run, pm):
    import sys
    so = sys.modules["rdtools.soiling"]
    order = tuple(plan["order"])
    yoy_out = plan["method"] == "STL" or "Rd" in order
    np.random.seed(plan["vseed"] % 2**32)
    with session.quiet(), catch():
        df, res = so.CODSAnalysis(pm).iterative_signal_decomposition(
            order=order, degradation_method=plan["method"], max_iterations=plan["iters"],
            ffill=plan["ffill"], renormalize_SR=plan["renorm"])
    pi = pm.iloc[plan["lead"]:]
    need(list(df.index) == list(pi.index), "index", "the decomposition is not on the record's days")
    need(sorted(df.columns) == sorted(COLS), "columns", f"{list(df.columns)}")
    v = pi.to_numpy(float)
    col = {c: df[c].to_numpy(float) for c in COLS}
    S, C, T = col["soiling_ratio"], col["seasonal_component"], col["degradation_trend"]
    prod = S * C * T
    leap = (df.index.dayofyear == 366)
    need(not np.isnan(prod[~leap]).any(), "components", "a component is missing on some day")
    ok = ~np.isnan(prod)
    need(arr_close(col["residuals"][ok], (v / prod)[ok], 1e-9, 1e-12), "residuals",
         "residuals are not record / (SR x SC x Rd)")
    shift = np.nanmean(v / prod)
    need(close(float(res["residual_shift"]), float(shift), 1e-9), "shift",
         f"residual shift {res['residual_shift']!r}, mean residual {shift!r}")
    need(arr_close(col["total_model"][ok], prod[ok] * shift, 1e-9, 1e-12), "total_model",
         "total model is not SR x SC x Rd x residual shift")
    rm = math.sqrt(np.nanmean((prod * shift - v) ** 2))
    need(close(float(res["RMSE"]), rm, 1e-9), "rmse", f"{res['RMSE']!r} vs {rm!r}")
    need(np.nanmax(S) <= 1 + 1e-12, "bounds", f"soiling ratio up to {np.nanmax(S)!r}")
    loss = 100 * (1 - S).mean()
    need(close(float(res["soiling_loss"]), loss, 1e-9, 1e-12), "loss",
         f"soiling loss {res['soiling_loss']!r} %, the ratio gives {loss!r} %")
    if "SC" in order:
        doy = df.index.dayofyear.to_numpy()
        per = pd.Series(C[~leap]).groupby(doy[~leap]).agg(lambda x: x.max() - x.min()).max()
        need(per < 1e-12, "periodic", f"seasonal component differs by {per!r} between years")
    if plan["method"] != "STL" and "Rd" in order:
        want = 1 + np.arange(len(v)) * float(res["degradation"]) / 100 / 365
        need(arr_close(T, want, 1e-9), "trend", "degradation trend does not have the reported rate")
    ev = df["cleaning_events"].to_numpy()
    need(set(np.unique(ev.astype(float))) <= {0.0, 1.0}, "events", "cleaning events not boolean")
    flat = np.r_[False, np.diff(S) == 0]
    need((col["soiling_rates"][flat] == 0).all(), "rates", "a rate where the ratio is constant")
    sa = np.diff(pd.Series(S).quantile([.1, .9]))[0]
    ra = np.diff(pd.Series((v / prod)[ok]).quantile([.1, .9]))[0]
    if abs(sa / ra - 0.75) > 1e-9:
        need(bool(res["small_soiling_signal"]) == (sa / ra < 0.75), "small", "signal strength flag "
             f"{res['small_soiling_signal']}, SR spread {sa!r}, residual spread {ra!r}")
    run.checks += 12
    run.probe("real_fit")
    run.probe("small_signal" if res["small_soiling_signal"] else "soiling_signal")
    run.nontrivial = bool(plan["gaps"]) or plan["lead"] > 0
    run.log("fit", plan["order"], plan["method"], fl(res["RMSE"]), fl(loss),
            fl(np.ravel(res["degradation"])[0]) if yoy_out else "-")


# ------------------------------------------------------------------ combination of fits

def combos(plan):
    o = [("SR", "SC", "Rd"), ("SC", "SR", "Rd")]
    if plan["alt"]:
        return [o, (0.3, 0.9), (0.5, 1.2), (True, False)]
    return [o, (.25, .75), (1 / 1.5, 1.5), (True, False)]


def combine(rd, plan, run, pm):
    import sys
    so = sys.modules["rdtools.soiling"]
    pi = pm.iloc[plan["lead"]:]
    n = len(pi)
    v = pi.to_numpy(float)
    alts = combos(plan)
    keys = list(itertools.product(*alts))
    bad = {i: k for i, k in plan["bad_fits"]}
    badr = {i: k for i, k in plan["bad_reals"]}
    rs = np.random.RandomState((plan["vseed"] + 1) % 2**32)
    rmse = rs.permutation(np.linspace(0.004, 0.02, 16)) * rs.uniform(0.9, 1.1)
    small = set(rs.permutation(16)[: plan["small"]].tolist())
    doy = pi.index.dayofyear.to_numpy()
    day = np.arange(n)
    S = {"main": None, "init": {}, "real": [], "pms": [], "calls": 0}
    kwx = {"soiling_significance": 0.61} if plan["kw"] else {}

    def scripted(tag, base, q):
        r = np.random.RandomState((plan["vseed"] + tag) % 2**32)
        saw = 1 - (day + r.randint(0, 40)) % 45 * r.uniform(0.0005, 0.003)
        saw = np.where(r.rand(n) < q, 1.0, saw)
        if r.rand() < 0.3:
            saw = saw + 0.02                      # above one: must be clipped in the report
        if r.rand() < 0.5:
            saw[10:40] = saw[10]                  # a flat stretch
        season = np.ones(n) if plan["shape"] == "flat" else \
            1 + r.uniform(0.01, 0.05) * np.cos(2 * np.pi * (doy + r.randint(0, 60)) / 365)
        deg = r.uniform(-2, 0.5)
        trend = 1 + day * deg / 100 / 365
        prod = saw * season * trend
        b = base.to_numpy(float)
        shift = np.nanmean(b / prod)
        total = b.copy() if plan["shape"] == "exact" and tag < 100 else prod * shift
        if plan["shape"] == "exact" and tag < 100:
            total = np.where(np.isnan(total), 1.0, total)
        df = pd.DataFrame({"soiling_ratio": saw, "soiling_rates": np.r_[0, np.diff(saw)] - 1e-5,
                           "cleaning_events": r.rand(n) < 0.02, "seasonal_component": season,
                           "degradation_trend": trend, "total_model": total,
                           "residuals": b / prod}, index=base.index)
        return df, dict(degradation=deg, soiling_loss=100 * (1 - saw).mean(),
                        residual_shift=shift, small_soiling_signal=False)

    def stub(self, order=("SR", "SC", "Rd"), degradation_method="YoY", max_iterations=18,
             cleaning_sensitivity=.5, convergence_criterion=5e-3, pruning_iterations=1,
             clean_pruning_sensitivity=.6, soiling_significance=.75, process_noise=1e-4,
             renormalize_SR=None, ffill=True, clip_soiling=True, verbose=False):
        if S["main"] is None:
            S["main"] = self
        need(degradation_method == plan["method"], "settings", "degradation method not passed on")
        need(soiling_significance == kwx.get("soiling_significance", .75), "settings",
             "extra settings are not passed on to the fits")
        need(clip_soiling, "settings", "fit without clipping")
        if self is S["main"]:
            key = (tuple(order), cleaning_sensitivity, clean_pruning_sensitivity, ffill)
            need(key in keys, "initial_fits", f"initial fit with settings {key}")
            i = keys.index(key)
            need(i not in S["init"], "initial_fits", f"settings {key} fitted twice")
            need(process_noise == plan["pn"], "settings", "process noise not passed on")
            kind = bad.get(i)
            S["init"][i] = None
            if kind in ("value_error", "linalg"):
                run.fault("initial_" + kind)
                raise session.make_exc(kind)
            df, res = scripted(i, pi, [0, 0.3][i % 2])
            res["RMSE"] = float(rmse[i])
            res["adf_res"] = (-3.0 - i, 0.3, 1) if kind else (-8.0 - i, 1e-4, 1)
            if kind:
                run.fault("initial_nonstationary")
            res["small_soiling_signal"] = i in small
            S["init"][i] = (df.copy(), dict(res))
            return df, res
        b = len(S["real"])
        a1, a2 = alts[1], alts[2]
        need(min(a1) <= cleaning_sensitivity <= max(a1) and
             min(a2) <= clean_pruning_sensitivity <= max(a2) and
             plan["pn"] / 1.5 <= process_noise <= plan["pn"] * 1.5 and
             (renormalize_SR is None or .5 <= renormalize_SR <= .95), "settings",
             "a realisation uses settings outside the permitted range")
        need(tuple(order) == ("SR", "SC" if plan["method"] == "STL" else "Rd"), "settings",
             f"realisation order {order}")
        need(self.pm.index[-1] == pi.index[-1] and len(self.pm) <= n, "sample", "wrong days")
        S["pms"].append(self.pm.reindex(pi.index))
        kind = badr.get(b)
        S["real"].append(None)
        if kind in ("value_error", "linalg"):
            run.fault("realisation_" + kind)
            raise session.make_exc(kind)
        df, res = scripted(100 + b, pi, [0, 0.2, 0.5][b % 3])
        res["RMSE"] = float(0.005 + 0.001 * (b % 7))
        res["adf_res"] = (-2.0, 0.06, 1) if kind else (-7.0 - b, 0.049, 1)
        if kind:
            run.fault("realisation_nonstationary")
        S["real"][b] = None if kind else (df.copy(), dict(res))
        return df, res

    real = so.CODSAnalysis.iterative_signal_decomposition
    so.CODSAnalysis.iterative_signal_decomposition = stub
    err = out = None
    kw = dict(reps=plan["reps"], confidence_level=plan["conf"], process_noise=plan["pn"],
              degradation_method=plan["method"], verbose=plan["verbose"],
              bootstrap_seed=plan["vseed"] % 2**31, **kwx)
    if plan["alt"]:
        kw.update(cleaning_sensitivity_alternatives=alts[1],
                  clean_pruning_sensitivity_alternatives=alts[2])
    np.random.seed(plan["vseed"] % 2**32)
    try:
        with session.quiet(), catch() as warned:
            if plan["api"] == "class":
                main = so.CODSAnalysis(pm)
                S["main"] = main
                out = main.run_bootstrap(**kw)
            else:
                out = rd.soiling.soiling_cods(pm, **kw)
    except (ValueError, RuntimeError, KeyError, IndexError, TypeError, AttributeError) as e:
        err = e
    finally:
        so.CODSAnalysis.iterative_signal_decomposition = real
    judge(plan, run, so, pi, v, S, keys, bad, small, out, err, warned, rmse)


def judge(plan, run, so, pi, v, S, keys, bad, small, out, err, warned, rmse):
    n = len(pi)
    day = np.arange(n)
    need(sorted(S["init"]) == list(range(16)), "initial_fits",
         lambda: f"only {len(S['init'])} of the 16 alternatives were fitted")
    made = {i: f for i, f in S["init"].items() if f}
    good = [i for i in sorted(made) if i not in bad]
    nonstat = len(made) - len(good)
    nsmall = sum(i in small for i in made)
    run.nontrivial = bool(run.faults)
    run.log("initial", len(made), "usable", len(good), "small", nsmall, "err",
            type(err).__name__ if err else "-", "realisations", len(S["real"]))
    run.checks += 1
    if nonstat > 8:
        need(isinstance(err, RuntimeError), "accepted", f"residuals of {nonstat} of 16 initial "
             f"fits are not stationary, and the analysis answered ({err!r})")
        run.probe("refused_nonstationary")
        return
    if not made:
        need(err is not None, "accepted", "an answer although every initial fit failed")
        run.probe("refused_nothing")
        return
    w = {i: 1 / r["RMSE"] / (1 + (d["soiling_ratio"] == 1).mean()) for i, (d, r) in made.items()}
    best = max(w, key=w.get)
    bdf, bres = made[best]
    if nsmall > 8:
        need(err is None, "raised", lambda: f"small soiling signal: {err!r}")
        need(not S["real"], "small", "realisations were fitted although there is no signal")
        need(any("Soiling signal is small" in str(x.message) for x in warned), "small", "no warning")
        loss = 100 * (1 - bdf["soiling_ratio"]).mean()
        with catch():
            yoy = np.ravel(so.RdToolsDeg.degradation_year_on_year(pi, uncertainty_method=None))[0]
        check_report(plan, run, out, [yoy, None, None], [0, 0, loss], bdf, COLS, S["main"])
        run.probe("small_signal")
        return
    usable = [f for f in S["real"] if f]
    if not good or not usable:
        need(err is not None, "accepted", "an answer although no fit was usable")
        run.probe("refused_nothing")
        return
    need(err is None, "raised", lambda: f"{len(good)} of 16 initial fits and {len(usable)} of "
         f"{len(S['real'])} realisations were usable, but the analysis raised {err!r}")
    per = -(-plan["reps"] // 16)
    need(len(S["real"]) == per * len(good), "realisations", f"{len(S['real'])} realisations, "
         f"{per} for each of the {len(good)} usable initial fits expected")
    # what the realisations were made from
    nan = np.isnan(v)
    for b, pmb in enumerate(S["pms"]):
        d, r = made[good[b // per]]
        x = pmb.to_numpy(float)
        if plan["shape"] == "flat":
            blocks(x, v, d["total_model"].to_numpy(float), b)
            run.checks += 1
        elif plan["shape"] == "exact" and not nan.any():
            s = v / x
            a0 = d["seasonal_component"].to_numpy(float)
            g = np.ptp(s) / np.ptp(a0)
            need(0.79 <= g <= 1.78, "season", f"seasonal amplitude multiplied by {g!r}")
            run.checks += 1
    dfs = [d for d, _ in usable]
    W = np.array([1 / r["RMSE"] / (1 + (d["soiling_ratio"] == 1).mean()) for d, r in usable])
    W /= W.sum()
    lo, hi = (50 - plan["conf"] / 2) / 100, (50 + plan["conf"] / 2) / 100

    def mat(c):
        return np.array([d[c].to_numpy(float) for d in dfs])
    deg = [r["degradation"] for _, r in usable]
    sl = [r["soiling_loss"] for _, r in usable]
    want = pd.DataFrame(index=pi.index)
    SR, RT, TM = mat("soiling_ratio"), mat("soiling_rates"), mat("total_model")
    want["SR_low"], want["SR_high"] = np.quantile(SR, lo, axis=0), np.quantile(SR, hi, axis=0)
    want["rates_low"], want["rates_high"] = (np.quantile(RT, q, axis=0) for q in (lo, hi))
    want["model_low"], want["model_high"] = (np.quantile(TM, q, axis=0) for q in (lo, hi))
    want["bt_soiling_ratio"], want["bt_soiling_rates"] = W @ SR, W @ RT
    want["cleaning_events"] = W @ mat("cleaning_events")
    s0 = bdf["soiling_ratio"].to_numpy(float).clip(0, 1)
    want["soiling_ratio"] = s0
    rates = bdf["soiling_rates"].to_numpy(float).copy()
    rates[np.r_[False, np.diff(s0) == 0]] = 0
    want["soiling_rates"] = rates
    d0 = float(np.dot(W, deg))
    want["degradation_trend"] = 1 + day * d0 / 100 / 365
    rep = out[0] if plan["api"] == "class" else out[4]
    season = rep["seasonal_component"].to_numpy(float)
    if plan["shape"] == "flat":
        for c in ("seasonal_component", "seasonal_low", "seasonal_high"):
            want[c] = 1.0
    elif plan["shape"] == "exact" and not nan.any():
        Q = np.array([v / p.to_numpy(float) for p, f in zip(S["pms"], S["real"]) if f])
        want["seasonal_component"] = W @ Q
        want["seasonal_low"], want["seasonal_high"] = (np.quantile(Q, q, axis=0) for q in (lo, hi))
    prod = want["degradation_trend"].to_numpy() * season * s0
    shift = np.nanmean(v / prod)
    want["residuals"] = v / prod
    want["total_model"] = prod * shift
    cols = COLS + ["SR_low", "SR_high", "rates_low", "rates_high", "bt_soiling_ratio",
                   "bt_soiling_rates", "seasonal_low", "seasonal_high", "model_low", "model_high"]
    check_report(plan, run, out, [d0, np.quantile(deg, lo), np.quantile(deg, hi)],
                 [float(np.dot(W, sl)), np.quantile(sl, lo), np.quantile(sl, hi)], want, cols,
                 S["main"])
    need((rep["seasonal_low"] <= rep["seasonal_high"] + 1e-12).all(), "interval", "seasonal bounds")
    need(not np.isnan(season).any(), "season", "the reported seasonal component has holes")
    if plan["api"] == "class":
        m = S["main"]
        need(close(float(m.residual_shift), float(shift), 1e-8), "shift",
             f"residual shift {m.residual_shift!r}, mean residual {shift!r}")
        e = math.sqrt(np.nanmean((prod * shift - v) ** 2))
        need(close(float(m.RMSE), e, 1e-8), "rmse", f"RMSE {m.RMSE!r}, the model gives {e!r}")
        failed = sum(k != "nonstationary" for i, k in plan["bad_reals"] if i < len(S["real"]))
        need(len(m.errors) - 1 == failed, "errors", f"{len(m.errors) - 1} failed realisations "
             f"reported, {failed} failed")
    run.probe("answered")
    if len(good) < 16:
        run.probe("answered_with_failed_initial_fits")
    if len(usable) < len(S["real"]):
        run.probe("answered_with_failed_realisations")


def check_report(plan, run, out, deg, loss, want, cols, main):
    def same(a, b, what):
        need(b is None or close(float(a), float(b), 1e-8, 1e-10), what,
             lambda: f"{what}: reported {a!r}, the usable fits give {b!r}")
        run.checks += 1
    if plan["api"] == "class":
        rep, dg, sl = out
        for k in range(3):
            same(dg[k], deg[k], "degradation")
            same(sl[k], loss[k], "soiling_loss")
        need(main.result_df is rep or main.result_df.equals(rep), "published", "result_df differs")
    else:
        sr, ci, d, dci, rep = out
        same(sr, 1 - loss[0] / 100, "soiling_ratio_estimate")
        same(d, deg[0], "degradation")
        for k in range(2):
            same(ci[k], 1 - loss[k + 1] / 100, "soiling_ratio_interval")
            same(dci[k], deg[k + 1], "degradation")
    need(sorted(rep.columns) == sorted(cols), "columns", lambda: f"{sorted(rep.columns)}")
    need(list(rep.index) == list(want.index), "index", "result is not on the record's days")
    for c in want.columns:
        a, b = rep[c].to_numpy(float), want[c].to_numpy(float)
        if not arr_close(a, b, 1e-8, 1e-10):
            k = int(np.argmax(~((np.isnan(a) & np.isnan(b)) |
                               (np.abs(a - b) <= 1e-10 + 1e-8 * np.abs(b)))))
            need(False, "column:" + c, f"{c} on {rep.index[k].date()} is {a[k]!r}, the usable "
                 f"fits give {b[k]!r}")
        run.checks += 1
    run.log("deg", fl(deg[0]), "loss", fl(loss[0]), fl(loss[2]))


def blocks(x, v, model, b):
    """x / model must be circular blocks of 90 consecutive residuals v / model."""
    res = v / model
    n = len(res)
    got = x / model
    lookup = {}
    for i, r in enumerate(res):
        if not np.isnan(r):
            lookup.setdefault(round(float(r), 9), i)
    for a in range(0, n, 90):
        part = got[a: a + 90]
        starts = {(lookup[round(float(r), 9)] - k) % n for k, r in enumerate(part)
                  if not np.isnan(r) and round(float(r), 9) in lookup}
        ok = any(arr_close(part, res[(s + np.arange(len(part))) % n], 1e-9, 1e-9) for s in starts)
        need(ok or (not starts and np.isnan(part).all()), "blocks", f"realisation {b}: days {a} to "
             f"{a + len(part)} are not a block of consecutive residuals of the fit it stems from")
