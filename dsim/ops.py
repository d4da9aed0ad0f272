"""Catalogue of public rdtools calls used by the session properties.

Each operation takes (rd, I, p): the package, the caller-owned inputs, and a small parameter
number, and returns a result.  `random` operations draw from numpy's generator; `cost` is a
rough duration in milliseconds, used when choosing.
"""
import sys

import numpy as np
import pandas as pd

from . import files

OPS = {}


class Op:
    def __init__(self, fn, name, random, cost, group, uses):
        self.fn, self.name, self.random, self.cost = fn, name, random, cost
        self.group, self.uses = group, uses


def op(uses, random=False, cost=5, group="fn"):
    def deco(fn):
        OPS[fn.__name__] = Op(fn, fn.__name__, random, cost, group, uses.split())
        return fn
    return deco


def mod(rd, name):
    return sys.modules["rdtools." + name]


def _pick(p, *alts):
    return alts[p % len(alts)]


def mid(I, label, obj):
    """An intermediate result the caller keeps while passing it on (checked by C01)."""
    if "_mid" in I:
        I["_mid"](label, obj)
    return obj


# ---------------------------------------------------------------- normalization
@op("power")
def energy(rd, I, p):
    kw = _pick(p, {}, {"power_type": "instantaneous"}, {"max_timedelta": pd.Timedelta("2D")},
               {"target_frequency": "D"}, {"target_frequency": "1h"}, {"target_frequency": "MS"},
               {"target_frequency": pd.offsets.Hour(12), "max_timedelta": pd.Timedelta("9h")})
    return rd.energy_from_power(I["power"], **kw)


@op("poa target two")
def interp(rd, I, p):
    return _pick(p, lambda: rd.interpolate(I["poa"], I["target"]),
                 lambda: rd.interpolate(I["two"], "2h", pd.Timedelta("7h")),
                 lambda: rd.interpolate(I["poa"], "90min", warning_threshold=0.0),
                 lambda: rd.interpolate(I["two"], I["target"]),
                 lambda: rd.interpolate(I["poa"], I["poa"].index, pd.Timedelta("1h")))()


@op("power pvw")
def pvwatts(rd, I, p):
    e = rd.energy_from_power(I["power"]) if p % 2 else I["power"]
    return rd.normalize_with_pvwatts(e, I["pvw"])


@op("power expected poa")
def expected_power(rd, I, p):
    return rd.normalize_with_expected_power(
        I["power"], I["expected"], I["poa"], **_pick(p, {}, {"pv_input": "energy"}))


@op("poa poa_cs")
def rescale(rd, I, p):
    return rd.irradiance_rescale(I["poa"], I["poa_cs"], **_pick(
        p, {}, {"method": "single_opt"}, {"convergence_threshold": 1e-4, "max_iterations": 50},
        {"max_iterations": 1, "convergence_threshold": 1e-12}))


@op("power insol poa")
def aggregate(rd, I, p):
    return rd.aggregation_insol(I["power"], I["poa"], _pick(p, "D", "W", "MS"))


# ---------------------------------------------------------------- filters
@op("power poa tcell daily insol")
def simple_filters(rd, I, p):
    d, i = I["daily"], I["insol"]
    return _pick(
        p, lambda: rd.poa_filter(I["poa"]), lambda: rd.tcell_filter(I["tcell"]),
        lambda: rd.normalized_filter(d), lambda: rd.insolation_filter(i),
        lambda: rd.hampel_filter(d), lambda: rd.directional_tukey_filter(d),
        lambda: rd.two_way_window_filter(d), lambda: rd.quantile_clip_filter(I["power"]),
        lambda: rd.poa_filter(I["poa"], 100, 900), lambda: rd.tcell_filter(I["tcell"], 0, 40),
        lambda: rd.normalized_filter(d, None, 0.98), lambda: rd.normalized_filter(d, 0.9, None),
        lambda: rd.insolation_filter(i, 0.5), lambda: rd.hampel_filter(d, k=9, t0=1),
        lambda: rd.hampel_filter(d, k="30d", t0=2),
        lambda: rd.directional_tukey_filter(d, roll_period=9, k=1.0),
        lambda: rd.two_way_window_filter(d, roll_period=9, outlier_threshold=0.005),
        lambda: rd.quantile_clip_filter(I["power"], 0.9))()


@op("power", cost=30)
def hour_angle(rd, I, p):
    s = I["power"]
    if s.index.tz is None:
        s = s.tz_localize("UTC")
    return rd.hour_angle_filter(s.iloc[:400], 39.7, -105.2)


@op("poa poa_cs")
def csi(rd, I, p):
    return _pick(p, lambda: rd.csi_filter(I["poa"], I["poa_cs"]),
                 lambda: rd.clearsky_filter(I["poa"], I["poa_cs"], model="csi", threshold=0.2))()


@op("power", cost=60)
def logic_clip(rd, I, p):
    return rd.clip_filter(I["power"], **_pick(p, {}, {"mounting_type": "single_axis_tracking"},
                                             {"rolling_range_max_cutoff": 0.4}))


@op("power", cost=90)
def xgb_clip(rd, I, p):
    s = I["power"].iloc[:600]
    return rd.clip_filter(s, model="xgboost", **_pick(p, {}, {"mounting_type":
                                                             "single_axis_tracking"}))


@op("poa power")
def robust(rd, I, p):
    return [rd.robust_quantile(I["power"], 0.95), rd.robust_median(I["poa"]),
            rd.robust_mean(I["poa"])]


# ---------------------------------------------------------------- degradation
@op("daily", random=True, cost=60)
def yoy(rd, I, p):
    return rd.degradation_year_on_year(I["daily"], **_pick(
        p, {}, {"recenter": False}, {"confidence_level": 95, "exceedance_prob": 80}))


@op("daily")
def yoy_point(rd, I, p):
    return rd.degradation_year_on_year(I["daily"], uncertainty_method=None)


@op("daily", random=True)
def ols(rd, I, p):
    return rd.degradation_ols(I["daily"], **_pick(p, {}, {"confidence_level": 95}))


@op("daily", random=True, cost=40)
def classical(rd, I, p):
    m = I["daily"].resample("MS").mean()
    return rd.degradation_classical_decomposition(m, **_pick(p, {}, {"confidence_level": 90}))


@op("daily", random=True, cost=40)
def classical_direct(rd, I, p):
    s = I["daily"]
    return rd.degradation_classical_decomposition(s)


# ---------------------------------------------------------------- soiling
@op("daily insol rain", random=True, cost=150)
def srr(rd, I, p):
    so = mod(rd, "soiling")
    kw = _pick(p, {}, {"method": "random_clean"}, {"method": "perfect_clean"},
               {"clean_criterion": "shift"},
               {"precipitation_daily": I["rain"], "clean_criterion": "precip_or_shift"},
               {"trim": True, "confidence_level": 90, "exceedance_prob": 80},
               {"recenter": False, "day_scale": 7},
               {"precipitation_daily": I["rain"], "clean_criterion": "precip_and_shift",
                "precip_threshold": 2.0}, {"day_scale": 6, "clean_threshold": 0.01},
               {"max_relative_slope_error": 5.0, "method": "random_clean"},
               {"min_interval_length": 400}, {"max_negative_step": 0.001},
               {"precipitation_daily": I["rain"], "clean_criterion": "nonsense"},
               {"method": "nonsense"})
    return so.soiling_srr(I["daily"], I["insol"], reps=10, **kw)


@op("daily insol", random=True, cost=200)
def srr_tables(rd, I, p):
    so = mod(rd, "soiling")
    _, _, info = so.soiling_srr(I["daily"], I["insol"], reps=10)
    prof = mid(I, "stochastic profiles", info["stochastic_soiling_profiles"])
    summ = mid(I, "interval summary", info["soiling_interval_summary"])
    ins = I["insol"] if p % 5 else I["insol"].iloc[9:]
    out = [so.annual_soiling_ratios(prof, ins, **_pick(p, {}, {"confidence_level": 90}))]
    out.append(so.monthly_soiling_rates(summ, reps=30, **_pick(
        p, {}, {"min_interval_length": 5, "max_relative_slope_error": 1000.0},
        {"confidence_level": 95})))
    return out


@op("long", cost=400)
def cods_point(rd, I, p):
    so = mod(rd, "soiling")
    c = so.CODSAnalysis(I["long"])
    kw = _pick(p, {}, {"order": ("SC", "SR", "Rd")}, {"ffill": False})
    r = c.iterative_signal_decomposition(max_iterations=4, **kw)
    return [r[0], r[1]]


@op("long", random=True, cost=20000)
def cods_boot(rd, I, p):
    so = mod(rd, "soiling")
    r = so.soiling_cods(I["long"], reps=16, bootstrap_seed=p)
    return list(r)


# ---------------------------------------------------------------- availability
@op("system system_odd sub cum aexp sizes sizes_s plimit low quantiles", cost=60)
def availability(rd, I, p):
    a = rd.AvailabilityAnalysis(I["system_odd"] if p % 11 == 10 else I["system"], I["sub"],
                                I["cum"], I["aexp"])
    kw = _pick(p, {}, {"relative_sizes": I["sizes"]}, {"power_system_limit": 250.0},
               {"quantiles": I["quantiles"], "rollup_period": "W"}, {"low_threshold": 1.0},
               {"relative_sizes": I["sizes_s"]}, {"power_system_limit": I["plimit"]},
               {"low_threshold": I["low"]})
    a.run(**kw)
    return [a.results, a.outage_info, a.loss_total, a.energy_cumulative_corrected]


# ---------------------------------------------------------------- chains
def make_trend(rd, I, p):
    k = p % 6
    kw = {"temperature_cell": I["tcell"], "gamma_pdc": -0.004}
    if k == 1:
        kw = {"temperature_ambient": I["tamb"], "gamma_pdc": -0.004, "windspeed": I["wind"],
              "temperature_model": I["tmodel"]}
    elif k == 2:
        kw = {"power_expected": I["expected"]}
    elif k == 3:
        kw["power_dc_rated"] = 5000.0
    elif k == 4:
        kw["interp_freq"] = "4h"
        kw["max_timedelta"] = pd.Timedelta("9h")
    elif k == 5:
        kw["temperature_ambient"] = I["tamb"]
        kw["pv_input"] = "energy"
    t = rd.TrendAnalysis(I["power"], I["poa"], **kw)
    if k == 5:
        del t.filter_params["clip_filter"]
    return t


def set_clear(t, I, p):
    kw = {"poa_global_clearsky": I["poa_cs"]}
    if p % 2:
        kw["temperature_cell_clearsky"] = I["tcell_cs"]
    else:
        kw["temperature_ambient_clearsky"] = I["tamb_cs"]
    t.set_clearsky(**kw)
    t.filter_params["clearsky_filter"] = {"model": "csi"}


@op("power poa tcell tamb wind expected tmodel mask mask_nan amask amask_nan yoy_kwargs "
    "srr_kwargs", random=True, cost=400, group="chain")
def sensor(rd, I, p):
    t = make_trend(rd, I, p)
    q = p // 6
    if q % 4 == 1:
        t.filter_params["ad_hoc_filter"] = I["mask"]
    elif q % 4 == 2:
        t.filter_params["ad_hoc_filter"] = I["mask_nan"]
        t.filter_params_aggregated["ad_hoc_filter"] = I["amask_nan"]
    elif q % 4 == 3:
        t.filter_params_aggregated = {"hampel_filter": {}, "insolation_filter": {},
                                      "directional_tukey_filter": {}, "ad_hoc_filter": I["amask"]}
    q //= 4
    if q % 3 == 0:
        t.sensor_analysis()
    elif q % 3 == 1:
        t.sensor_analysis(analyses=["yoy_degradation", "srr_soiling"], yoy_kwargs=I["yoy_kwargs"],
                          srr_kwargs=I["srr_kwargs"])
    else:
        t.sensor_analysis(analyses=["srr_soiling"], srr_kwargs=I["srr_kwargs"])
    return [t.results, t.sensor_aggregated_performance, t.sensor_filter]


@op("power poa tcell tamb poa_cs tamb_cs tcell_cs wind tmodel expected yoy_kwargs mask amask_nan",
    random=True, cost=400, group="chain")
def clearsky(rd, I, p):
    t = make_trend(rd, I, p)
    set_clear(t, I, p // 6)
    q = p // 12
    if q % 3 == 1:
        t.filter_params["ad_hoc_filter"] = I["mask"]
        t.filter_params_aggregated["ad_hoc_filter"] = I["amask_nan"]
    if "tcell_filter" in t.filter_params and q % 3 == 2:
        t.filter_params["tcell_filter"] = {"temperature_cell_high": 90}
    t.clearsky_analysis(yoy_kwargs=I["yoy_kwargs"] if q % 2 else {})
    return [t.results, t.clearsky_aggregated_performance, t.clearsky_filter]


@op("power poa tcell rain", cost=350, group="chain")
def modelled(rd, I, p):
    """Clear-sky workflow with everything modelled from the location, on two weeks."""
    import pvlib
    files.table_in_memory()
    power, poa = I["power"].iloc[:90], I["poa"].iloc[:90]
    if power.index.tz is None:
        power, poa = power.tz_localize("UTC"), poa.tz_localize("UTC")
    t = rd.TrendAnalysis(power, poa, gamma_pdc=-0.004, windspeed=2.0, power_dc_rated=5000.0)
    loc = pvlib.location.Location([39.7, -33.9][p % 2], [-105.2, 151.2][p % 2], altitude=0)
    t.set_clearsky(pvlib_location=loc, pv_tilt=20, pv_azimuth=180)
    t.filter_params["clearsky_filter"] = {"model": "csi"}
    if p % 3 == 0:
        t.filter_params["hour_angle_filter"] = {}
    t.clearsky_analysis(analyses=[])
    return [t.poa_global_clearsky, t.clearsky_filter, t.clearsky_aggregated_performance]


@op("target odd", cost=60)
def tamb(rd, I, p):
    files.table_in_memory()
    times = _pick(p, I["target"], I["odd"]["unsorted"].index, I["odd"]["gappy"].index)
    if times.tz is None:
        times = times.tz_localize("UTC")
    lat, lon = _pick(p // 3, (39.7, -105.2), (-89.9, 10.0), (0.0, 179.9), (0.0, -150.0))
    return rd.get_clearsky_tamb(times, lat, lon, **_pick(p // 12, {}, {"window_size": 20,
                                                                      "gauss_std": 10}))


@op("fine fine_cs", cost=60)
def pvlib_clear(rd, I, p):
    f = _pick(p, rd.clearsky_filter, rd.pvlib_clearsky_filter)
    return f(I["fine"], I["fine_cs"], **_pick(
        p // 2, {}, {"window_length": 60, "mean_diff": 75.0}, {"infer_limits": False}))


@op("daily", random=True, cost=90, group="os_random")
def yoy_block(rd, I, p):
    return rd.degradation_year_on_year(
        I["daily"].interpolate(), uncertainty_method="circular_block",
        **_pick(p, {"block_length": 400}, {"block_length": 5}, {"block_length": 400},
                {"confidence_level": 95}))


@op("odd insol", random=True, cost=120)
def odd(rd, I, p):
    """Records no careful caller would pass: whatever happens, nothing may be left behind."""
    names = sorted(I["odd"])
    s = I["odd"][names[p % len(names)]]
    f = p // len(names)
    so = mod(rd, "soiling")
    ins = I["insol"].reindex(s.index[~s.index.duplicated()]) if len(s) else I["insol"]
    return _pick(
        f, lambda: rd.degradation_year_on_year(s), lambda: rd.degradation_ols(s),
        lambda: rd.degradation_classical_decomposition(s),
        lambda: rd.interpolate(s, "36h", pd.Timedelta("50h")), lambda: rd.energy_from_power(s),
        lambda: so.soiling_srr(s, ins, reps=5), lambda: rd.hampel_filter(s),
        lambda: rd.directional_tukey_filter(s), lambda: rd.two_way_window_filter(s),
        lambda: rd.aggregation_insol(s, s, "W"), lambda: rd.robust_median(s),
        lambda: rd.irradiance_rescale(s, s), lambda: rd.clip_filter(s),
        lambda: rd.normalized_filter(s),
        lambda: rd.normalize_with_expected_power(s, s, s))()


@op("long", random=True, cost=350, group="patched")
def cods_combine(rd, I, p):
    """The combined analysis with quick stand-ins for its single fits."""
    so = mod(rd, "soiling")
    q = p // 2                      # p and p ^ 1 differ in verbosity only

    def fit(self, order=("SR", "SC", "Rd"), cleaning_sensitivity=.5, ffill=True,
            process_noise=1e-4, verbose=False, **kw):
        pm = self.pm
        x = np.arange(len(pm))
        h = abs(float(np.nansum(pm.to_numpy() * (1 + x % 7)))) * (1 + cleaning_sensitivity)
        h = h * 1e3 + process_noise * 1e7 + len(order) + bool(ffill)
        if q % 5 == 4 and int(h) % 5 == 0:
            raise ValueError("no fit")
        saw = np.clip(1.01 - 0.002 * ((x + int(h)) % 60), None, 1)
        trend = 1 - 0.01 * x / 365 * (1 + (h % 1))
        season = 1 + 0.03 * np.cos(2 * np.pi * x / 365)
        prod = saw * trend * season
        shift = float(np.nanmean(pm / prod))
        df = pd.DataFrame({"soiling_ratio": saw, "soiling_rates": np.gradient(saw),
                           "cleaning_events": np.r_[False, np.diff(saw) > 0],
                           "seasonal_component": season, "degradation_trend": trend,
                           "total_model": prod * shift, "residuals": pm.to_numpy() / prod},
                          index=pm.index)
        return df, dict(degradation=-1 - (h % 1), soiling_loss=100 * (1 - saw).mean(),
                        residual_shift=shift, small_soiling_signal=False,
                        RMSE=0.01 + (h % 1) / 100, adf_res=(-9.0, 1e-4, 1))
    real = so.CODSAnalysis.iterative_signal_decomposition
    so.CODSAnalysis.iterative_signal_decomposition = fit
    try:
        kw = dict(reps=16, verbose=bool(p % 2), bootstrap_seed=q)
        if q % 3:
            return list(so.soiling_cods(I["long"], **kw))
        c = so.CODSAnalysis(I["long"])
        out = c.run_bootstrap(**kw)
        return [out, c.degradation, c.soiling_loss, c.result_df, c.RMSE, c.adf_results]
    finally:
        so.CODSAnalysis.iterative_signal_decomposition = real


@op("power poa tcell", random=True, cost=450, group="plot")
def trend_plots(rd, I, p):
    t = rd.TrendAnalysis(I["power"], I["poa"], temperature_cell=I["tcell"], gamma_pdc=-0.004)
    t.sensor_analysis(analyses=["yoy_degradation", "srr_soiling"], srr_kwargs={"reps": 5})
    return _pick(
        p, lambda: t.plot_degradation_summary("sensor", detailed=True),
        lambda: t.plot_soiling_monte_carlo("sensor"), lambda: t.plot_soiling_interval("sensor"),
        lambda: t.plot_soiling_rate_histogram("sensor"),
        lambda: t.plot_pv_vs_irradiance("sensor"),
        lambda: t.plot_degradation_timeseries("sensor", rolling_days=200),
        lambda: t.plot_degradation_summary("nonsense"))()


# ---------------------------------------------------------------- plots
@op("daily", random=True, cost=150, group="plot")
def plot_deg(rd, I, p):
    import matplotlib.pyplot as plt
    r, ci, info = rd.degradation_year_on_year(I["daily"])
    mid(I, "yoy_info", info)
    mid(I, "yoy_ci", ci)
    d = I["daily"]
    return _pick(
        p, lambda: rd.degradation_summary_plots(r, ci, info, d),
        lambda: rd.degradation_timeseries_plot(info, rolling_days=60),
        lambda: rd.degradation_summary_plots(r, ci, info, d, hist_xmin=-10, hist_xmax=10,
                                             detailed=True),
        lambda: rd.degradation_timeseries_plot(info, rolling_days=500, include_ci=False),
        lambda: rd.degradation_summary_plots(r, ci, info, d, bins=7, scatter_ymin=0.5,
                                             scatter_ymax=1.2, plot_color="C3",
                                             summary_title="site", scatter_alpha=0.2),
        lambda: rd.degradation_timeseries_plot(info, rolling_days=40, include_ci=False,
                                               fig=plt.subplots()[0], plot_color="C1",
                                               ci_color="C2", linewidth=3))()


@op("daily insol", random=True, cost=200, group="plot")
def plot_soil(rd, I, p):
    so, pl = mod(rd, "soiling"), mod(rd, "plotting")
    _, _, info = so.soiling_srr(I["daily"], I["insol"], reps=10)
    mid(I, "soiling_info", info)
    d = I["daily"]
    return _pick(p, lambda: pl.soiling_monte_carlo_plot(info, d, profiles=5),
                 lambda: pl.soiling_interval_plot(info, d),
                 lambda: pl.soiling_rate_histogram(info),
                 lambda: pl.soiling_monte_carlo_plot(info, d, ymin=0.5, ymax=1.1,
                                                     point_color="C4", profile_color="C5"),
                 lambda: pl.soiling_interval_plot(info, d, ymin=0.5, ymax=1.1, point_color="C4",
                                                  profile_color="C5"),
                 lambda: pl.soiling_rate_histogram(info, bins=5))()


@op("power mask", cost=60, group="plot")
def plot_tune(rd, I, p):
    rd.tune_filter_plot(I["power"].iloc[:300], I["mask"].iloc[:300])
    return None


@op("system sub cum aexp", cost=300, group="plot")
def plot_avail(rd, I, p):
    a = rd.AvailabilityAnalysis(I["system"], I["sub"], I["cum"], I["aexp"])
    a.run()
    return a.plot()


# ---------------------------------------------------------------- calls that must fail
@op("power poa daily insol system sub cum aexp pvw two", group="bad")
def rejected(rd, I, p):
    """Calls with invalid arguments: they must raise; what matters is what they leave behind."""
    k = p % 10
    if k == 0:
        return rd.energy_from_power(I["power"].iloc[::-1])
    if k == 1:
        return rd.clip_filter(I["power"], model="nonsense")
    if k == 2:
        return rd.degradation_year_on_year(I["daily"].iloc[:300])
    if k == 3:
        return mod(rd, "soiling").soiling_srr(I["daily"].iloc[::3], I["insol"])
    if k == 4:
        return rd.AvailabilityAnalysis(I["system"], I["sub"].iloc[1:], I["cum"], I["aexp"])
    if k == 5:
        return rd.normalize_with_pvwatts(I["power"].iloc[[0, 1, 5]], {"nope": 1})
    if k == 6:
        return rd.irradiance_rescale(I["poa"], I["poa"] * 2, method="zzz")
    if k == 7:
        t = rd.TrendAnalysis(I["power"])
        t.sensor_analysis()
    if k == 8:
        t = rd.TrendAnalysis(I["power"].iloc[:2000], I["poa"], temperature_cell=I["poa"])
        t.sensor_analysis()
    if k == 9:
        t = rd.TrendAnalysis(I["power"], I["poa"])
        t.filter_params.update({"bogus": {}})


def choose(rng, kind=None, budget_ms=800):
    """A random operation whose cost fits, weighted towards coverage of all groups."""
    names = [n for n in OPS if OPS[n].cost <= budget_ms and
             (kind is None or kind(OPS[n]))]
    names += ["odd"] * (2 if "odd" in names else 0)
    name = rng.choice(sorted(names))
    if OPS[name].group == "os_random" and rng.random() < 0.8:
        name = rng.choice(sorted(names))        # expensive
    return name, rng.randint(0, 143)
