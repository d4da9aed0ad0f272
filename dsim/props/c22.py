"""C22: figures draw exactly the published results of the analysis they are asked for."""
import sys

import matplotlib.dates as mdates
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from .. import env, ops, sched, session, trend, world
from ..util import arr_close, need

PROPERTY = "C22"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
SHRINK = [("steps",)]
RULE = ("one run = a session on one or two analysis objects (or a single published result): "
        "analyses of both workflows, settings changes, injected faults, other open figures, and "
        "figures in between; everything drawn is read back from the figure and compared with the "
        "results published at that moment; non-trivial = at least one figure after another "
        "analysis, a fault, or with another figure open")
REAL = ["rdtools.plotting, the plot methods, the analyses", "matplotlib (Agg) and plotly"]
STUB = ["fault delivery (exception at a source line)"]
ASSUMPTIONS = ["the figure is read back through matplotlib's and plotly's artist objects",
               "pyplot is used from one thread"]

PLOTS = ["summary", "summary", "timeseries", "timeseries", "monte_carlo", "interval", "rates",
         "pv_irradiance"]


def generate(rng, tier):
    mode = rng.choice(["trend", "trend", "trend", "avail", "direct", "direct", "direct", "direct",
                       "tune"])
    plan = {"mode": mode, "site": world.site_spec(rng), "nseed": rng.randint(0, 2**31),
            "p": rng.randint(0, 143), "other_fig": rng.random() < 0.5, "steps": []}
    if mode == "trend":
        n = rng.choice([1, 1, 2])
        have = []                       # (object, workflow, analysis) that may be published
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.7:
                a = {"do": "run", "obj": rng.randrange(n), "case": rng.choice(
                    ["sensor", "clearsky"]), "analyses": rng.choice(
                        [["yoy_degradation"], ["yoy_degradation", "srr_soiling"],
                         ["yoy_degradation", "srr_soiling"], ["srr_soiling"]]), "fault": None}
                if rng.random() < 0.25:
                    a["fault"] = session.gen_fault(rng, a["case"])
                have += [(a["obj"], a["case"], x) for x in a["analyses"]]
                plan["steps"].append(a)
            else:
                plan["steps"].append({"do": "set", "obj": rng.randrange(n),
                                      "low": rng.choice([100, 300, 500])})
            for _ in range(rng.choice([1, 2, 3])):
                plan["steps"].append(_plot(rng, n, have))
        plan["steps"] += [_plot(rng, n, have) for _ in range(3)]
        plan["n"] = n
    elif mode == "avail":
        plan["steps"] = [{"do": rng.choice(["run", "plot", "plot"]), "v": rng.randint(0, 8),
                          "fault": session.gen_fault(rng, "availability", 0.25)}
                         for _ in range(rng.randint(2, 4))]
        plan["steps"].append({"do": "plot", "v": 0, "fault": None})
    elif mode == "direct":
        plan["freq"] = rng.choice(["D", "D", "D", "W", "MS"])
        plan["days"] = rng.choice([731, 740, 800, 1100, 1500])
        plan["lost"] = rng.choice([0, 0, 0.1, 0.5, 0.9])
        plan["holes"] = rng.choice(["dropped", "nan"])
        plan["plots"] = [{"plot": rng.choice(["summary", "timeseries", "monte_carlo", "interval",
                                              "rates"]), "v": rng.randint(0, 11)}
                         for _ in range(rng.randint(1, 3))]
    return plan


def _plot(rng, n, have):
    obj, case, plot = rng.randrange(n), rng.choice(["sensor", "clearsky"]), rng.choice(PLOTS)
    if have and rng.random() < 0.9:
        obj, case, what = rng.choice(have)
        plot = rng.choice({"srr_soiling": ["monte_carlo", "interval", "rates"],
                           "yoy_degradation": ["summary", "summary", "timeseries",
                                               "pv_irradiance"]}[what])
    return {"do": "plot", "obj": obj, "case": case, "plot": plot, "v": rng.randint(0, 11)}


def simplify(plan):
    if plan["other_fig"]:
        yield dict(plan, other_fig=False)
    for i, s in enumerate(plan["steps"]):
        if s.get("fault"):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, fault=None)]
                       + plan["steps"][i + 1:])


# ------------------------------------------------------------------ reading figures back
def when(idx):
    return np.asarray(mdates.date2num(pd.DatetimeIndex(idx).to_pydatetime()), float)


def xs(line):
    x = line.get_xdata(orig=True)
    a = np.asarray(x)
    if a.dtype == object or a.dtype.kind == "M" or isinstance(x, pd.DatetimeIndex):
        return when(x)
    return np.asarray(line.get_xdata(orig=False), float)


def series_is(x, y, s, what):
    y = np.ma.filled(np.ma.asarray(y, dtype=float), np.nan)
    w = s.to_numpy(dtype=float)
    need(len(y) == len(w), "points", f"{what}: {len(y)} points drawn, {len(w)} in the results")
    need(arr_close(y, w, 1e-9, 1e-12), "values", lambda: f"{what}: drawn values differ from the "
         f"results at {s.index[int(np.argmax(~np.isclose(y, w, 1e-9, 1e-12, equal_nan=True)))]}")
    need(arr_close(x, when(s.index), 1e-12, 1e-7), "times", f"{what}: drawn at other times")


def hist_is(ax, values, bins, what):
    v = np.asarray(values, float)
    c, e = np.histogram(v, bins=bins)
    p = [q for q in ax.patches if hasattr(q, "get_height")]
    h = np.array([q.get_height() for q in p])
    left = np.array([q.get_x() for q in p])
    need(len(h) == len(c) and arr_close(h, c, 0, 1e-9) and arr_close(left, e[:-1], 1e-6, 1e-9),
         "histogram", f"{what}: bars {h.tolist()[:8]} from {left.tolist()[:3]}, the published "
         f"values give {c.tolist()[:8]} from {e.tolist()[:3]}")


def summary(fig, kw, rate, ci, info, perf, run):
    need(len(fig.axes) == 2, "axes", f"{len(fig.axes)} axes in the summary")
    a, b = fig.axes
    yoy = info["YoY_values"]
    off = a.collections[0].get_offsets()
    ren = perf / info["renormalizing_factor"]
    series_is(np.asarray(off[:, 0], float), off[:, 1], ren, "renormalized energy")
    if kw.get("detailed"):
        from matplotlib.colors import to_rgba
        al = kw.get("scatter_alpha", 0.5)
        col = {0: "red", 1: "green", 2: kw.get("plot_color") or "C0"}
        use = info["usage_of_points"].reindex(perf.index)
        got = a.collections[0].get_facecolor()
        need(len(got) == len(perf), "colours", "points without a colour of their own")
        for k, u in enumerate(use.to_numpy()):
            if u == u and ren.iloc[k] == ren.iloc[k]:
                need(arr_close(got[k], to_rgba(col[int(u)], al), 0, 1e-6), "colours",
                     f"{perf.index[k]} takes part in {int(u)} pairs and is drawn in {got[k]}")
    ln = a.lines[0]
    x = xs(ln)
    years = (perf.index[-1] - perf.index[0]).days / 365.25
    need(arr_close(x, when(perf.index[[0, -1]]), 1e-12, 1e-7) and
         arr_close(ln.get_ydata(), [1, 1 + rate * years / 100], 1e-9, 1e-12), "trend_line",
         f"the line runs to {list(ln.get_ydata())}, rate {rate} over {years} years")
    n = len(yoy)
    bins = kw.get("bins")
    bins = int(min(n // 40 if bins is None else bins, n)) or 1
    hist_is(b, yoy, bins, "year-on-year rates")
    need(arr_close(b.lines[0].get_xdata(), [rate, rate], 1e-12, 0), "rate_line",
         f"the rate is marked at {b.lines[0].get_xdata()[0]}, it is {rate}")
    txt = " ".join(t.get_text() for t in b.texts)
    for v in (rate, ci[0], ci[1]):
        need(f"{v:.2f}" in txt, "text", f"{v:.2f} is not in the text {txt!r}")
    if kw.get("detailed"):
        need(f"n = {n}" in txt, "text", f"{n} pairs, the text says {txt!r}")
    if "summary_title" in kw:
        need(fig._suptitle is not None and fig._suptitle.get_text() == kw["summary_title"],
             "title", "title not shown")


def timeseries(fig, kw, info, days, run):
    ax = fig.axes[0]
    v = info["YoY_values"]
    t = v.index.asi8
    x = v.to_numpy(float)
    span = days * 86400 * 10**9
    lo = np.searchsorted(t, t - span, side="right")
    want = np.array([np.median(x[lo[k]:k + 1]) if k + 1 - lo[k] >= max(days // 2, 1) else np.nan
                     for k in range(len(x))])
    flat = [ln for ln in ax.lines if len(ln.get_ydata()) == 2
            and list(ln.get_xdata(orig=True)) == [0, 1]]
    need(len(flat) == 1 and len(ax.lines) == 2, "lines", f"{len(ax.lines)} lines drawn")
    roll = [ln for ln in ax.lines if ln is not flat[0]][0]
    y = np.asarray(roll.get_ydata(), float)
    series_is(xs(roll), y, pd.Series(want, index=v.index), "rolling rate")
    m = flat[0].get_ydata()
    need(arr_close(m, [np.median(x)] * 2, 1e-12, 0), "median_line",
         f"the median is marked at {m[0]}, it is {np.median(x)}")
    need(bool(ax.collections) == kw.get("include_ci", True), "band", "band drawn or missing")
    need(ax.get_ylabel() != "", "label", "the axis has no label")
    if ax.collections:
        pts = np.concatenate([p.vertices for p in ax.collections[0].get_paths()]) \
            if ax.collections[0].get_paths() else np.zeros((0, 2))
        if len(pts):
            need(pts[:, 1].min() >= x.min() - 1e-9 and pts[:, 1].max() <= x.max() + 1e-9, "band",
                 "the band leaves the range of the year-on-year rates")


def profiles(fig, kw, info, perf, run):
    ax = fig.axes[0]
    series_is(xs(ax.lines[0]), ax.lines[0].get_ydata(), perf / info["renormalizing_factor"],
              "renormalized energy")
    prof = info["stochastic_soiling_profiles"]
    if kw.get("profiles") is not None:
        prof = prof[:kw["profiles"]]
    need(len(ax.lines) == 1 + len(prof), "profiles",
         f"{len(ax.lines) - 1} profiles drawn, {len(prof)} asked for")
    for k, p in enumerate(prof):
        series_is(xs(ax.lines[k + 1]), ax.lines[k + 1].get_ydata(), p, f"profile {k}")


def interval(fig, kw, info, perf, run):
    ax = fig.axes[0]
    series_is(xs(ax.lines[0]), ax.lines[0].get_ydata(), perf / info["renormalizing_factor"],
              "renormalized energy")
    series_is(xs(ax.lines[1]), ax.lines[1].get_ydata(), info["soiling_ratio_perfect_clean"],
              "soiling ratio")


def rates(fig, kw, info, run):
    s = info["soiling_interval_summary"]
    v = [100 * r for r, ok in zip(s["soiling_rate"], s["valid"]) if ok]
    hist_is(fig.axes[0], v, kw.get("bins") or 10, "soiling rates")


def availability(fig, a, run):
    need(len(fig.axes) == 4, "axes", f"{len(fig.axes)} axes")
    ax1, ax2, ax3, ax4 = fig.axes
    series_is(xs(ax1.lines[0]), ax1.lines[0].get_ydata(), a.power_system, "meter power")
    need(len(ax2.lines) == a.power_subsystem.shape[1], "inverters", "an inverter is not drawn")
    for k, c in enumerate(a.power_subsystem):
        series_is(xs(ax2.lines[k]), ax2.lines[k].get_ydata(), a.power_subsystem[c], str(c))
    series_is(xs(ax3.lines[0]), ax3.lines[0].get_ydata(), a.loss_total, "lost power")
    series_is(xs(ax4.lines[0]), ax4.lines[0].get_ydata(), a.energy_cumulative, "counter")
    out = a.outage_info
    rest = ax4.lines[1:]
    curves = [ln for ln in rest if "Expected Production" in str(ln.get_label())]
    need(len(curves) == len(out), "outages", f"{len(curves)} outages drawn, {len(out)} reported")
    bars = ax4.containers
    need(len(bars) == len(out), "outages", f"{len(bars)} error bars, {len(out)} outages")
    for ln, bar, (_, row) in zip(curves, bars, out.iterrows()):
        e = a.energy_expected_rescaled
        e = e[(e.index >= row["start"]) & (e.index <= row["end"])]
        series_is(xs(ln), ln.get_ydata(), e.cumsum() + row["energy_start"], "expected production")
        seg = bar[2][0].get_segments()
        if seg and np.isfinite(row["energy_start"]):
            end = float((e.cumsum() + row["energy_start"]).iloc[-1])
            want = [end - abs(row["energy_expected"] - row["ci_lower"]),
                    end + abs(row["energy_expected"] - row["ci_upper"])]
            need(arr_close(np.asarray(seg[0], float)[:, 1], want, 1e-9, 1e-9), "error_bar",
                 f"bar {np.asarray(seg[0], float)[:, 1]}, the published bounds give {want}")


# ------------------------------------------------------------------ sessions
def figure(fn, run, what, other, draw_on=None):
    """Call a plotting function; no other open figure may change."""
    before = world_of(other) if other is not None else None
    nums = set(plt.get_fignums())
    if other is not None:
        plt.figure(other.number)
    with session.quiet():
        fig = fn()
    if other is not None:
        need(world_of(other) == before, "other_figure",
             f"{what} changed another figure that was open: {before} -> {world_of(other)}")
        run.checks += 1
    need(draw_on is None or fig is draw_on, "figure", f"{what} did not draw on the given figure")
    del nums
    return fig


def world_of(fig):
    return [(len(a.lines), len(a.patches), len(a.collections), a.get_xlabel(), a.get_ylabel(),
             a.get_title(), a.get_xlim(), a.get_ylim(), len(a.texts)) for a in fig.axes]


def fig_kw(plot, v):
    if plot == "summary":
        return [{}, {"detailed": True}, {"bins": 7}, {"detailed": True, "plot_color": "C3"},
                {"summary_title": "site", "scatter_alpha": 0.3}, {"bins": 10**4},
                {"hist_xmin": -5, "hist_xmax": 5, "scatter_ymin": 0.5}][v % 7]
    if plot == "timeseries":
        return [{"include_ci": False}, {"rolling_days": 60}, {"rolling_days": 200,
                                                              "include_ci": False},
                {"rolling_days": 30, "include_ci": False, "fig": True},
                {"rolling_days": 91, "include_ci": False, "plot_color": "C1"}][v % 5]
    if plot == "monte_carlo":
        return [{}, {"profiles": 3}, {"profiles": 500}, {"profiles": 1, "ymin": 0.2}][v % 4]
    if plot == "rates":
        return [{}, {"bins": 4}][v % 2]
    return {}


def judge(fig, plot, kw, perf, res, run):
    kw = {k: x for k, x in kw.items() if k != "fig"}
    if plot == "summary":
        r = res["yoy_degradation"]
        summary(fig, kw, r["p50_rd"], r["rd_confidence_interval"], r["calc_info"], perf, run)
    elif plot == "timeseries":
        timeseries(fig, kw, res["yoy_degradation"]["calc_info"], kw.get("rolling_days", 365), run)
    elif plot == "monte_carlo":
        profiles(fig, kw, res["srr_soiling"]["calc_info"], perf, run)
    elif plot == "interval":
        interval(fig, kw, res["srr_soiling"]["calc_info"], perf, run)
    elif plot == "rates":
        rates(fig, kw, res["srr_soiling"]["calc_info"], run)
    run.checks += 1
    run.probe("plot:" + plot)


METHOD = {"summary": "plot_degradation_summary", "timeseries": "plot_degradation_timeseries",
          "monte_carlo": "plot_soiling_monte_carlo", "interval": "plot_soiling_interval",
          "rates": "plot_soiling_rate_histogram", "pv_irradiance": "plot_pv_vs_irradiance"}


def execute(plan, run):
    rd = env.ensure()
    np.random.seed(plan["nseed"] % 2**32)
    other = None
    if plan["other_fig"]:
        other, ax = plt.subplots()
        ax.plot([1, 2, 3])
        run.nontrivial = True
    try:
        {"trend": _trend, "avail": _avail, "direct": _direct, "tune": _tune}[plan["mode"]](
            plan, run, rd, other)
    finally:
        plt.close("all")
    run.interleaving = run.digest()


def _trend(plan, run, rd, other):
    I = world.site(plan["site"])
    objs = []
    for k in range(plan["n"]):
        t = ops.make_trend(rd, I, plan["p"] + k)
        ops.set_clear(t, I, plan["p"])
        objs.append(t)
    ran = 0
    with sched.Simulator() as S:
        for k, s in enumerate(plan["steps"]):
            t = objs[s["obj"]]
            if s["do"] == "set":
                t.filter_params["poa_filter"] = {"poa_global_low": s["low"]}
                continue
            if s["do"] == "run":
                def go():
                    kw = {"srr_kwargs": {"reps": 6}} if "srr_soiling" in s["analyses"] else {}
                    with session.quiet():
                        getattr(t, s["case"] + "_analysis")(analyses=list(s["analyses"]), **kw)
                f = s["fault"]
                if f:
                    S.arm(f["at"], lambda: session.make_exc(f["kind"]), distinct=f["distinct"])
                how = "ok"
                try:
                    go()
                except (Exception, KeyboardInterrupt) as e:
                    how = type(e).__name__
                if f:
                    g, _ = S.disarm()
                    if g["fired"]:
                        run.fault(f["kind"])
                run.log("run", s["obj"], s["case"], s["analyses"], how)
                ran += 1
                continue
            plot, case = s["plot"], s["case"]
            kw = fig_kw(plot, s["v"])
            pub = t.results.get(case, {})
            was = world.digest(pub)
            need_key = {"summary": "yoy_degradation", "timeseries": "yoy_degradation",
                        "pv_irradiance": None}.get(plot, "srr_soiling")
            target = None
            if kw.get("fig"):
                target = plt.subplots()[0]
                kw = dict(kw, fig=target)
            what = f"{METHOD[plot]}({case!r}, {sorted(kw)})"
            have = need_key is None or need_key in pub
            try:
                fig = figure(lambda: getattr(t, METHOD[plot])(case, **kw), run, what, other, target)
            except (KeyError, AttributeError, TypeError) as e:
                if have:
                    raise
                run.log("nothing to plot", type(e).__name__)
                continue
            need(have, "plotted_nothing", f"{what} drew a figure without published results")
            if plot == "pv_irradiance":
                poa = t.poa_global if case == "sensor" else t.poa_global_clearsky
                both = poa.index.intersection(t.pv_energy.index)
                ln = fig.axes[0].lines[0]
                need(arr_close(ln.get_xdata(), poa.reindex(both).to_numpy(float), 1e-12, 0) and
                     arr_close(ln.get_ydata(), t.pv_energy.reindex(both).to_numpy(float), 1e-12,
                               0), "irradiance", "drawn energy or irradiance is not the object's")
                run.checks += 1
                run.probe("plot:" + plot)
            else:
                judge(fig, plot, kw, getattr(t, case + "_aggregated_performance"), pub, run)
            need(world.digest(t.results.get(case, {})) == was, "results_changed",
                 f"{what} changed the published results")
            run.log(plot, case, s["v"])
            run.nontrivial = run.nontrivial or ran > 1 or bool(run.faults)
            if fig is not other:
                plt.close(fig)
        run.steps = S.steps


def _avail(plan, run, rd, other):
    I = world.site(plan["site"])
    a = rd.AvailabilityAnalysis(I["system"], I["sub"], I["cum"], I["aexp"])
    done = False
    with sched.Simulator() as S:
        for s in plan["steps"]:
            if s["do"] == "run":
                kw = [{}, {"relative_sizes": I["sizes"]}, {"power_system_limit": 250.0},
                      {"rollup_period": "W"}, {"low_threshold": 1.0}][s["v"] % 5]
                f = s["fault"]
                if f:
                    S.arm(f["at"], lambda: session.make_exc(f["kind"]), distinct=f["distinct"])
                try:
                    with session.quiet():
                        a.run(**kw)
                    done = True
                    how = "ok"
                except (Exception, KeyboardInterrupt) as e:
                    how = type(e).__name__
                    if f:       # nothing is claimed about figures of a broken-off first run
                        run.fault(f["kind"])
                if f:
                    S.disarm()
                run.log("run", s["v"], how)
                if how != "ok":
                    break
                continue
            try:
                fig = figure(a.plot, run, "plot()", other)
            except TypeError:
                need(not done, "plot_refused", "results are there, and plot() refused")
                run.log("refused")
                continue
            need(done, "plotted_nothing", "plot() drew a figure without results")
            availability(fig, a, run)
            run.checks += 1
            run.probe("plot:availability")
            run.log("plot", len(a.outage_info))
            run.nontrivial = True
            plt.close(fig)
        run.steps = S.steps


def _direct(plan, run, rd, other):
    r = np.random.RandomState(plan["nseed"] % 2**32)
    n = plan["days"]
    idx = pd.date_range("2016-03-01", periods=n, freq="D", tz=plan["site"]["tz"])
    x = np.arange(n)
    s = pd.Series((1 - 0.008 * x / 365) * (1 - 0.002 * (x % 47)) * r.normal(1, 0.004, n), idx)
    lost = r.rand(n) < plan["lost"]
    lost[[0, -1]] = False
    if plan["freq"] == "D":
        s[lost] = np.nan
        if plan["holes"] == "dropped":
            s = s.dropna()
        run.fault("lost_day", int(lost.sum()))
    else:
        s = s.resample(plan["freq"]).mean()
    rate = None
    try:
        with session.quiet():
            rate, ci, info = rd.degradation_year_on_year(s)
    except ValueError:
        run.log("no rate")
    soil = None
    if plan["freq"] == "D":
        so = sys.modules["rdtools.soiling"]
        try:
            with session.quiet():
                soil = so.soiling_srr(s.asfreq("D"), s.asfreq("D") * 0 + 5.0, reps=6)[2]
        except (ValueError, so.NoValidIntervalError):
            run.log("no soiling")
    pl = sys.modules["rdtools.plotting"]
    res = {}
    if rate is not None:
        res["yoy_degradation"] = {"p50_rd": rate, "rd_confidence_interval": ci, "calc_info": info}
    if soil is not None:
        res["srr_soiling"] = {"calc_info": soil}
    for p in plan["plots"]:
        plot, kw = p["plot"], fig_kw(p["plot"], p["v"])
        yoy = plot in ("summary", "timeseries")
        if ("yoy_degradation" if yoy else "srr_soiling") not in res:
            continue
        if plot == "rates" and not soil["soiling_interval_summary"]["valid"].any():
            continue
        target = None
        if kw.get("fig"):
            target = plt.subplots()[0]
            kw = dict(kw, fig=target)
        was = world.digest(res)
        fn = {"summary": lambda: rd.degradation_summary_plots(rate, ci, info, s, **kw),
              "timeseries": lambda: rd.degradation_timeseries_plot(info, **kw),
              "monte_carlo": lambda: pl.soiling_monte_carlo_plot(soil, s, **kw),
              "interval": lambda: pl.soiling_interval_plot(soil, s, **kw),
              "rates": lambda: pl.soiling_rate_histogram(soil, **kw)}[plot]
        fig = figure(fn, run, plot, other, target)
        judge(fig, plot, kw, s, res, run)
        need(world.digest(res) == was, "results_changed", f"{plot} changed the results it drew")
        run.log(plot, p["v"], len(s))
        plt.close(fig)


def _tune(plan, run, rd, other):
    r = np.random.RandomState(plan["nseed"] % 2**32)
    n = r.randint(5, 200)
    idx = pd.date_range("2020-01-01", periods=n, freq="15min", tz=plan["site"]["tz"],
                        name=[None, "when"][plan["p"] % 2])
    s = pd.Series(r.rand(n) * 100, idx, name=[None, "kW"][plan["p"] // 2 % 2])
    m = pd.Series(r.rand(n) < r.rand(), idx)
    gone = r.rand(n) < 0.1
    s[gone] = np.nan
    run.fault("lost_reading", int(gone.sum()))
    if plan["p"] % 3 == 0:
        m = m.iloc[r.permutation(n)]            # aligned by time, not by position
    with session.quiet():
        fig = rd.tune_filter_plot(s, m)
    got = {}
    for tr in fig.data:
        for x, y in zip(pd.DatetimeIndex(tr.x).asi8 if len(tr.x) else [], tr.y):
            got.setdefault(str(tr.name), {})[int(x)] = float(y)
    naive = idx.tz_localize(None) if idx.tz is not None else idx
    for flag in (True, False):
        d = got.get(str(flag), {})
        sel = m.reindex(idx).to_numpy(bool) == flag
        for keys in (idx.asi8, naive.asi8):
            want = {int(k): v for k, v, ok in zip(keys, s.to_numpy(), sel) if ok}
            if set(want) == set(d):
                break
        need(set(d) == set(want), "mask_points", f"{len(d)} readings drawn as {flag}, "
             f"{len(want)} of the mask are")
        for k, v in want.items():
            need(v == d[k] or (np.isnan(v) and np.isnan(d[k])), "mask_values",
                 "a reading is drawn at another value")
    run.checks += n
    run.nontrivial = True
    run.log("tune", n)
    run.probe("plot:tune_filter")
