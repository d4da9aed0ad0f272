"""C16: the end-to-end workflow equals its documented steps and ignores bad readings."""
import math

import numpy as np
import pandas as pd
import pvlib

from .. import chainref as ref
from .. import env, files, session
from ..core import Violation
from ..telemetry import Wire, generate_faults
from ..util import arr_close, first_diff, fl, need, to_index

PROPERTY = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 40000}
SHRINK = [("lost",), ("channels", "power", "faults"), ("channels", "poa", "faults"),
          ("channels", "temp", "faults"), ("bad",)]
RULE = ("one run = two to three years of a simulated plant whose power, irradiance and temperature "
        "channels each pass a faulty link and logger (loss, duplication, delay, crash, partition, "
        "stuck and wild readings), then the sensor or clear-sky workflow with random settings; "
        "every published stage is compared with an independent numpy model of the documented "
        "steps, the published results with the public degradation and soiling functions; mode "
        "'rejected' reruns with other values at rejected readings, 'missing' with readings lost "
        "instead of rejected, 'truth' requires the imposed rate, 'modelled' compares the modelled "
        "clear-sky irradiance with pvlib; non-trivial = faults injected and readings rejected")
REAL = ["rdtools.analysis_chains, normalization, filtering, aggregation, degradation, soiling"]
STUB = ["devices, links and logger are simulated; the clear-sky model files are not read"]
ASSUMPTIONS = ["pv readings on a regular grid (or interp_freq given)", "the logic-based clipping "
               "filter is taken from the public function (only its use is modelled)"]
MODELS = ["open_rack_glass_polymer", "close_mount_glass_glass", "insulated_back_glass_polymer"]
COMMON = ["partition", "device_down", "logger_crash", "loss", "duplicate", "delay", "nan_reading"]


def _filters(rng, case, clip_ok):
    fp = {}
    if rng.random() < 0.85:
        fp["normalized_filter"] = rng.choice([{}, {}, {"energy_normalized_low": 0.4},
                                              {"energy_normalized_low": None},
                                              {"energy_normalized_high": 1.3},
                                              {"energy_normalized_low": 0.1,
                                               "energy_normalized_high": 1.05}])
    if rng.random() < 0.85:
        fp["poa_filter"] = rng.choice([{}, {}, {"poa_global_low": 350}, {"poa_global_high": 900},
                                       {"poa_global_low": 50, "poa_global_high": 1500}])
    if rng.random() < 0.75:
        fp["tcell_filter"] = rng.choice([{}, {}, {"temperature_cell_low": 5},
                                         {"temperature_cell_high": 45}])
    if clip_ok and rng.random() < 0.6:
        fp["clip_filter"] = rng.choice([{"model": "quantile"}, {"model": "quantile",
                                        "quantile": 0.9}, {"model": "quantile", "quantile": 0.99},
                                        {}])
    if rng.random() < 0.25:
        fp["hour_angle_filter"] = rng.choice([{}, {"min_hour_angle": -60, "max_hour_angle": 45}])
    if case == "clearsky":
        fp["clearsky_filter"] = {"model": "csi", "threshold": rng.choice([0.15, 0.3])}
    if rng.random() < 0.2:
        fp["sensor_clearsky_filter"] = {"model": "csi", "threshold": rng.choice([0.25, 0.5])}
    if rng.random() < 0.5:
        fp["ad_hoc_filter"] = rng.choice(["bool", "nan", "short", "extra", "holes"])
    if "normalized_filter" not in fp and "poa_filter" not in fp:
        fp[rng.choice(["normalized_filter", "poa_filter"])] = {}
    fa = {}
    if rng.random() < 0.6:
        fa["two_way_window_filter"] = rng.choice([{}, {}, {"outlier_threshold": 0.01},
                                                  {"roll_period": 14}])
    if rng.random() < 0.3:
        fa["insolation_filter"] = rng.choice([{}, {"quantile": 0.3}])
    if rng.random() < 0.35:
        fa["hampel_filter"] = rng.choice([{}, {"k": 30}, {"t0": 5}])
    if rng.random() < 0.3:
        fa["directional_tukey_filter"] = rng.choice([{}, {"k": 3.0}, {"roll_period": 14, "k": 2.0}])
    if rng.random() < 0.35:
        fa["ad_hoc_filter"] = rng.choice(["bool", "nan", "short", "extra", "holes"])
    return fp, fa


def generate(rng, tier):
    mode = rng.choice(["model"] * 10 + ["rejected"] * 4 + ["missing"] * 3 + ["truth"] * 4 +
                      ["modelled"])
    case = rng.choice(["sensor", "sensor", "sensor", "clearsky"])
    step = rng.choice([2, 3, 4, 4, 6])
    days = rng.choice([735, 745, 800, 1000])
    n = days * 24 // step
    interp_freq = mode == "model" and rng.random() < 0.25
    pv_input = rng.choice(["power", "power", "energy"])
    fp, fa = _filters(rng, case, clip_ok=pv_input == "power" and mode == "model")
    chans = {}
    for c in ("power", "poa", "temp"):
        kinds = list(COMMON)
        if mode == "model":
            kinds.append("stuck")
            if c != "power" or interp_freq:
                kinds.append("clock_jump")
        chans[c] = {"faults": generate_faults(rng, n, step * 3600, kinds=kinds, density=rng.choice(
            [0.5, 1, 2])) if rng.random() < 0.8 else []}
    if mode in ("truth", "rejected", "missing"):
        for c in chans.values():        # stay clear of records that shrink below two years
            for f in c["faults"]:
                if "from" in f:
                    f["to"] = min(f["to"], f["from"] + 20 * 86400)
    bad = []
    if mode == "model":
        for _ in range(rng.choice([0, 3, 20])):
            bad.append([rng.choice(["power", "poa", "temp"]), rng.randrange(n),
                        rng.choice([-500.0, 0.0, 1e6, 1350.0, 205.0, 120.0, -60.0])])
    if mode == "truth":
        fa.pop("ad_hoc_filter", None)
    lost = [[x, rng.randrange(n), rng.choice([1, 2, 3, 5, 30])]
            for x in ("wind", "expected", "cs", "tcell_cs", "tamb_cs")
            for _ in range(rng.choice([0, 2, 8]))] if mode == "model" else []
    return {"lost": lost, "night": rng.choice([0.0, 0.0, -3.0]) if mode == "model" else 0.0,
            "mode": mode, "case": case, "step": step, "days": days, "channels": chans, "bad": bad,
            "tz": rng.choice([None, "UTC", "Etc/GMT+7", "America/Denver", "Asia/Kolkata"]),
            "pv_input": pv_input, "interp_freq": interp_freq,
            "norm": rng.choice(["pvwatts"] * 4 + ["expected"]),
            "temp": rng.choice(["cell", "cell", "ambient", "ambient_wind", "ambient_model",
                                "ambient_dict"]) if mode != "truth" else "cell",
            "cs_temp": rng.choice(["cell", "ambient"]),
            "rated": None if mode == "model" and rng.random() < 0.5 else 5000.0,
            "gamma": None if mode == "model" and rng.random() < 0.2 else -0.004,
            "max_td": rng.choice([None, None, 2, 3, 24]) if mode == "model" else
            1 if mode == "truth" else None,       # truth: nothing is interpolated
            "freq": rng.choice(["D", "D", "D", "D", "W", "MS"]),
            "fp": fp, "fa": fa, "rate": rng.choice([-0.03, -0.01, -0.005, 0.0, 0.01]),
            "analyses": rng.choice([["yoy_degradation"], ["yoy_degradation"],
                                    ["yoy_degradation", "srr_soiling"], ["srr_soiling"], []]),
            "yoy": rng.choice([{}, {}, {"confidence_level": 90.0, "recenter": False},
                               {"exceedance_prob": 80}]),
            "vseed": rng.randint(0, 10**9), "nseed": rng.randint(0, 2**31),
            "loc": [round(rng.uniform(-50, 50), 2), round(rng.uniform(-150, 150), 2),
                    rng.choice([0, 20, 35]), rng.choice([90, 180, 220])]}


def simplify(plan):
    for k, v in (("tz", None), ("rated", 5000.0), ("gamma", -0.004),
                 ("freq", "D"), ("interp_freq", False), ("temp", "cell"), ("yoy", {}),
                 ("norm", "pvwatts"), ("pv_input", "power"), ("analyses", []), ("case", "sensor"),
                 ("days", 735), ("step", 6), ("night", 0.0)):
        if plan[k] != v:
            c = dict(plan, **{k: v})
            if k == "case":
                c["fp"] = {a: b for a, b in plan["fp"].items() if a != "clearsky_filter"}
            yield c
    for d in ("fp", "fa"):
        for k in plan[d]:
            if k != "clearsky_filter":
                yield dict(plan, **{d: {a: b for a, b in plan[d].items() if a != k}})


# ------------------------------------------------------------------ the plant
def _truth(plan):
    r = np.random.RandomState(plan["vseed"] % 2**32)
    step, days = plan["step"], plan["days"]
    n = days * 24 // step
    h = (np.arange(n) * step) % 24.0
    d = np.arange(n) * step / 24.0
    sun = np.clip(np.sin((h - 6) / 12 * np.pi), 0, None)
    cs = 1050 * sun * (1 + 0.1 * np.cos(2 * np.pi * d / 365.25))
    poa = cs * np.where(r.rand(n) < 0.3, r.uniform(0.3, 0.9, n), r.uniform(0.96, 1.0, n))
    tamb_cs = 15 + 12 * np.sin(2 * np.pi * (d - 100) / 365.25) + 4 * sun
    tamb = tamb_cs + r.normal(0, 1, n)
    wind = r.uniform(0, 6, n)
    tcell = tamb + 0.03 * poa
    poa = np.where(sun > 0, poa, plan["night"])         # thermal offset of the sensor
    base = 5.0 * (cs if plan["case"] == "clearsky" and plan["mode"] == "truth" else poa)
    tc = tamb_cs + 0.03 * cs if plan["case"] == "clearsky" and plan["mode"] == "truth" else tcell
    power = base * (1 - 0.004 * (tc - 25)) * (1 + plan["rate"] * d / 365)
    if plan["mode"] != "truth":
        power = power * (1 - 0.0008 * (d % 40)) * r.normal(1, 0.015, n)
        power = np.minimum(power, 4400.0)
    if plan["pv_input"] == "energy":
        power = power * step
    return {"power": power, "poa": poa, "temp": tcell if plan["temp"] == "cell" else tamb,
            "wind": wind, "cs": cs, "tcell_cs": tamb_cs + 0.03 * cs, "tamb_cs": tamb_cs,
            "expected": 5.0 * poa * (1 - 0.004 * (tcell - 25))}


def _record(plan, run):
    """What each channel's logger stored: {channel: (epoch seconds, values)}."""
    T = _truth(plan)
    p = plan["step"] * 3600
    n = len(T["power"])
    for c, i, v in plan["bad"]:
        T[c][i % n] = v
        run.fault("wild_reading")
    out = {}
    T["power"] = np.where(T["poa"] < 0, -12.0, T["power"])      # tare losses
    for c, i, k in plan["lost"]:
        T[c] = np.array(T[c], float)
        T[c][i % n:i % n + k] = math.nan
        run.fault("lost_model_rows")
    for c in ("power", "poa", "temp"):
        w = Wire(run, n, p, lambda i, t, v=T[c]: float(v[i]), plan["channels"][c]["faults"],
                 flush_every=4)
        rows = w.go()
        out[c] = (np.array([a for a, _ in rows], float), np.array([b for _, b in rows], float))
    return T, out


def _adhoc(kind, idx, r, frac=0.03):
    m = pd.Series(r.rand(len(idx)) > frac, index=idx)
    if kind == "nan":
        m = m.astype(object)
        m[r.rand(len(idx)) < 0.02] = np.nan
    elif kind == "short":
        m = m.iloc[len(m) // 4:]
    elif kind == "holes":
        m = m[r.rand(len(idx)) > 0.15]
    elif kind == "extra":
        extra = pd.Series(False, index=idx[-3:] + pd.Timedelta(days=4000))
        m = pd.concat([m, extra])
    return m


class Setup:
    """Inputs given to TrendAnalysis and the same data as plain arrays for the model."""

    def __init__(self, plan, run):
        self.plan = plan
        tz, p = plan["tz"], plan["step"] * 3600
        self.T, stored = _record(plan, run)
        n = len(self.T["power"])
        grid = np.arange(n) * p
        self.full_idx = to_index(grid, tz)
        s, v = stored["power"]
        if not plan["interp_freq"]:
            have = dict(zip(s.tolist(), v.tolist()))
            s, v = grid.astype(float), np.array([have.get(float(t), math.nan) for t in grid])
        self.ok = len(s) >= 60 and len(stored["poa"][0]) > 60 and len(stored["temp"][0]) > 60
        if not self.ok:
            return
        self.pv = pd.Series(v, index=to_index(s, tz), name="pv")
        self.poa = pd.Series(stored["poa"][1], index=to_index(stored["poa"][0], tz))
        self.temp = pd.Series(stored["temp"][1], index=to_index(stored["temp"][0], tz))
        f = self.full_idx
        def held(k):
            x = pd.Series(self.T[k], index=f)
            return x.dropna() if plan["vseed"] % 2 else x
        self.wind = held("wind")
        self.expected = held("expected")
        self.poa_cs = held("cs")
        self.tcell_cs = held("tcell_cs")
        self.tamb_cs = held("tamb_cs")
        r = np.random.RandomState((plan["vseed"] + 1) % 2**32)
        self.fp = dict(plan["fp"])
        self.fa = {}
        for k, a in plan["fa"].items():
            if isinstance(a, dict):
                a = dict(a)
                if "roll_period" in a:
                    a["roll_period"] = pd.Timedelta(days=a["roll_period"])
                if k == "hampel_filter" and "k" in a:
                    a["k"] = f"{a['k']}d"
            self.fa[k] = a
        if "ad_hoc_filter" in self.fp:
            self.fp["ad_hoc_filter"] = _adhoc(self.fp["ad_hoc_filter"], f, r)
        if "ad_hoc_filter" in self.fa:
            lab = ref.bin_of(f, plan["freq"])
            di = ref.labels_between(lab[0], lab[-1], plan["freq"])
            di = di.tz_localize(tz) if tz else di
            self.fa["ad_hoc_filter"] = _adhoc(self.fa["ad_hoc_filter"], di, r)
        self.max_td = None if plan["max_td"] is None else pd.Timedelta(
            hours=plan["max_td"] * plan["step"])

    def analysis(self, rd, **over):
        p = self.plan
        kw = dict(poa_global=over.get("poa", self.poa), aggregation_freq=p["freq"],
                  pv_input=p["pv_input"], gamma_pdc=p["gamma"], power_dc_rated=p["rated"],
                  max_timedelta=self.max_td)
        t = over.get("temp", self.temp)
        if p["temp"] == "cell":
            kw["temperature_cell"] = t
        else:
            kw["temperature_ambient"] = t
            if p["temp"] == "ambient_wind":
                kw["windspeed"] = self.wind
            elif p["temp"] == "ambient_model":
                kw["temperature_model"] = MODELS[p["vseed"] % 3]
            elif p["temp"] == "ambient_dict":
                kw["temperature_model"] = {"a": -3.2, "b": -0.06, "deltaT": 2.5}
                kw["windspeed"] = 1.5
        if p["norm"] == "expected":
            kw["power_expected"] = self.expected
        if p["interp_freq"]:
            kw["interp_freq"] = f"{p['step']}h"
        t = rd.TrendAnalysis(over.get("pv", self.pv), **kw)
        cs = {"poa_global_clearsky": self.poa_cs, "pvlib_location":
              pvlib.location.Location(p["loc"][0], p["loc"][1])}
        if p["cs_temp"] == "cell":
            cs["temperature_cell_clearsky"] = self.tcell_cs
        else:
            cs["temperature_ambient_clearsky"] = self.tamb_cs
        t.set_clearsky(**cs)
        with session.quiet():
            t.filter_params = over.get("fp", self.fp)
            t.filter_params_aggregated = self.fa
        if p["norm"] == "expected" and p["temp"] != "cell" and p["case"] == "sensor":
            t.filter_params.pop("tcell_filter", None)
        return t


def go(t, plan):
    """Run the workflow; returns the exception or None."""
    np.random.seed(plan["nseed"] % 2**32)
    kw = {}
    if "yoy_degradation" in plan["analyses"]:
        kw["yoy_kwargs"] = dict(plan["yoy"])
    if "srr_soiling" in plan["analyses"]:
        kw["srr_kwargs"] = {"reps": 10}
    try:
        with session.quiet():
            getattr(t, plan["case"] + "_analysis")(analyses=list(plan["analyses"]), **kw)
    except Exception as e:
        if isinstance(e, ValueError) or type(e).__name__ == "NoValidIntervalError":
            return session.strip(e)
        if "srr_soiling" in plan["analyses"] and hasattr(
                t, plan["case"] + "_aggregated_performance"):
            return session.strip(e)     # judged against the public soiling function below
        raise
    return None


# ------------------------------------------------------------------ the model
def model(S, t, rd, run):
    """Compare every published stage with the model."""
    plan = S.plan
    case = plan["case"]
    dt = int(plan["step"] * H_NS)
    pv = S.pv
    max_ns = None if S.max_td is None else S.max_td.value
    if plan["interp_freq"]:
        a, b = int(pv.index.asi8[0]), int(pv.index.asi8[-1])
        g = a + dt * np.arange((b - a) // dt + 1, dtype="int64")
        pvv = ref.interp(pv.index.asi8, pv.to_numpy(), g, max_ns)
    else:
        g, pvv = pv.index.asi8, pv.to_numpy()
    idx = pd.DatetimeIndex(g, tz="UTC").tz_convert(plan["tz"]) if plan["tz"] else \
        pd.DatetimeIndex(g)

    def onto(s, target):
        return ref.interp(s.index.asi8, s.to_numpy(), target, max_ns)

    poa = onto(S.poa, g)
    temp = onto(S.temp, g)
    wind = onto(S.wind, g)
    if plan["pv_input"] == "power":
        E = ref.energy(g, pvv, dt, max_ns)
        eg = g[1:]
        eidx = idx[1:]
    else:
        E, eg, eidx = pvv, g, idx
    pos = np.searchsorted(g, eg)
    # clear-sky inputs live on the energy index
    cs, tcs, tacs = (onto(x, eg) for x in (S.poa_cs, S.tcell_cs, S.tamb_cs))
    if plan["temp"] == "cell":
        tcell = temp
    else:
        name = {"ambient_model": MODELS[plan["vseed"] % 3]}.get(plan["temp"],
                                                               "open_rack_glass_polymer")
        prm = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS["sapm"][name]
        w = 0.0
        if plan["temp"] == "ambient_wind":
            w = wind
        if plan["temp"] == "ambient_dict":
            prm, w = {"a": -3.2, "b": -0.06, "deltaT": 2.5}, 1.5
        tcell = ref.sapm(poa, temp, w, **prm)
    if plan["cs_temp"] != "cell":
        name = {"ambient_model": MODELS[plan["vseed"] % 3]}.get(plan["temp"],
                                                               "open_rack_glass_polymer")
        prm = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS["sapm"][name]
        if plan["temp"] == "ambient_dict":
            prm = {"a": -3.2, "b": -0.06, "deltaT": 2.5}
        tcs = ref.sapm(cs, tacs, 0.0, **prm)
    irr, irr_g, tc = (poa, g, tcell) if case == "sensor" else (cs, eg, tcs)
    if plan["norm"] == "expected":
        P, P_g = onto(S.expected, g), g
    else:
        P, P_g = ref.pvwatts(irr, plan["rated"] or 1.0, tc, plan["gamma"]), irr_g

    def to_energy(grid, v):
        e = np.full(len(eg), np.nan)
        e[np.searchsorted(eg, grid[1:])] = ref.energy(grid, v, dt)
        return e
    with np.errstate(all="ignore"):
        norm = E / to_energy(P_g, P)
    insol = to_energy(irr_g, irr)
    if plan["norm"] != "expected" and plan["rated"] is None:
        norm = norm / ref.robust_quantile(norm[np.isfinite(norm)], 0.95)

    def on_e(grid, v, fill=False):
        out = np.full(len(eg), np.nan)
        k = np.searchsorted(grid, eg)
        k = np.clip(k, 0, len(grid) - 1)
        hit = grid[k] == eg
        out[hit] = v[k[hit]]
        return out

    fp = t.filter_params
    ns = len(eg)
    mask = np.ones(ns, bool)
    margin = np.full(ns, np.inf)

    def combine(m, mg):
        nonlocal mask, margin
        mask &= m
        margin = np.fmin(margin, mg)
    if "normalized_filter" in fp:
        a = fp["normalized_filter"]
        combine(*ref.between(norm, a.get("energy_normalized_low", 0.01),
                             a.get("energy_normalized_high")))
    irr_e, tc_e = on_e(irr_g, irr), on_e(irr_g, tc)
    if "poa_filter" in fp:
        a = fp["poa_filter"]
        combine(*ref.between(irr_e, a.get("poa_global_low", 200), a.get("poa_global_high", 1200)))
    if "tcell_filter" in fp:
        a = fp["tcell_filter"]
        combine(*ref.between(tc_e, a.get("temperature_cell_low", -50),
                             a.get("temperature_cell_high", 110)))
    if "clip_filter" in fp:
        a = dict(fp["clip_filter"])
        if a.get("model") == "quantile":
            m, mg = ref.quantile_clip(pvv, a.get("quantile", 0.98))
        else:
            m = rd.logic_clip_filter(pd.Series(pvv, index=idx)).to_numpy(dtype=bool)
            mg = np.full(len(m), np.inf)
        combine(m[pos], mg[pos])
    if "hour_angle_filter" in fp:
        a = fp["hour_angle_filter"]
        lat, lon = plan["loc"][:2]
        eot = pvlib.solarposition.get_solarposition(eidx, lat, lon)["equation_of_time"]
        ha = np.asarray(pvlib.solarposition.hour_angle(eidx, lon, eot), float)
        lo, hi = a.get("min_hour_angle", -30), a.get("max_hour_angle", 30)
        combine((ha >= lo) & (ha <= hi), np.minimum(np.abs(ha - lo), np.abs(ha - hi)))
    csis = []
    if case == "clearsky":
        csis.append(fp["clearsky_filter"])
    if "sensor_clearsky_filter" in fp:
        csis.append(fp["sensor_clearsky_filter"])
    for a in csis:
        combine(*ref.csi(poa[pos], cs, a.get("threshold", 0.15)))
    if fp.get("ad_hoc_filter") is not None:
        have = {k: bool(v == v and v) for k, v in zip(fp["ad_hoc_filter"].index.asi8.tolist(),
                                                     fp["ad_hoc_filter"].tolist())}
        combine(np.array([have.get(int(k), True) for k in eg]), np.full(ns, np.inf))
    got = getattr(t, case + "_filter")
    gi = got.index.get_indexer(eidx)
    need((gi >= 0).all(), "filter_index", "the published filter misses readings")
    gm = got.to_numpy(dtype=bool)
    rest = np.ones(len(gm), bool)
    rest[gi] = False
    need(not gm[rest].any(), "filter_extra", "a time without any energy reading passed the filter")
    bad = ref.same_mask(gm[gi], mask, margin, 1e-7)
    run.checks += ns
    if bad is not None:
        need(False, "filter", f"{case} filter at {eidx[bad]}: {gm[gi][bad]}, documented rules give "
             f"{mask[bad]} (normalized {norm[bad]}, irradiance {irr_e[bad]}, cell temperature "
             f"{tc_e[bad]})")
    mask = gm[gi]
    run.probe("rejected", int((~mask).sum()))
    run.probe("kept", int(mask.sum()))
    perf = getattr(t, case + "_aggregated_performance")
    ains = getattr(t, case + "_aggregated_insolation")
    if not mask.any():
        return None
    lab, agg, tot = ref.aggregate(eidx[mask], norm[mask], insol[mask], plan["freq"])
    if np.isinf(agg).any():         # night-time readings kept: nothing is specified for these
        run.log("infinite performance")
        return "skip"
    labi = lab.tz_localize(plan["tz"]) if plan["tz"] else lab
    am, amg = np.ones(len(lab), bool), np.full(len(lab), np.inf)
    fa = t.filter_params_aggregated
    ts = labi.asi8

    def acomb(m, mg):
        nonlocal am, amg
        am &= m
        amg = np.fmin(amg, mg)

    def period(a, key, default):
        return pd.Timedelta(a[key]).value if key in a else default
    with np.errstate(all="ignore"):
        if "two_way_window_filter" in fa:
            a = fa["two_way_window_filter"]
            acomb(*ref.two_way(ts, agg, period(a, "roll_period", 7 * ref.DAY),
                               a.get("outlier_threshold", 0.03)))
        if "insolation_filter" in fa:
            acomb(*ref.insolation(tot, fa["insolation_filter"].get("quantile", 0.1)))
        if "hampel_filter" in fa:
            a = fa["hampel_filter"]
            acomb(*ref.hampel(ts, agg, period(a, "k", 14 * ref.DAY), a.get("t0", 3)))
        if "directional_tukey_filter" in fa:
            a = fa["directional_tukey_filter"]
            acomb(*ref.tukey(ts, agg, period(a, "roll_period", 7 * ref.DAY), a.get("k", 1.5)))
    if fa.get("ad_hoc_filter") is not None:
        have = {k: bool(v == v and v) for k, v in zip(fa["ad_hoc_filter"].index.asi8.tolist(),
                                                     fa["ad_hoc_filter"].tolist())}
        acomb(np.array([have.get(int(k), True) for k in ts]), np.full(len(lab), np.inf))
    gota = getattr(t, case + "_filter_aggregated")
    need(gota.index.equals(labi), "aggregated_index",
         f"aggregated intervals {gota.index[:2]}..{gota.index[-2:]} are not {labi[:2]}..{labi[-2:]}")
    ga = gota.to_numpy(dtype=bool)
    bad = ref.same_mask(ga, am, amg, 1e-9)
    run.checks += len(lab)
    if bad is not None:
        need(False, "aggregated_filter", f"aggregated filter at {labi[bad]}: {ga[bad]}, documented "
             f"rules give {am[bad]} (performance {agg[bad]}, insolation {tot[bad]})")
    if not ga.any():
        return None
    w = np.flatnonzero(ga)
    keep = np.arange(w[0], w[-1] + 1)
    exp_p = np.where(ga, agg, np.nan)[keep]
    exp_i = np.where(ga, tot, np.nan)[keep]
    for nm, gotv, want in (("performance", perf, exp_p), ("insolation", ains, exp_i)):
        need(gotv.index.equals(labi[keep]), "published_index",
             f"aggregated {nm} is not on every interval from first to last kept: "
             f"{gotv.index[[0, -1]]} vs {labi[keep][[0, -1]]}")
        d = first_diff(gotv.to_numpy(dtype=float), want, rtol=1e-7, atol=1e-9)
        run.checks += len(want)
        if d is not None:
            need(False, nm, f"aggregated {nm} of {labi[keep][d]}: {gotv.iloc[d]!r}, documented "
                 f"steps give {want[d]!r}")
    return labi[keep]


H_NS = 3600 * 10**9


def check_results(t, plan, rd, run, err, span):
    """Published results against the public degradation and soiling functions."""
    case = plan["case"]
    perf = getattr(t, case + "_aggregated_performance", None)
    ains = getattr(t, case + "_aggregated_insolation", None)
    wanted, exc = {}, None
    np.random.seed(plan["nseed"] % 2**32)
    try:
        with session.quiet():
            if "yoy_degradation" in plan["analyses"]:
                if span is None or (span[-1] - span[0]) < pd.Timedelta("730d"):
                    raise ValueError("less than two years")
                r = rd.degradation_year_on_year(perf, **plan["yoy"])
                wanted["yoy_degradation"] = (r[0], list(np.ravel(r[1])) if r[1] is not None else
                                             None, r[2])
            if "srr_soiling" in plan["analyses"]:
                if plan["freq"] != "D":
                    raise ValueError("daily only")
                import sys
                r = sys.modules["rdtools.soiling"].soiling_srr(perf, ains, reps=10)
                wanted["srr_soiling"] = (r[0], list(np.ravel(r[1])), r[2])
    except Exception as e:
        if not isinstance(e, ValueError) and type(e).__name__ != "NoValidIntervalError" and (
                err is None or type(e) is not type(err)):
            raise
        exc = e
    run.checks += 1
    if err is not None and not isinstance(err, ValueError):
        need(isinstance(exc, type(err)), "refusal", f"analysis failed ({type(err).__name__}: "
             f"{err}); composed steps {'refuse: %s' % exc if exc else 'accept'}")
    if exc is not None or err is not None:
        need(exc is not None and err is not None, "refusal",
             f"analysis {'refused: %s' % err if err else 'accepted'}; composed steps "
             f"{'refuse: %s' % exc if exc else 'accept'}")
        need(case not in t.results, "refused_results", "a refused analysis published results")
        run.log("refused", type(err).__name__)
        return None
    got = t.results[case]
    need(set(got) == set(plan["analyses"]), "result_keys",
         f"results for {sorted(got)}, requested {plan['analyses']}")
    for k, (point, ci, info) in wanted.items():
        a = got[k]
        key, cik = (("p50_rd", "rd_confidence_interval") if k == "yoy_degradation" else
                    ("p50_sratio", "sratio_confidence_interval"))
        need(arr_close([a[key]], [point], 1e-12, 1e-12), k,
             f"{key} {a[key]} but the public function gives {point}")
        g = a[cik]
        need((g is None) == (ci is None) and (g is None or arr_close(np.ravel(g), ci, 1e-12, 1e-12)),
             k + "_ci", f"{cik} {g} but the public function gives {ci}")
        need(set(a["calc_info"]) == set(info), k + "_info", "calc_info has other entries")
        run.log(k, fl(a[key]))
    return got


def modelled(plan, rd, run):
    """Clear-sky irradiance modelled by the library, against pvlib used directly."""
    r = np.random.RandomState(plan["vseed"] % 2**32)
    lat, lon, tilt, az = plan["loc"]
    step = [10, 15, 30, 60][plan["vseed"] % 4]
    tz = plan["tz"] or "UTC"
    n = int(r.randint(2, 4) * 24 * 60 / step)
    idx = pd.date_range("2020-0%d-10" % r.randint(1, 9), periods=n, freq=f"{step}min", tz=tz)
    loc = pvlib.location.Location(lat, lon, altitude=0)
    minutes = pd.date_range(idx[0], idx[-1], freq="1min")
    cal = {}
    for a in ("sensor", "alb"):
        sun = loc.get_solarposition(minutes, method="nrel_numpy")
        clear = loc.get_clearsky(minutes, solar_position=sun)
        cal[a] = pvlib.irradiance.get_total_irradiance(
            tilt, az, sun["apparent_zenith"], sun["azimuth"], clear["dni"], clear["ghi"],
            clear["dhi"], albedo=0.25 if a == "sensor" else 0.4, model="isotropic")["poa_global"]
        if plan["vseed"] % 3:
            break
    m = cal["alb" if "alb" in cal else "sensor"].to_numpy()
    per = step
    mean = np.full(n, np.nan)
    for k in range(1, n):
        mean[k] = m[(k - 1) * per + 1: k * per + 1].mean()
    if np.nanmax(mean) < 300:
        run.log("polar night")
        return
    f = r.uniform(0.85, 1.15)
    poa = pd.Series(np.nan_to_num(mean) * f * np.where(r.rand(n) < 0.2, r.uniform(0.2, 0.7, n), 1.0),
                    index=idx)
    pv = poa * 5
    t = rd.TrendAnalysis(pv, poa_global=poa, temperature_cell=poa * 0 + 25.0, gamma_pdc=-0.004,
                         power_dc_rated=5000.0)
    kw = {"albedo": 0.4} if "alb" in cal else {}
    own_temp = plan["vseed"] // 7 % 2 == 0
    if own_temp:
        kw["temperature_cell_clearsky"] = poa * 0 + 25.0
    else:
        files.table_in_memory()
        with session.quiet():
            amb = rd.get_clearsky_tamb(idx, lat, lon)
        if amb.isna().any():
            run.log("no table values for this site")
            return
        t.temperature_model = [None, "close_mount_glass_glass"][plan["vseed"] // 14 % 2]
    t.set_clearsky(pvlib_location=loc, pv_tilt=tilt, pv_azimuth=az, **kw)
    t.filter_params["clearsky_filter"] = {"model": "csi"}
    try:
        with session.quiet():
            t.clearsky_analysis(analyses=[])
    except rd.normalization.ConvergenceError:
        run.log("rescaling did not converge")
        return
    got = t.poa_global_clearsky
    need(got.index.equals(idx), "clearsky_index", "modelled irradiance on another index")
    g = got.to_numpy()
    need(np.isnan(g[0]), "clearsky_first", "modelled irradiance for the time before the record")
    ok = mean > 1
    ratio = g[ok] / mean[ok]
    d = np.nanmax(ratio) - np.nanmin(ratio)
    need(d < 1e-6, "clearsky_shape", f"modelled irradiance is not pvlib's averaged over each "
         f"interval: ratio from {np.nanmin(ratio)} to {np.nanmax(ratio)} (step {step} min)")
    want = rd.irradiance_rescale(poa, pd.Series(mean, index=idx)).to_numpy() / mean
    want = np.nanmedian(want[ok])
    need(abs(np.nanmedian(ratio) - want) < 1e-3, "clearsky_scale",
         f"rescaled by {np.nanmedian(ratio)}, the public rescaling step gives {want}")
    if not own_temp:
        need(arr_close(t.temperature_ambient_clearsky.to_numpy(float), amb.to_numpy(float), 1e-12,
                       1e-12), "clearsky_ambient", "modelled ambient temperature is not the "
             "site's clear-sky temperature")
        prm = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS["sapm"][
            [None, "close_mount_glass_glass"][plan["vseed"] // 14 % 2] or "open_rack_glass_polymer"]
        need(arr_close(t.temperature_cell_clearsky.to_numpy(float),
                       ref.sapm(g, amb.to_numpy(float), 0.0, **prm), 1e-9, 1e-9), "clearsky_cell",
             "modelled cell temperature is not the temperature model's at the modelled irradiance "
             "and ambient temperature without wind")
        run.probe("modelled_temperature")
    run.checks += n
    run.nontrivial = True
    run.log("modelled", fl(np.nanmedian(ratio)))
    run.probe("modelled")


def execute(plan, run):
    rd = env.ensure()
    if plan["mode"] == "modelled":
        modelled(plan, rd, run)
        run.interleaving = run.digest()
        return
    S = Setup(plan, run)
    if not S.ok:
        run.log("hardly anything recorded")
        return
    mode = plan["mode"]
    if mode in ("rejected", "missing"):
        return metamorphic(plan, rd, run, S)
    t = S.analysis(rd)
    err = go(t, plan)
    try:
        span = None
        if hasattr(t, plan["case"] + "_filter") and (
                err is None or "two years" in str(err) or hasattr(
                    t, plan["case"] + "_aggregated_performance")):
            span = model(S, t, rd, run)
        if isinstance(span, str):
            return
        got = check_results(t, plan, rd, run, err, span)
    except Violation:
        raise
    run.log(mode, plan["case"], plan["freq"], "ok" if err is None else "refused")
    run.nontrivial = bool(run.faults) and run.probes.get("rejected", 0) > 0
    run.probe(mode + ":" + plan["case"])
    run.interleaving = run.digest()
    if mode == "truth" and got and "yoy_degradation" in got and plan["norm"] == "pvwatts":
        rd_ = got["yoy_degradation"]["p50_rd"]
        r = plan["rate"]
        # the rate is relative to the level in the first year that survived the filters
        ends = [100 * r, 100 * r / (1 + r * plan["days"] / 365)]
        need(min(ends) - 0.03 <= rd_ <= max(ends) + 0.03, "true_rate",
             f"imposed rate {100 * r:.3f} %/yr, reported {rd_:.4f} %/yr")
        run.checks += 1
        run.probe("rate_recovered")


def metamorphic(plan, rd, run, S):
    case = plan["case"]
    r = np.random.RandomState((plan["vseed"] + 7) % 2**32)
    idx = S.full_idx
    base_mask = pd.Series(True, index=idx)
    if S.fp.get("ad_hoc_filter") is not None and plan["mode"] == "rejected":
        base_mask &= S.fp["ad_hoc_filter"].reindex(idx).fillna(False).astype(bool)

    def outcome(**over):
        t = S.analysis(rd, **over)
        e = go(t, plan)
        return t, e

    if plan["mode"] == "rejected":
        rej = r.rand(len(idx)) < 0.08
        m = base_mask & ~pd.Series(rej, index=idx)
        fp = dict(S.fp, ad_hoc_filter=m)
        t1, e1 = outcome(fp=fp)
        off = set(idx[~m.to_numpy()].asi8.tolist())

        def wild(s):
            s = s.copy()
            k = np.array([x in off for x in s.index.asi8.tolist()]) & s.notna().to_numpy()
            # a neighbour that was lost is interpolated from this reading: leave those alone
            ok = s.notna().to_numpy()
            tt = s.index.asi8
            close = np.r_[True, (np.diff(tt) == plan["step"] * H_NS) & ok[1:] & ok[:-1], True]
            k &= close[1:] & close[:-1]
            v = s.to_numpy().copy()
            v[k] = r.choice([0.0, -40.0, 77.0, 650.0, 2e4, 1e9], k.sum())
            return pd.Series(v, index=s.index, name=s.name)
        t2, e2 = outcome(fp=fp, pv=wild(S.pv), poa=wild(S.poa), temp=wild(S.temp))
        what = "other values at readings the filter rejects"
        run.fault("wild_reading", len(off))
    else:
        lost = r.rand(len(idx)) < r.choice([0.01, 0.1])
        a, b = sorted(r.randint(0, len(idx), 2))
        lost[a:min(b, a + 60 * 24 // plan["step"])] = True
        pv2 = S.pv.where(~lost)
        S.fp.pop("ad_hoc_filter", None)
        S.fp.setdefault("normalized_filter", {})
        gone = np.isnan(pv2.to_numpy())
        if plan["pv_input"] == "power":     # an interval needs both of its ends
            gone = gone | np.r_[True, gone[:-1]]
        t1, e1 = outcome(fp=dict(S.fp, ad_hoc_filter=pd.Series(~gone, index=idx)))
        t2, e2 = outcome(pv=pv2)
        what = "the same readings missing instead of rejected"
        run.fault("loss", int(lost.sum()))
    run.checks += 1
    need((e1 is None) == (e2 is None), "influence_outcome", f"{what}: {e1!r} became {e2!r}")
    if e1 is None:
        for nm in ("_aggregated_performance", "_aggregated_insolation"):
            a, b = getattr(t1, case + nm), getattr(t2, case + nm)
            need(a.index.equals(b.index), "influence_index", f"{what}: {nm} covers other times")
            d = first_diff(a.to_numpy(), b.to_numpy(), 1e-12, 1e-12)
            if d is not None:
                need(False, "influence", f"{what} changed {case}{nm} of {a.index[d]}: "
                     f"{a.iloc[d]!r} -> {b.iloc[d]!r}")
        for k in t1.results[case]:
            for key, x in t1.results[case][k].items():
                if key == "calc_info" or x is None:
                    continue
                y = t2.results[case][k][key]
                need(arr_close(np.ravel(x), np.ravel(y), 1e-10, 1e-12), "influence_result",
                     f"{what} changed {k} {key}: {x} -> {y}")
                run.checks += 1
        run.log(plan["mode"], len(t1.results[case]))
    run.nontrivial = bool(run.faults)
    run.probe(plan["mode"] + ":" + case)
    run.interleaving = run.digest()
