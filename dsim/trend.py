"""Sessions on long-lived analysis objects: actions, settings model, reference runs."""
import sys

import numpy as np

from . import ops, session, world

KINDS = ["trend", "trend", "trend", "avail", "srr", "cods"]

# ------------------------------------------------------------------ generation


def gen_setting(rng):
    """One settings change on a TrendAnalysis, valid or invalid."""
    r = rng.random()
    if r < 0.22:
        bad = rng.choice(["bogus", "Poa_filter", "csi_filter", "two_way_window_filter", "", 7])
        how = rng.choice(["item", "update", "update_kw", "setter", "setter_type", "update_mixed"])
        return {"do": "bad_setting", "agg": rng.random() < 0.4, "how": how, "key": bad}
    if r < 0.62:
        k, v = rng.choice([
            ("poa_filter", {"poa_global_low": 300}), ("poa_filter", {"poa_global_high": 900}),
            ("poa_filter", {}), ("normalized_filter", {"energy_normalized_low": 0.2}),
            ("normalized_filter", {}), ("tcell_filter", {"temperature_cell_high": 60}),
            ("tcell_filter", {}), ("clip_filter", {"model": "quantile"}), ("clip_filter", {}),
            ("clip_filter", {"model": "quantile", "quantile": 0.9}), ("ad_hoc_filter", "mask"),
            ("ad_hoc_filter", "mask_nan"), ("ad_hoc_filter", None),
            ("clearsky_filter", {"model": "csi", "threshold": 0.3}),
            ("clearsky_filter", {"model": "csi"})])
        return {"do": "set", "agg": False, "key": k, "value": v, "how": rng.choice(
            ["item", "update", "update_kw", "nested"])}
    if r < 0.8:
        k, v = rng.choice([
            ("two_way_window_filter", {}), ("two_way_window_filter", {"outlier_threshold": 0.02}),
            ("insolation_filter", {}), ("hampel_filter", {}), ("hampel_filter", {"k": "30d"}),
            ("directional_tukey_filter", {}), ("ad_hoc_filter", "amask"),
            ("ad_hoc_filter", "amask_nan"), ("ad_hoc_filter", None)])
        return {"do": "set", "agg": True, "key": k, "value": v,
                "how": rng.choice(["item", "update", "nested"])}
    if r < 0.9:
        return {"do": "delete", "agg": rng.random() < 0.4,
                "key": rng.choice(["poa_filter", "tcell_filter", "clip_filter",
                                   "normalized_filter", "two_way_window_filter",
                                   "hampel_filter", "ad_hoc_filter"])}
    agg = rng.random() < 0.5
    v = rng.choice([{"two_way_window_filter": {}}, {}, {"hampel_filter": {}}] if agg else
                   [{"poa_filter": {}, "clearsky_filter": {"model": "csi"}},
                    {"poa_filter": {}, "normalized_filter": {}, "clearsky_filter":
                        {"model": "csi"}, "ad_hoc_filter": "mask"}])
    return {"do": "replace", "agg": agg, "value": v}


def gen_run(rng, kind):
    if kind == "trend":
        return {"do": "run", "case": rng.choice(["sensor", "sensor", "clearsky"]),
                "analyses": rng.choice([None, None, ["yoy_degradation"], ["srr_soiling"],
                                        ["yoy_degradation", "srr_soiling"],
                                        ["srr_soiling", "yoy_degradation"], []]),
                "yoy": rng.choice([0, 0, 1, 2]), "srr": rng.choice([0, 1])}
    if kind == "avail":
        return {"do": "run", "v": rng.randint(0, 8)}
    return {"do": "run", "v": rng.randint(0, 6)}


def gen_actions(rng, kind, n, faults=0.0, bad=0.15):
    out = []
    for _ in range(n):
        r = rng.random()
        if kind == "trend" and r < 0.45:
            out.append(gen_setting(rng))
        elif r < 0.55 and kind in ("trend", "avail"):
            out.append({"do": "plot", "v": rng.randint(0, 5)})
        elif r < 0.55 + bad:
            out.append({"do": "bad_run", "v": rng.randint(0, 5)})
        else:
            a = gen_run(rng, kind)
            if rng.random() < faults:
                nm = {"trend": "sensor", "avail": "availability", "srr": "srr",
                      "cods": "cods_point"}[kind]
                a["fault"] = session.gen_fault(rng, nm)
            out.append(a)
    return out


# ------------------------------------------------------------------ objects
def _val(I, v):
    return I[v] if isinstance(v, str) else (dict(v) if isinstance(v, dict) else v)


def build(rd, I, kind, p):
    if kind == "trend":
        t = ops.make_trend(rd, I, p)
        ops.set_clear(t, I, p // 6)
        return t
    if kind == "avail":
        return rd.AvailabilityAnalysis(I["system"], I["sub"], I["cum"], I["aexp"])
    so = sys.modules["rdtools.soiling"]
    if kind == "srr":
        return so.SRRAnalysis(I["daily"], I["insol"], I["rain"] if p % 2 else None)
    return so.CODSAnalysis(I["long"])


def own(d):
    """A copy sharing no dictionary with d."""
    return {k: dict(v) if isinstance(v, dict) else v for k, v in d.items()}


class Model:
    """What the caller knows about one object: its settings."""

    def __init__(self, obj, kind):
        self.kind = kind
        if kind == "trend":
            self.fp = own(obj.filter_params)
            self.fa = own(obj.filter_params_aggregated)

    def copy(self):
        m = object.__new__(Model)
        m.kind = self.kind
        if self.kind == "trend":
            m.fp, m.fa = own(self.fp), own(self.fa)
        return m

    def digest(self):
        return world.digest([self.fp, self.fa]) if self.kind == "trend" else ""


def settings_of(obj, kind):
    if kind != "trend":
        return ""
    return world.digest([dict(obj.filter_params), dict(obj.filter_params_aggregated)])


def published(obj, kind):
    """The results an object publishes (None when nothing has been published)."""
    if kind == "trend":
        return obj.results
    if kind == "avail":
        return getattr(obj, "results", None)
    return None


def apply_setting(obj, model, I, a):
    """Settings change; returns None or ('accepted'|'rejected', exception)."""
    d = obj.filter_params_aggregated if a.get("agg") else obj.filter_params
    md = model.fa if a.get("agg") else model.fp
    do = a["do"]
    if do == "set":
        v = _val(I, a["value"])
        if a["how"] == "nested":
            if isinstance(md.get(a["key"]), dict) and isinstance(v, dict):
                d[a["key"]].update(v)
                md[a["key"]].update(v)
            return None
        if a["how"] == "item":
            d[a["key"]] = v
        elif a["how"] == "update":
            d.update({a["key"]: v})
        else:
            d.update(**{a["key"]: v})
        md[a["key"]] = _val(I, a["value"])
        return None
    if do == "delete":
        if a["key"] in md:
            del d[a["key"]]
            del md[a["key"]]
        return None
    if do == "replace":
        v = {k: _val(I, x) for k, x in a["value"].items()}
        if a.get("agg"):
            obj.filter_params_aggregated = v
            model.fa = own(v)
        else:
            obj.filter_params = v
            model.fp = own(v)
        return None
    # an invalid change: must raise and leave the settings alone
    key = a["key"]
    if a.get("agg") and key == "two_way_window_filter":
        key = "poa_filter"
    try:
        if a["how"] == "item":
            d[key] = {}
        elif a["how"] == "update":
            d.update({key: {}})
        elif a["how"] == "update_mixed":
            good = "hampel_filter" if a.get("agg") else "poa_filter"
            d.update({good: {"k": "3d"} if a.get("agg") else {"poa_global_low": 1}, key: {}})
        elif a["how"] == "update_kw":
            d.update(**{str(key) or "x": {}})
        elif a["how"] == "setter":
            setattr(obj, "filter_params_aggregated" if a.get("agg") else "filter_params",
                    {key: {}})
        else:
            setattr(obj, "filter_params_aggregated" if a.get("agg") else "filter_params",
                    [("poa_filter", {})])
    except (KeyError, ValueError, TypeError) as e:
        return "rejected", session.strip(e)
    return "accepted", None


def run_kwargs(I, kind, a):
    if kind == "trend":
        kw = {}
        if a["analyses"] is not None:
            kw["analyses"] = list(a["analyses"])
        if a["yoy"]:
            kw["yoy_kwargs"] = [I["yoy_kwargs"], {"recenter": False}][a["yoy"] - 1]
        if kw.get("analyses") and "srr_soiling" in kw["analyses"]:
            kw["srr_kwargs"] = [I["srr_kwargs"], {"reps": 8, "method": "random_clean"}][a["srr"]]
        return kw
    if kind == "avail":
        return [{}, {"relative_sizes": I["sizes"]}, {"power_system_limit": 250.0},
                {"quantiles": (0.05, 0.95), "rollup_period": "W"}, {"low_threshold": 1.0},
                {"rollup_period": "D"}, {"relative_sizes": I["sizes_s"]},
                {"power_system_limit": I["plimit"]}, {"low_threshold": I["low"]}][a["v"]]
    if kind == "srr":
        return [{"reps": 8}, {"reps": 8, "method": "random_clean"},
                {"reps": 8, "method": "perfect_clean"}, {"reps": 8, "clean_criterion": "shift"},
                {"reps": 8, "trim": True, "confidence_level": 90}, {"reps": 8, "day_scale": 7},
                {"reps": 8, "recenter": False}][a["v"]]
    return [{"max_iterations": 4}, {"max_iterations": 4, "order": ("SC", "SR", "Rd")},
            {"max_iterations": 4, "ffill": False}, {"max_iterations": 4, "clip_soiling": False},
            {"max_iterations": 4, "cleaning_sensitivity": 0.3},
            {"max_iterations": 4, "order": ("SR", "Rd")}, {"max_iterations": 5}][a["v"]]


def do_run(obj, kind, I, a):
    """Run the analysis; returns what this run reports (published part or returned value)."""
    kw = run_kwargs(I, kind, a)
    if kind == "trend":
        getattr(obj, a["case"] + "_analysis")(**kw)
        case = a["case"]
        return [obj.results[case], getattr(obj, case + "_aggregated_performance"),
                getattr(obj, case + "_filter")]
    if kind == "avail":
        obj.run(**kw)
        return [obj.results, obj.loss_total, obj.outage_info, obj.energy_cumulative_corrected]
    if kind == "srr":
        return list(obj.run(**kw))
    r = obj.iterative_signal_decomposition(**kw)
    return [r[0], r[1]]


def bad_run(obj, kind, I, a):
    """An attempt that must fail because of invalid run arguments."""
    v = a["v"]
    if kind == "trend":
        if v % 3 == 0:
            obj.sensor_analysis(yoy_kwargs={"nonsense": 1})
        elif v % 3 == 1:
            obj.sensor_analysis(analyses=["yoy_degradation", "srr_soiling"],
                                srr_kwargs={"method": "nonsense", "reps": 5})
        else:
            obj.clearsky_analysis(analyses=["srr_soiling"], srr_kwargs={"nope": 2})
    elif kind == "avail":
        if v % 2:
            obj.run(rollup_period="not a period")
        else:
            obj.run(relative_sizes={"zzz": "x"})
    elif kind == "srr":
        obj.run(reps=5, method="nonsense")
    else:
        obj.iterative_signal_decomposition(order=("SC", "Rd"))


def plot(obj, kind, I, a):
    v = a["v"]
    case = "sensor" if v % 2 == 0 else "clearsky"
    if kind == "avail":
        return obj.plot()
    if v < 2:
        return obj.plot_degradation_summary(case)
    if v < 4:
        return obj.plot_pv_vs_irradiance(case)
    return obj.plot_soiling_interval(case)


def attempt(fn, *args, sim=None, fault=None, seed=None, run=None):
    """Call fn; returns (value, exception, fired)."""
    if seed is not None:
        np.random.seed(seed)
    if fault:
        sim.arm(fault["at"], lambda: session.make_exc(fault["kind"]), distinct=fault["distinct"])
    v = e = fired = None
    try:
        with session.quiet():
            v = fn(*args)
    except (Exception, KeyboardInterrupt) as ex:
        e = session.strip(ex)
    if fault:
        f, _ = sim.disarm()
        fired = f["fired"]
        if fired and run is not None:
            run.fault(fault["kind"])
            run.log("fault", fault["kind"], *fired)
    return v, e, fired


def reference(rd, spec, kind, p, model, I, a, seed):
    """The same run on a newly made object with the same inputs and current settings."""
    obj = build(rd, I, kind, p)
    if kind == "trend":
        obj.filter_params.clear()
        obj.filter_params.update(own(model.fp))
        obj.filter_params_aggregated.clear()
        obj.filter_params_aggregated.update(own(model.fa))
    return attempt(do_run, obj, kind, I, a, seed=seed)
