"""Simulated PV plant for the availability properties.

Devices: n inverters, one revenue meter with an internal cumulative counter, one logger.  The
plan's events (grid outages, trips, partitions of a device from the logger, counter resets)
drive a small state machine tick by tick; the logger stores what reaches it.  `truth` keeps what
physically happened, for the oracles.
"""
import math

import numpy as np
import pandas as pd

ZONES = [None, "UTC", "US/Eastern", "Asia/Kolkata", "Australia/Sydney"]


def gen_plant(rng, emphasis):
    step = rng.choice([15, 30, 30, 60])
    days = rng.randint(8, 34)
    per_day = 24 * 60 // step
    n = days * per_day
    ninv = rng.choice([1, 2, 2, 3, 4, 6]) if emphasis == "system" else rng.choice([2, 2, 3, 4, 6])
    equal = rng.random() < 0.4
    sizes = [1.0] * ninv if equal else [round(rng.uniform(0.4, 3.0), 2) for _ in range(ninv)]
    spec = {"step": step, "days": days, "ninv": ninv, "sizes": sizes,
            "tz": rng.choice(ZONES), "start": rng.choice([0, 0, 0, 0, 6, 11, 14, 22]),
            "month": rng.choice([1, 3, 4, 6, 10, 11]), "cloud": rng.choice([0, 0.2, 0.6]),
            "eps": rng.choice([0.003, 0.01, 0.03]), "bias": rng.choice([1.0, 0.8, 1.3]),
            "eta": rng.choice([1.0, 1.0, 1.0, 0.985]), "c0": rng.choice([0.0, 5e5]),
            "night": rng.choice([0.0, 0.0, -0.02]), "peak": rng.choice([1.0, 100.0, 2e6]),
            "seed": rng.randint(0, 10**9)}
    ev = []

    def when():
        # favour daylight, dawn and dusk
        d = rng.randrange(days)
        h = rng.choice([rng.uniform(0, 24), rng.uniform(8, 16), rng.uniform(5, 8),
                        rng.uniform(16, 19)])
        return min(n - 1, int((d * 24 + h) * 60 / step))

    def length():
        return rng.choice([1, 1, 2, 3, rng.randint(1, per_day // 2), per_day,
                           rng.randint(per_day, 3 * per_day)])

    if emphasis == "system":
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            k = rng.choice(["grid", "partition", "partition"])
            e = {"kind": k, "t": when(), "len": length()}
            if rng.random() < 0.08:
                e["t"] = 0
            if rng.random() < 0.08:
                e["t"] = max(0, n - e["len"])
            e["value"] = rng.choice(["nan", "zero", "low", "neg"])
            e["counter"] = rng.choice(["nan", "true", "true", "hold", "zero"])
            e["use"] = rng.choice([0, 0, 0.002, 0.01])
            ev.append(e)
        for _ in range(rng.choice([0, 0, 0, 1])):
            ev.append({"kind": "reset", "t": when()})
        for _ in range(rng.choice([0, 0, 1, 2])):
            ev.append({"kind": "trip", "inv": rng.randrange(ninv), "t": when(),
                       "len": length(), "value": rng.choice(["nan", "zero"])})
        for _ in range(rng.choice([0, 0, 1])):
            ev.append({"kind": "meter_gap", "t": when(), "len": length()})
    else:
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            ev.append({"kind": rng.choice(["trip", "inv_partition"]), "t": when(),
                       "inv": rng.randrange(ninv), "len": length(),
                       "value": rng.choice(["nan", "zero", "low", "neg"])})
        for _ in range(rng.choice([0, 0, 0, 1])):
            ev.append({"kind": "meter_gap", "t": when(), "len": length()})
        for _ in range(rng.choice([0, 0, 1])):
            ev.append({"kind": "grid", "t": when(), "len": length(), "value": "zero",
                       "counter": "true", "use": 0})
    return spec, ev


LOW = {"nan": math.nan, "zero": 0.0, "low": 1e-6, "neg": -1e-6}


class Plant:
    def __init__(self, spec, events, run):
        s = spec
        self.spec = s
        step = s["step"]
        n = s["days"] * 24 * 60 // step
        self.n, self.dt = n, step / 60
        idx = pd.date_range(f"2019-{s['month']:02d}-05", periods=n, freq=f"{step}min",
                            tz="UTC") + pd.Timedelta(hours=s["start"])
        idx = idx.tz_localize(None) if s["tz"] is None else idx.tz_convert(s["tz"])
        self.index = idx
        rs = np.random.RandomState(s["seed"])
        hours = (s["start"] + np.arange(n) * self.dt) % 24
        sun = np.cos((hours - 12) / 24 * 2 * np.pi) - 0.15
        sun[sun < 0.03] = 0
        c = 1 - s["cloud"] * rs.random_sample(n)
        g = sun * c * s["peak"]
        size = np.array(s["sizes"])
        self.size = size
        potential = g[:, None] * size[None, :]
        self.potential = potential
        self.full = potential.sum(axis=1)
        up = np.ones((n, s["ninv"]), bool)          # physically producing
        seen = np.ones((n, s["ninv"]), bool)        # reaches the logger
        low = np.zeros((n, s["ninv"]))
        meter_seen = np.ones(n, bool)
        counter_mode = np.array(["ok"] * n, dtype=object)
        meter_low = np.full(n, math.nan)
        use = np.zeros(n)
        resets = set()
        nominal = size.sum() * s["peak"]
        for e in sorted(events, key=lambda e: (e["t"], e["kind"])):
            a, b = e["t"], min(n, e["t"] + e.get("len", 1))
            k = e["kind"]
            run.log("event", k, a, b, e.get("inv"))
            if a >= n:
                continue
            run.fault(k)
            if k == "reset":
                resets.add(a)
                continue
            val = LOW[e.get("value", "nan")]
            if abs(val) > 0:
                val *= s["peak"]
            if k == "trip":
                up[a:b, e["inv"]] = False
                seen[a:b, e["inv"]] &= e["value"] != "nan"
                low[a:b, e["inv"]] = 0 if math.isnan(val) else val
            elif k == "inv_partition":
                seen[a:b, e["inv"]] = False
                low[a:b, e["inv"]] = val
            elif k == "meter_gap":
                meter_seen[a:b] = False
            elif k == "grid":
                up[a:b] = False
                use[a:b] = np.maximum(use[a:b], e["use"] * nominal)
                if e["value"] == "nan":
                    seen[a:b] = False
                    low[a:b] = math.nan
                    meter_seen[a:b] = False
                    meter_low[a:b] = math.nan
                    counter_mode[a:b] = e["counter"]
            elif k == "partition":
                seen[a:b] = False
                low[a:b] = val
                meter_seen[a:b] = False
                meter_low[a:b] = min(val, 0.0) if val == val else val
                counter_mode[a:b] = e["counter"]
        produced = np.where(up, potential, 0.0)
        self.produced = produced.sum(axis=1) * s["eta"]
        self.lost = np.where(up, 0.0, potential).sum(axis=1)
        self.up, self.seen = up, seen
        # device side counter, tick by tick
        total = np.empty(n)
        acc = s["c0"]
        self.reset_at = resets
        for i in range(n):
            if i in resets:
                acc = 0.0
            if i:
                acc += (self.produced[i] - use[i]) * self.dt
            total[i] = acc
        self.total = total
        # what the logger stored
        inv = np.where(seen, np.where(up, potential, low), low)
        if s["night"]:
            dark = g <= 0
            inv = np.where(dark[:, None] & seen, s["night"] * s["peak"] * 1e-3, inv)
        meter = np.where(meter_seen, self.produced - use, meter_low)
        cum = total.copy()
        for i in range(n):
            m = counter_mode[i]
            if m == "nan":
                cum[i] = math.nan
            elif m == "zero":
                cum[i] = 0.0
            elif m == "hold":
                cum[i] = cum[i - 1] if i else math.nan
        self.honest = np.array([m in ("ok", "true") for m in counter_mode])
        exp = self.full * s["bias"] * (1 + s["eps"] * (2 * rs.random_sample(n) - 1))
        exp[g <= 0] = 0.0
        self.inv, self.meter, self.cum, self.exp = inv, meter, cum, exp
        run.sim_seconds += n * step * 60
        run.steps += n

    def series(self):
        cols = [f"inv{i}" for i in range(self.spec["ninv"])]
        return (pd.Series(self.meter, self.index, name="meter"),
                pd.DataFrame(self.inv, self.index, columns=cols),
                pd.Series(self.cum, self.index, name="kwh"),
                pd.Series(self.exp, self.index, name="expected"))


# --------------------------------------------------------------- reference model
def quantile(a, q):
    """Linear-interpolation quantile of the non-NaN values."""
    a = np.sort(a[~np.isnan(a)])
    if len(a) == 0:
        return math.nan
    k = (len(a) - 1) * q
    i = int(math.floor(k))
    j = min(i + 1, len(a) - 1)
    return a[i] + (a[j] - a[i]) * (k - i)


def near(a, b, rel=1e-9):
    return np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b))


def ref_subsystem(inv, meter, thr=None, sizes=None, limit=None):
    """Loss per step, online mask, and a mask of steps too close to a decision boundary."""
    n, m = inv.shape
    p = np.where(np.isnan(inv), 0.0, inv)
    sysp = np.where(np.isnan(meter), math.nan, np.maximum(meter, 0))
    if thr is None:
        thr = np.array([quantile(p[:, j], 0.99) / 1000 for j in range(m)])
    thr = np.broadcast_to(np.asarray(thr, float), (m,))
    on = p > thr[None, :]
    ambig = (near(p, thr[None, :]) & (p != 0)).any(axis=1)
    some = on.any(axis=1)
    if sizes is None:
        sizes = np.empty(m)
        with np.errstate(all="ignore"):
            mean = np.where(on, p, 0).sum(axis=1) / on.sum(axis=1)
            for j in range(m):
                r = (p[:, j] / mean)[on[:, j]]
                sizes[j] = np.median(r) if len(r) else math.nan
    frac = sizes / np.nansum(sizes)
    loss = np.zeros(n)
    for i in range(n):
        if not some[i] or on[i].all() or math.isnan(sysp[i]):
            continue
        norm = [p[i, j] / sizes[j] for j in range(m) if on[i, j]]
        full = sum(norm) / len(norm) * m
        delta = 1 - sysp[i] / full
        limit_d = 0.75 * min((frac[j] for j in range(m)
                              if not on[i, j] and not math.isnan(frac[j])), default=1.0)
        if abs(delta - limit_d) < 1e-9:
            ambig[i] = True
        if not delta > limit_d:
            continue
        f = min(max(sysp[i] / full, sum(frac[j] for j in range(m) if on[i, j])), 1)
        # all of the plant's power missing although an inverter reports: bounded by what is online
        v = (1 - f) / f * sysp[i]
        if limit is not None:
            lim = limit[i] if np.ndim(limit) else limit
            if v + sysp[i] > lim:
                v = max(lim - sysp[i], 0)
        loss[i] = v
    return loss, on, ambig


def interval_energy(p, dt):
    """Energy per right-labelled interval of a regular series (NaN next to missing readings)."""
    e = np.full(len(p), math.nan)
    ok = ~np.isnan(p)
    e[1:][ok[1:] & ok[:-1]] = p[1:][ok[1:] & ok[:-1]] * dt
    return e


def ref_system(plant, on, loss_sub, quantiles):
    """Everything `_calc_error_distributions` and `_calc_loss_system` should report."""
    dt, exp0, meter, cum = plant.dt, plant.exp, plant.meter, plant.cum
    n = plant.n
    with np.errstate(invalid="ignore"):
        subset = (loss_sub == 0) & (meter > 0) & (exp0 > 0)
    factor = exp0[subset].sum() / meter[subset].sum()
    exp = exp0 / factor
    expE = interval_energy(exp, dt)
    metE = interval_energy(meter, dt)
    a, b = metE[subset], expE[subset]
    lengths = [2 ** k for k in range(1, int(math.log2(len(a))))]
    lo, hi = [], []
    for w in lengths:
        ca = np.convolve(a, np.ones(w), "valid")
        cb = np.convolve(b, np.ones(w), "valid")
        err = ca / cb - 1
        lo.append(quantile(err, quantiles[0]))
        hi.append(quantile(err, quantiles[1]))
    off = ~on.any(axis=1)
    day = exp0 > 0
    full = np.zeros(n, bool)
    last = None
    for i in range(n):
        if day[i]:
            last = off[i]
        full[i] = bool(last)
    nxt = None
    for i in range(n - 1, -1, -1):
        if day[i]:
            nxt = off[i]
        full[i] = full[i] or bool(nxt)
    out = []
    i = 0
    while i < n:
        if not full[i]:
            i += 1
            continue
        j = i
        while j + 1 < n and full[j + 1]:
            j += 1
        nd = int(day[i:j + 1].sum())
        E = float(np.nansum(expE[i:j + 1]))
        s = cum[i - 1] if i else math.nan
        act = cum[j] - s
        margin = [abs(act + 0.05 * E)]
        if act < -0.05 * E:
            act = math.nan
        L = float(np.interp(nd, lengths, lo))
        H = float(np.interp(nd, lengths, hi))
        cl, cu = (1 + L) * E, (1 + H) * E
        margin.append(abs(act - cl))
        if math.isnan(act):
            kind, loss = "unknown", math.nan
        elif act < cl:
            kind, loss = "real", E - act
        else:
            kind, loss = "comms", 0.0
        out.append(dict(i=i, j=j, daylight=nd, expected=E, start=s, end=cum[j], actual=act,
                        ci=(cl, cu), type=kind, loss=loss,
                        ambiguous=min(x for x in margin + [math.inf] if not math.isnan(x))
                        <= 1e-9 * max(E, 1e-300)))
        i = j + 1
    if full.all():
        out = []
    lost = np.zeros(n)
    fixed = cum.copy()
    for o in out:
        sl = slice(o["i"], o["j"] + 1)
        tot = np.nansum(expE[sl])
        lost[sl] = exp[sl] * o["loss"] / tot if tot else math.nan
        e = expE[sl]
        run = np.where(np.isnan(e), math.nan, np.cumsum(np.where(np.isnan(e), 0, e)))
        fixed[sl] = o["start"] + run * o["actual"] / tot if tot else math.nan
    return dict(outages=out, lost=lost, fixed=fixed, exp=exp, expE=expE, factor=factor)
