"""Simulated site data shared by the session properties, and canonical digests of results."""
import hashlib
import math

import numpy as np
import pandas as pd


# ------------------------------------------------------------------ site data
def site(spec):
    """All caller-owned inputs of a session, built from a small JSON spec.

    spec: seed, days, step_h, tz, named, drop (fraction of rows lost), nan (fraction NaN),
    gap (list of [day, length_days]), freq (keep index.freq when the index is regular)
    """
    rs = np.random.RandomState(spec["seed"] % (2**32))
    days, step = spec["days"], spec["step_h"]
    n = int(days * 24 / step)
    idx = pd.date_range("2019-01-01", periods=n, freq=pd.Timedelta(hours=step), tz=spec.get("tz"))
    h = ((np.arange(n) * step) % 24).astype(float)
    d = np.arange(n) * step / 24.0
    sun = np.clip(np.sin((h - 6) / 12 * np.pi), 0, None)
    cloud = np.where(rs.rand(n) < 0.35, rs.uniform(0.3, 0.9, n), 1.0)
    cs = 1000 * sun * (1 + 0.1 * np.cos(2 * np.pi * d / 365.25))
    poa = cs * cloud * rs.uniform(0.98, 1.0, n)
    tamb = 15 + 10 * np.sin(2 * np.pi * (d - 100) / 365.25) + 4 * sun + rs.normal(0, 1, n)
    tcell = tamb + 0.03 * poa
    rate = spec.get("rate", -0.01)
    soil = 1 - 0.001 * (d % 45)
    power = 5.0 * poa * (1 - 0.004 * (tcell - 25)) * (1 + rate * d / 365) * soil
    power *= rs.normal(1, 0.01, n)
    power = np.minimum(power, spec.get("clip", 4600.0))
    S = {}

    def put(name, v, index=idx):
        s = pd.Series(v, index=index, name=name if spec.get("named") else None)
        S[name] = s

    put("power", power)
    put("poa", poa)
    put("tamb", tamb)
    put("tcell", tcell)
    put("wind", rs.uniform(0, 6, n))
    put("expected", 5.0 * poa * (1 - 0.004 * (tcell - 25)))
    put("poa_cs", cs)
    put("tamb_cs", 15 + 10 * np.sin(2 * np.pi * (d - 100) / 365.25) + 4 * sun)
    put("tcell_cs", S["tamb_cs"].to_numpy() + 0.03 * cs)
    for i, k in enumerate(("power", "poa", "tamb", "tcell", "expected")):
        s = S[k]
        if spec.get("nan"):
            s[rs.rand(n) < spec["nan"]] = np.nan
        for a, ln in spec.get("gap", ()):
            s[(d >= a) & (d < a + ln)] = np.nan
        keep = rs.rand(n) >= (spec.get("drop") or 0)
        if spec.get("drop") and (k != "power" or spec.get("drop_power")):
            S[k] = s[keep]
    # daily records for the degradation and soiling steps
    m = int(days)
    didx = pd.date_range("2019-01-01", periods=m, freq="D", tz=spec.get("tz"))
    x = np.arange(m)
    daily = (1 + rate * x / 365) * (1 - 0.002 * (x % 50)) * (1 + 0.03 * np.cos(2 * np.pi * x / 365)) \
        * rs.normal(1, 0.004, m)
    put("daily", daily, didx)
    put("insol", 5000 + 800 * np.cos(2 * np.pi * x / 365) + rs.uniform(-500, 0, m), didx)
    put("rain", np.where(x % 50 == 0, 8.0, 0.0), didx)
    if spec.get("nan"):
        S["daily"][rs.rand(m) < spec["nan"]] = np.nan
    if spec.get("gap"):
        for a, ln in spec["gap"]:
            S["daily"].iloc[int(a):int(a + ln)] = np.nan
    # a longer daily record for the combined degradation and soiling analysis
    lidx = pd.date_range("2018-01-01", periods=1100, freq="D", tz=spec.get("tz"))
    y = np.arange(1100)
    put("long", (1 + rate * y / 365) * (1 - 0.003 * (y % 60)) * (1 + 0.05 * np.cos(
        2 * np.pi * y / 365)) * rs.normal(1, 0.01, 1100), lidx)
    if spec.get("nan"):
        S["long"][rs.rand(1100) < spec["nan"]] = np.nan
    # a month of inverter data
    k = int(spec.get("avail_days", 20) * 24)
    aidx = pd.date_range("2019-03-01", periods=k, freq="h", tz=spec.get("tz"))
    sun1 = np.clip(np.sin((np.arange(k) % 24 - 6) / 12 * np.pi), 0, None)
    sizes = np.array([1.0, 1.5, 0.5])
    sub = pd.DataFrame({f"inv{j}": 100 * sizes[j] * sun1 * rs.uniform(.95, 1, k)
                        for j in range(3)}, index=aidx)
    off = rs.randint(0, k - 30)
    sub.iloc[off:off + 20, 1] = 0
    system = sub.sum(axis=1)
    o2 = rs.randint(48, k - 60)
    cum = system.cumsum()
    how = rs.randint(0, 4)
    sub.iloc[o2:o2 + 14, :] = np.nan if how < 2 else 0.0
    system.iloc[o2:o2 + 14] = np.nan if how < 2 else 0.0
    if how == 0:
        cum.iloc[o2:o2 + 13] = np.nan       # the meter is silent, too
    elif how == 1:
        cum.iloc[o2:o2 + 13] = cum.iloc[o2 - 1]     # its last value is repeated
    elif how == 3:
        cum.iloc[o2:] -= cum.iloc[o2 + 14] - cum.iloc[o2 - 1]   # a real outage
    S["sub"] = sub
    S["system"] = system.rename("meter" if spec.get("named") else None)
    S["cum"] = cum.rename("kwh" if spec.get("named") else None)
    S["system_odd"] = S["system"].copy()        # inverters report what the meter does not see
    S["system_odd"].iloc[off - 10 if off > 10 else off:off + 15] = 0.0
    S["aexp"] = pd.Series(330 * sun1, index=aidx)
    S["sizes"] = {"inv0": 1.0, "inv1": 1.5, "inv2": 0.5}
    S["sizes_s"] = pd.Series(S["sizes"]) * 1.0
    S["plimit"] = pd.Series(np.where(np.arange(k) % 7 < 5, 250.0, 180.0), index=aidx)
    S["low"] = pd.Series({"inv0": 1.0, "inv1": 2.0, "inv2": 0.5})
    # masks and settings dictionaries the caller keeps
    S["mask"] = pd.Series(rs.rand(n) > 0.02, index=idx)
    mn = pd.Series(np.where(rs.rand(n) < 0.98, True, False), index=idx).astype(object)
    mn[rs.rand(n) < 0.01] = np.nan
    S["mask_nan"] = mn
    am = pd.Series(rs.rand(m) > 0.02, index=didx)
    S["amask"] = am
    amn = am.astype(object)
    amn[rs.rand(m) < 0.02] = np.nan
    S["amask_nan"] = amn
    S["two"] = pd.DataFrame({"a": power, "b": poa}, index=idx)
    S["pvw"] = {"poa_global": S["poa"], "power_dc_rated": 5000.0, "temperature_cell": S["tcell"],
                "poa_global_ref": 1000, "temperature_cell_ref": 25, "gamma_pdc": -0.004}
    S["target"] = idx[::3]
    S["yoy_kwargs"] = {"confidence_level": 90.0, "exceedance_prob": 90}
    S["srr_kwargs"] = {"reps": 12}
    fidx = pd.date_range("2019-06-01", periods=2 * 144, freq="10min", tz=spec.get("tz"))
    fcs = 1000 * np.clip(np.sin((np.arange(288) % 144 / 6 - 6) / 12 * np.pi), 0, None)
    S["fine_cs"] = pd.Series(fcs, index=fidx)
    S["fine"] = S["fine_cs"] * np.where((np.arange(288) // 9) % 4 == 1, rs.uniform(.3, .8, 288), 1)
    ok = daily.copy()
    odd = {"unsorted": pd.Series(ok, index=didx).iloc[rs.permutation(m)],
           "constant": pd.Series(1.0, index=didx), "nothing": pd.Series(np.nan, index=didx),
           "empty": pd.Series([], index=didx[:0], dtype=float),
           "integers": pd.Series((np.nan_to_num(ok) * 100).astype(int), index=didx),
           "single": pd.Series(ok.astype("float32"), index=didx),
           "gappy": pd.Series(ok, index=didx).iloc[np.r_[0:3, 40:44, 365:369, m - 4:m]],
           "no_pairs": pd.Series(ok, index=didx).iloc[np.r_[0:5, 200:206, m - 5:m]],
           "twice": pd.Series(ok, index=didx).iloc[np.sort(rs.randint(0, m, m))],
           "infinite": pd.Series(np.where(rs.rand(m) < 0.01, np.inf, ok), index=didx)}
    S["odd"] = odd
    S["tmodel"] = {"a": -3.47, "b": -0.0594, "deltaT": 3}
    S["quantiles"] = (0.01, 0.99)
    if not spec.get("freq", True):
        for key, s in list(S.items()):
            if isinstance(s, (pd.Series, pd.DataFrame)) and key not in (
                    "daily", "insol", "long", "sizes_s", "low"):
                s = s.copy()
                s.index = pd.DatetimeIndex(s.index, freq=None)
                S[key] = s
    return S


def site_spec(rng, small=True):
    return {"seed": rng.randint(0, 10**9), "days": rng.choice([733, 740, 765]),
            "step_h": rng.choice([3, 4, 4, 6]),
            "tz": rng.choice([None, "Etc/GMT+7", "America/Denver"]) if rng.random() < 0.5
            else "Etc/GMT+7",
            "named": rng.random() < 0.6, "drop": rng.choice([0, 0, 0.01]), "drop_power": rng.random() < 0.3,
            "nan": rng.choice([0, 0.01, 0.03]),
            "gap": [[rng.randint(20, 700), rng.choice([2, 16])]
                    for _ in range(rng.choice([0, 1, 2]))],
            "freq": rng.random() < 0.7, "rate": rng.choice([-0.02, -0.005, 0.0]),
            "clip": rng.choice([4600.0, 4000.0])}


# ------------------------------------------------------------------ canonical form
def _feed(h, o, depth=0):
    if depth > 12:
        h.update(b"deep")
        return
    if o is None or isinstance(o, (bool, int, str, bytes)):
        h.update(repr(o).encode())
    elif isinstance(o, (float, np.floating)):
        f = float(o)
        h.update(b"nan" if math.isnan(f) else np.float64(f).tobytes())
    elif isinstance(o, (np.integer, np.bool_)):
        h.update(repr(o.item()).encode())
    elif isinstance(o, pd.Series):
        h.update(b"S")
        h.update(repr(o.name).encode())
        _feed(h, o.index, depth + 1)
        _feed(h, o.array, depth + 1)
    elif isinstance(o, pd.DataFrame):
        h.update(b"F")
        _feed(h, list(map(str, o.columns)), depth + 1)
        h.update(repr(o.columns.name).encode())
        _feed(h, o.index, depth + 1)
        for c in range(o.shape[1]):
            _feed(h, o.iloc[:, c].array, depth + 1)
    elif isinstance(o, pd.DatetimeIndex):
        h.update(repr((o.name, str(o.tz), str(o.dtype), None if o.freq is None else
                       o.freq.freqstr)).encode())
        h.update(np.ascontiguousarray(o.asi8).tobytes())
    elif isinstance(o, pd.Index):
        h.update(repr(o.name).encode())
        _feed(h, o.array, depth + 1)
    elif isinstance(o, (np.ndarray, pd.api.extensions.ExtensionArray)):
        h.update(str(o.dtype).encode())
        a = np.asarray(o)
        h.update(repr(a.shape).encode())
        if a.dtype.kind == "f":
            a = np.where(np.isnan(a), np.nan, a) + 0.0
            h.update(np.ascontiguousarray(a).tobytes())
        elif a.dtype == object:
            for x in a.ravel():
                _feed(h, x, depth + 1)
                h.update(b"|")
        else:
            h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(o, (pd.Timestamp, pd.Timedelta)):
        h.update(f"{o.value}{getattr(o, 'tz', '')}".encode())
    elif isinstance(o, dict):
        h.update(b"D")
        for k in sorted(o, key=str):
            _feed(h, str(k), depth + 1)
            _feed(h, o[k], depth + 1)
    elif isinstance(o, (list, tuple)):
        h.update(b"L%d" % len(o))
        for x in o:
            _feed(h, x, depth + 1)
    elif hasattr(o, "get_axes") and hasattr(o, "savefig"):
        h.update(b"FIG")
        for ax in o.get_axes():
            for ln in ax.get_lines():
                try:
                    _feed(h, np.asarray(ln.get_ydata(), float), depth + 1)
                except (TypeError, ValueError):
                    h.update(b"?")
    elif hasattr(o, "params") and hasattr(o, "bse"):
        _feed(h, o.params, depth + 1)
        _feed(h, o.bse, depth + 1)
    elif isinstance(o, pd.offsets.BaseOffset):
        h.update(str(o).encode())
    else:
        h.update(type(o).__name__.encode())


def digest(o):
    h = hashlib.sha256()
    _feed(h, o)
    return h.hexdigest()[:16]


def describe_diff(a, b, path=""):
    """First place where two results differ, in words."""
    if digest(a) == digest(b):
        return None
    if type(a) is not type(b):
        return f"{path or 'result'}: {type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if (k in a) != (k in b):
                return f"{path}[{k!r}] present only in {'first' if k in a else 'second'}"
            d = describe_diff(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = describe_diff(x, y, f"{path}[{i}]")
            if d:
                return d
    elif isinstance(a, pd.Series):
        if a.name != b.name:
            return f"{path}: name {a.name!r} vs {b.name!r}"
        if a.dtype != b.dtype:
            return f"{path}: dtype {a.dtype} vs {b.dtype}"
        if not a.index.equals(b.index):
            return f"{path}: index differs ({len(a)} vs {len(b)} rows)"
        if a.index.name != b.index.name:
            return f"{path}: index name {a.index.name!r} vs {b.index.name!r}"
        if getattr(a.index, "freq", None) != getattr(b.index, "freq", None):
            return f"{path}: index freq {a.index.freq} vs {b.index.freq}"
        for i in range(len(a)):
            if digest(a.iloc[i]) != digest(b.iloc[i]):
                return f"{path} at {a.index[i]}: {a.iloc[i]!r} vs {b.iloc[i]!r}"
    elif isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns):
            return f"{path}: columns {list(a.columns)} vs {list(b.columns)}"
        for c in range(a.shape[1]):
            d = describe_diff(a.iloc[:, c], b.iloc[:, c], f"{path}[{a.columns[c]!r}]")
            if d:
                return d
    return f"{path or 'result'}: {str(a)[:200]} vs {str(b)[:200]}"


def clone(o):
    """Deep, independent copy of a value (pandas deep copies are deep for values)."""
    if isinstance(o, (pd.Series, pd.DataFrame)):
        c = o.copy(deep=True)
        c.index = o.index.copy(deep=True)
        if isinstance(o.index, pd.DatetimeIndex) and c.index.freq != o.index.freq:
            c.index.freq = o.index.freq
        c.index.name = o.index.name
        if isinstance(o, pd.DataFrame):
            c.columns = o.columns.copy(deep=True)
        return c
    if isinstance(o, pd.Index):
        return o.copy(deep=True)
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: clone(v) for k, v in o.items()}
    if isinstance(o, list):
        return [clone(v) for v in o]
    if isinstance(o, tuple):
        return tuple(clone(v) for v in o)
    return o
