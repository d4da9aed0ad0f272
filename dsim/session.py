"""Helpers shared by the properties that simulate a caller's session with the library."""
import contextlib
import errno
import io
import random
import sys

import numpy as np

from . import env, ops, sched, world

# distinct executed lines / executed lines of each operation, measured; only used to spread
# fault positions, so exact values do not matter
LINES = dict(energy=93, interp=47, pvwatts=129, expected_power=116, rescale=22, aggregate=3,
             simple_filters=16, hour_angle=7, csi=5, logic_clip=146, xgb_clip=160, robust=9,
             yoy=45, yoy_point=34, ols=29, classical=60, classical_direct=5, srr=269,
             srr_tables=337, cods_point=267, availability=272, sensor=785, clearsky=538,
             plot_deg=82, plot_soil=283, plot_tune=17, plot_avail=306, rejected=142,
             modelled=420, tamb=45, pvlib_clear=8, yoy_block=75, odd=60, cods_combine=210,
             trend_plots=850)
STEPS = dict(energy=99, interp=87, pvwatts=335, expected_power=321, rescale=550, aggregate=4,
             simple_filters=23, hour_angle=7, csi=5, logic_clip=4700, xgb_clip=826, robust=9,
             yoy=47, yoy_point=36, ols=31, classical=88, classical_direct=5, srr=3200,
             srr_tables=4400, cods_point=7200, availability=3260, sensor=9000, clearsky=5500,
             plot_deg=90, plot_soil=3400, plot_tune=17, plot_avail=3586, rejected=100,
             modelled=2500, tamb=60, pvlib_clear=8, yoy_block=1200, odd=400, cods_combine=2500,
             trend_plots=9000)

FAULTS = ["interrupt", "memory", "io_error", "disk_full", "value_error", "linalg", "timeout"]


def make_exc(kind):
    if kind == "interrupt":
        return KeyboardInterrupt("injected")
    if kind == "memory":
        return MemoryError("injected")
    if kind == "io_error":
        return OSError(errno.EIO, "injected")
    if kind == "disk_full":
        return OSError(errno.ENOSPC, "injected")
    if kind == "linalg":
        return np.linalg.LinAlgError("injected")
    if kind == "timeout":
        return TimeoutError("injected")
    return ValueError("injected")


def gen_fault(rng, name, p=1.0, scale=1.05):
    """A fault plan for one operation, or None."""
    if rng.random() >= p:
        return None
    distinct = rng.random() < 0.75
    n = (LINES if distinct else STEPS).get(name, 300)
    return {"at": rng.randint(1, max(1, int(n * scale))), "distinct": distinct,
            "kind": rng.choice(FAULTS)}


def gen_schedule(rng, nthreads, total, lines=500):
    """Context switches: after `steps` lines hand over to thread `t`."""
    style = rng.choice(["fine", "coarse", "mixed", "burst", "lockstep", "chase", "chase",
                        "park"])
    out, used = [], 0
    if style == "lockstep":         # all threads advance through the code side by side
        k = rng.choice([1, 1, 2, 3, 5])
        off = rng.randint(0, 6)
        if off:
            out.append([off, 1, "d"])
        while len(out) * k < lines * nthreads and len(out) < 1500:
            out.append([rng.randint(1, k), (len(out) + 1) % nthreads, "d"])
        return out
    if style == "chase":            # every line is passed by the others while one is about to
        k = rng.choice([1, 1, 1, 2, 4])
        out.append([1 + rng.randint(0, lines // 2) * rng.choice([0, 1]), 0, "d"])
        while len(out) < 1500 and len(out) < lines * nthreads:
            out.append([rng.randint(1, k), rng.randrange(nthreads), "c"])
        return out
    if style == "park":             # one stops at a seeded place while the others run
        for _ in range(rng.choice([1, 2, 4])):
            out.append([rng.randint(1, max(2, lines)), rng.randrange(nthreads), "d"])
            out.append([rng.choice([rng.randint(1, max(2, lines)), 10**7]),
                        rng.randrange(nthreads), "d"])
        return out
    while used < total and len(out) < 220:
        if style == "fine":
            s = rng.randint(1, 12)
        elif style == "coarse":
            s = rng.randint(50, 1500)
        elif style == "burst":
            s = rng.choice([1, 1, 2, 3, 400, 1200])
        else:
            s = int(10 ** (rng.random() * 3.2))
        out.append([max(1, s), rng.randrange(nthreads)])
        used += s
    return out


class quiet:
    """Swallow prints; leaves every other piece of global state to the code under test."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        self.sink = io.StringIO()
        sys.stdout = self.sink
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old


def call(rd, I, name, p, sim=None, fault=None, seed=None, run=None):
    """Run one operation, optionally with an injected fault.

    Returns (value, exception, fired) - exceptions of the operation are values here.
    """
    import matplotlib.pyplot as plt
    if seed is not None:
        np.random.seed(seed)
    if fault is not None:
        sim.arm(fault["at"], lambda: make_exc(fault["kind"]), distinct=fault["distinct"])
    v = e = None
    try:
        with quiet():
            v = ops.OPS[name].fn(rd, I, p)
    except (Exception, KeyboardInterrupt) as ex:
        e = ex
    fired = None
    if fault is not None:
        f, n = sim.disarm()
        fired = f["fired"]
        if fired and run is not None:
            run.fault(fault["kind"])
            run.log("fault", fault["kind"], "at", fired[0], "+", fired[1])
    if e is not None and run is not None:
        run.log(name, "raised", type(e).__name__)
    if plt.get_fignums():
        plt.close("all")
    return v, strip(e), fired


def strip(e):
    """Drop tracebacks so that frames of interrupted calls do not stay alive."""
    if e is not None:
        e.__traceback__ = None
        e.__context__ = None
        e.__cause__ = None
    return e


def outcome(v, e):
    """Comparable outcome of a call."""
    if e is not None:
        return "raised " + type(e).__name__
    return world.digest(v)


def inputs_of(names, I):
    keys = sorted({k for n in names for k in ops.OPS[n].uses})
    return keys


def pure_outcome(v, e, name):
    return outcome(v, e)


def shrink_session(plan, key="steps"):
    for i in range(len(plan.get(key, []))):
        st = plan[key][i]
        if st.get("fault"):
            c = dict(plan)
            c[key] = [dict(s) for s in plan[key]]
            c[key][i]["fault"] = None
            yield c
    s = plan.get("site")
    if s:
        for k, v in (("nan", 0), ("drop", 0), ("gap", []), ("tz", "Etc/GMT+7"), ("days", 733),
                     ("step_h", 6), ("named", False), ("freq", True)):
            if s.get(k) != v:
                yield dict(plan, site=dict(s, **{k: v}))
    sch = plan.get("schedule")
    if sch:
        # merge neighbouring switches
        for i in range(len(sch) - 1):
            c = [list(x) for x in sch]
            c[i][0] += c[i + 1][0]
            c[i][1] = c[i + 1][1]
            del c[i + 1]
            yield dict(plan, schedule=c)


__all__ = ["call", "env", "sched", "world", "ops", "random", "contextlib"]
