"""C06: faults while reading bundled data files are transient and never give wrong answers."""
import gc
import os
import threading

import numpy as np
import pandas as pd

from .. import env, files, sched, session, world
from ..util import need

PROPERTY = "C06"
LEVEL = "fault_enumeration"
RUNS = {"quick": 420, "thorough": 20000}
SHRINK = [("history",), ("schedule",)]
RULE = ("one run = a freshly started process that uses the clipping model and the temperature "
        "table a few times while the files are missing, cut off, incomplete, unreadable half-way, "
        "or the call is interrupted at a load or at an arbitrary source line; then a concurrent "
        "first use by two or three threads (optionally one of them failing) under a seeded "
        "schedule; every answer ever returned and every call after the faults stop is compared "
        "with a fault-free fresh process; non-trivial = at least one fault fired")
REAL = ["rdtools.filtering, rdtools.clearsky_temperature", "xgboost and h5py, reading real files"]
STUB = ["which file the library opens", "the temperature table itself (synthetic; the data file is "
        "not part of the checkout)", "thread scheduling"]
ASSUMPTIONS = ["damage is visible to the library: open or read fails, or the file is cut off"]
KINDS = ["missing", "truncated", "truncated", "incomplete", "interrupt_before", "interrupt_after",
         "memory", "emfile", "read_error", "line", "line", "line"]


def _fault(rng, op):
    k = rng.choice(KINDS)
    if op == "xgb" and k in ("incomplete", "read_error"):
        k = "truncated"
    f = {"kind": k}
    if k == "truncated":
        f["cut"] = rng.randrange(3)
    elif k == "read_error":
        f["at"] = rng.randint(1, 60)
    elif k == "line":
        f = {"kind": "line", "exc": rng.choice(session.FAULTS), "distinct": rng.random() < 0.8}
        f["at"] = rng.randint(1, (150 if op == "xgb" else 70) if f["distinct"] else 700)
        if rng.random() < 0.5 and op == "xgb":
            f["at"] = rng.randint(50, 75) if f["distinct"] else f["at"]
    return f


def generate(rng, tier):
    hist = []
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["xgb", "xgb", "tamb"])
        hist.append({"op": op, "v": rng.randint(0, 2),
                     "fault": _fault(rng, op) if rng.random() < 0.8 else None})
    n = rng.choice([0, 2, 2, 3])
    conc = []
    for _ in range(n):
        op = rng.choice(["xgb", "xgb", "xgb", "tamb"])
        conc.append({"op": op, "v": rng.randint(0, 2), "fault": None})
    if conc and rng.random() < 0.4:
        c = rng.choice(conc)
        c["fault"] = _fault(rng, c["op"])
        while c["fault"]["kind"] == "line":
            c["fault"] = _fault(rng, c["op"])
    sch = session.gen_schedule(rng, n, 900 * n) if n else []
    if sch and rng.random() < 0.5:
        sch = [[rng.randint(1, 40), rng.randrange(n)] for _ in range(60)]
    return {"history": hist, "concurrent": conc, "schedule": sch, "seed2": rng.randint(0, 10**9),
            "conc_fresh": rng.random() < 0.7, "lat": round(rng.uniform(-85, 85), 2),
            "lon": round(rng.uniform(-175, 175), 2),
            "tz": rng.choice(["UTC", "Etc/GMT+7", "America/Denver", "Asia/Kolkata"])}


def simplify(plan):
    if plan["concurrent"]:
        yield dict(plan, concurrent=[], schedule=[])
        if len(plan["concurrent"]) > 2:
            yield dict(plan, concurrent=plan["concurrent"][:2],
                       schedule=[[x[0], x[1] % 2] + x[2:] for x in plan["schedule"]])


def _power(seed, v, tz):
    r = np.random.RandomState((seed + v) % 2**32)
    n = 4 * 96
    idx = pd.date_range("2021-06-01", periods=n, freq="15min", tz=tz)
    h = (np.arange(n) % 96) / 4.0
    p = np.maximum(0, np.sin((h - 6) / 12 * np.pi)) * 1000 * r.uniform(0.97, 1.0, n)
    return pd.Series(np.minimum(p, [2000.0, 800.0, 600.0][v]), index=idx)


def call(rd, plan, s):
    if s["op"] == "xgb":
        return rd.xgboost_clip_filter(_power(plan["seed2"], s["v"], plan["tz"]),
                                      mounting_type=["fixed", "single_axis_tracking", "fixed"]
                                      [s["v"]])
    t = pd.date_range("2021-0%d-03" % (s["v"] + 2), periods=30, freq="h", tz=plan["tz"])
    return rd.get_clearsky_tamb(t, plan["lat"], plan["lon"])


def execute(plan, run):
    env.ensure()
    model = os.path.join(env.REPO, "rdtools", "models", "xgboost_clipping_model.json")
    sc = files.Scratch(plan["seed2"], model)
    try:
        with files.Faults(sc).installed() as F:
            _execute(plan, run, F)
    finally:
        sc.close()
        env.fresh()


def _execute(plan, run, F):
    steps = plan["history"] + plan["concurrent"]
    base = {}
    rd = env.fresh()
    for s in steps:
        key = (s["op"], s["v"])
        if key not in base:
            with session.quiet():
                v = call(rd, plan, s)
            base[key] = (v, world.digest(v))
    del v
    gc.collect()
    tables0, fds0 = files.open_tables(), files.open_fds()
    need(tables0 == 0, "open_handle", "the temperature table stays open after a successful call")
    rd = env.fresh()

    def judge(s, v, e, fired, where):
        run.checks += 1
        if e is None:
            d0, d1 = base[(s["op"], s["v"])][1], world.digest(v)
            if d0 != d1:
                need(False, "wrong_answer", f"{where}: {s['op']} returned a different answer than a "
                     f"fresh, fault-free process: "
                     f"{world.describe_diff(base[(s['op'], s['v'])][0], v)}")
        elif not fired:
            need(False, "lasting_failure", f"{where}: {s['op']} met no fault itself but failed "
                 f"after earlier faults: {type(e).__name__}: {e}")
        if fired and e is None and s["fault"]["kind"] in ("truncated", "missing", "incomplete",
                                                         "read_error"):
            need(False, "answer_from_bad_file", f"{where}: {s['op']} returned an answer although "
                 f"its data file was {s['fault']['kind']}")

    with sched.Simulator(schedule=plan["schedule"]) as S:
        S.left = None
        for k, s in enumerate(plan["history"]):
            f = s["fault"]
            F.plan, F.fired, F.reads = {}, [], 0
            if f and f["kind"] == "line":
                S.arm(f["at"], lambda: session.make_exc(f["exc"]), distinct=f["distinct"])
            elif f:
                F.plan[None] = f
            v = e = None
            try:
                with session.quiet():
                    v = call(rd, plan, s)
            except (Exception, KeyboardInterrupt) as ex:
                e = session.strip(ex)
            F.plan = {}
            fired = list(F.fired)
            if f and f["kind"] == "line":
                ff, _ = S.disarm()
                if ff["fired"]:
                    fired.append("line:" + f["exc"])
            for x in fired:
                run.fault(x)
            run.log(s["op"], s["v"], fired, "ok" if e is None else type(e).__name__)
            judge(s, v, e, fired, f"call {k}")
            if fired:
                run.nontrivial = True
            v = e = None
        F.plan, F.fired = {}, []
        gc.collect()
        need(files.open_tables() == 0, "open_handle",
             "the temperature table stays open after a failed call")
        need(files.open_fds() <= fds0, "leaked_fd", "file descriptors leaked by failed calls")
        for op in sorted({s["op"] for s in plan["history"]}):
            s = next(x for x in plan["history"] if x["op"] == op)
            e = v = None
            try:
                with session.quiet():
                    v = call(rd, plan, s)
            except Exception as ex:
                e = session.strip(ex)
            judge(dict(s, fault=None), v, e, [], "first call after the faults stopped")
            run.log("after", op)
        conc = plan["concurrent"]
        if conc:
            if plan["conc_fresh"]:
                rd = env.fresh()
                for c in env.repo_code_objects():
                    sched.mon.set_local_events(sched.TOOL, c, sched.E_LINE)
            S.left = S.schedule[0][0] if S.schedule else None

            def body(s):
                def go():
                    if s["fault"]:
                        F.plan[threading.get_ident()] = s["fault"]
                    return call(rd, plan, s)
                return go
            with session.quiet():
                res = S.run_threads([body(s) for s in conc])
            fired = list(F.fired)
            F.plan = {}
            for x in fired:
                run.fault(x)
            for k, (s, (v, e)) in enumerate(zip(conc, res)):
                need(not isinstance(e, sched.Deadlock), "deadlock", "a first use never finished")
                judge(s, v, e, bool(s["fault"]) and fired, f"concurrent first use, thread {k}")
                run.log("concurrent", s["op"], "ok" if e is None else type(e).__name__)
                run.probe("concurrent_use")
            run.fault("context_switch", len(S.switches))
            run.interleaving = S.signature()
            run.nontrivial = run.nontrivial or len(S.switches) > 2
            for _, e in res:
                if e is not None:
                    session.strip(e)
            S.results = []
            res = v = e = None
            for s in conc:
                with session.quiet():
                    v = call(rd, plan, s)
                judge(dict(s, fault=None), v, None, [], "after the concurrent use")
        run.steps = S.steps
    v = e = None
    gc.collect()
    need(files.open_tables() == 0, "open_handle", "the temperature table stays open")
    if run.interleaving is None:
        run.interleaving = run.digest()
