"""C01: caller-owned data is never modified - by success, failure, interruption or overlap."""
import threading

import numpy as np

from .. import env, ops, sched, session, world
from ..util import need

PROPERTY = "C01"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 60000}
SHRINK = [("steps",), ("schedule",)]
RULE = ("one run = one session of 1-4 public calls over one shared set of caller-owned inputs, "
        "with a fault injected at a seeded source line of some calls, or with two or three calls "
        "interleaved by the scheduler; inputs are compared with deep snapshots after every call "
        "and at seeded points inside calls; non-trivial = a fault fired or threads interleaved")
REAL = ["every rdtools module called", "pandas/numpy/scipy/statsmodels/xgboost/matplotlib"]
STUB = ["scheduling of caller threads", "fault delivery (exception raised at a source line)"]
ASSUMPTIONS = ["interrupts are delivered at source lines of rdtools, not inside libraries",
               "inputs are pandas objects as documented"]


def generate(rng, tier):
    spec = world.site_spec(rng)
    mode = rng.choice(["serial", "serial", "serial", "threads"])
    steps = []
    n = rng.randint(1, 4) if mode == "serial" else rng.choice([2, 2, 3])
    budget = 500 if mode == "serial" else 400
    for _ in range(n):
        name, p = ops.choose(rng, (lambda o: o.group not in ("plot", "patched")) if mode == "threads" else
                             None,
                             budget)
        steps.append({"op": name, "p": p,
                      "fault": session.gen_fault(rng, name, 0.55) if mode == "serial" else None})
    plan = {"site": spec, "mode": mode, "steps": steps, "nseed": rng.randint(0, 2**31),
            "probes": sorted(rng.randint(1, 6000) for _ in range(rng.choice([0, 3, 8]))),
            "schedule": []}
    if mode == "threads":
        plan["schedule"] = session.gen_schedule(rng, n, 20000)
    return plan


def simplify(plan):
    yield from session.shrink_session(plan)


def _compare(I, snap, base, keys, what):
    for k in keys:
        if world.digest(I[k]) != base[k]:
            need(False, "input_modified:" + k,
                 f"caller's {k!r} changed {what}: {world.describe_diff(snap[k], I[k], k)}")


def _compare_kept(kept, what):
    for label, obj, copy_, dig in kept:
        if world.digest(obj) != dig:
            need(False, "input_modified:" + label, f"caller's {label} changed {what}: "
                 f"{world.describe_diff(copy_, obj, label)}")


def execute(plan, run):
    rd = env.ensure()
    I = world.site(plan["site"])
    names = [s["op"] for s in plan["steps"]]
    keys = session.inputs_of(names, I)
    snap = {k: world.clone(I[k]) for k in keys}
    base = {k: world.digest(I[k]) for k in keys}
    assert all(world.digest(snap[k]) == base[k] for k in keys)
    kept = []

    def keep(label, obj):
        kept.append((label, obj, world.clone(obj), world.digest(obj)))
    I["_mid"] = keep
    probes = set(plan["probes"])
    np.random.seed(plan["nseed"])
    with sched.Simulator(schedule=plan["schedule"]) as S:
        bad = []
        main = threading.get_ident()

        def probe(code, line):
            if S.steps in probes and not bad:
                for k in keys:
                    if world.digest(I[k]) != base[k]:
                        bad.append((k, code.co_qualname, world.describe_diff(snap[k], I[k], k)))
                        return
        if probes:
            S.probe = probe
        if plan["mode"] == "threads" and len(plan["steps"]) > 1:
            def body(s):
                return lambda: ops.OPS[s["op"]].fn(rd, I, s["p"])
            with session.quiet():
                res = S.run_threads([body(s) for s in plan["steps"]])
            for s, (v, e) in zip(plan["steps"], res):
                run.log(s["op"], s["p"], "ok" if e is None else type(e).__name__)
                if isinstance(e, sched.Deadlock):
                    need(False, "deadlock", f"{s['op']} never finished")
            run.interleaving = S.signature()
            run.fault("context_switch", len(S.switches))
            run.nontrivial = len(S.switches) > 1
            _compare(I, snap, base, keys, "while " + ", ".join(names) + " overlapped")
            _compare_kept(kept, "while " + ", ".join(names) + " overlapped")
            run.checks += len(keys) + len(kept)
        else:
            for s in plan["steps"]:
                v, e, fired = session.call(rd, I, s["op"], s["p"], S, s["fault"],
                                           plan["nseed"], run)
                how = "returned" if e is None else f"raised {type(e).__name__}"
                run.log(s["op"], s["p"], how)
                run.probe("op:" + s["op"])
                if fired:
                    run.nontrivial = True
                run.checks += len(keys)
                _compare(I, snap, base, keys,
                         f"by {s['op']}(variant {s['p']}), which {how}"
                         + (f" after a fault in {fired[0]}" if fired else ""))
                _compare_kept(kept, f"by {s['op']}(variant {s['p']}), which {how}")
                run.checks += len(kept)
                v = e = None
        if bad:
            k, q, d = bad[0]
            need(False, "input_modified:" + k, f"caller's {k!r} was different while {q} ran: {d}")
        run.steps = S.steps
        assert main == threading.get_ident()
