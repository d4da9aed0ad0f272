"""C08: process-wide state is left as it was found, whatever happens during the call."""
import os
import random
import warnings

import matplotlib.pyplot as plt
import numpy as np

from .. import env, globals_, ops, sched, session, world
from ..util import need

PROPERTY = "C08"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 50000}
SHRINK = [("steps",)]
RULE = ("one run = a fresh simulated process with seeded process-wide settings (warning filters, "
        "numpy error handling, random state) in which 1-3 public calls run, some with a fault at "
        "a seeded source line; the complete snapshot of process-wide state is compared around "
        "every call; non-trivial = a fault fired or the call raised")
REAL = ["every rdtools module called", "all libraries"]
STUB = ["fault delivery (exception raised at a source line)"]
ASSUMPTIONS = ["faults are delivered at source lines of rdtools, not in finally/except bodies",
               "figures opened by plotting functions are their documented result"]


def generate(rng, tier):
    steps = []
    for _ in range(rng.randint(1, 3)):
        name, p = ops.choose(rng, None, 500)
        steps.append({"op": name, "p": p, "fault": session.gen_fault(rng, name, 0.6)})
    return {"site": world.site_spec(rng), "steps": steps, "nseed": rng.randint(0, 2**31),
            "np_err": rng.choice(["warn", "ignore"]),
            "filters": rng.choice(["ignore", "always", "default"]),
            "reseed_check": rng.random() < 0.35}


def simplify(plan):
    yield from session.shrink_session(plan)


def execute(plan, run):
    I = world.site(plan["site"])
    with globals_.guard():
        rd = env.fresh()
        warnings.filters[:] = [("ignore", None, Warning, None, 0)] if plan["filters"] == "ignore" \
            else [("ignore", None, DeprecationWarning, None, 0), (plan["filters"], None,
                                                                  UserWarning, None, 0),
                  ("ignore", None, Warning, None, 0)]
        warnings._filters_mutated()
        np.seterr(all=plan["np_err"])
        random.seed(plan["nseed"])
        sink = open(os.devnull, "w")
        import sys
        olderr = sys.stderr
        sys.stderr = sink
        try:
            _go(plan, run, rd, I)
        finally:
            sys.stderr = olderr
            sink.close()
            plt.close("all")


def _call(rd, I, s, S, run):
    """Like session.call but snapshots inside the stream redirection."""
    fault = s["fault"]
    with session.quiet():
        before = globals_.snapshot(figures=ops.OPS[s["op"]].group != "plot")
        st0 = globals_.rng_state()
        if fault:
            S.arm(fault["at"], lambda: session.make_exc(fault["kind"]),
                  distinct=fault["distinct"])
        e = v = None
        try:
            v = ops.OPS[s["op"]].fn(rd, I, s["p"])
        except (Exception, KeyboardInterrupt) as ex:
            e = session.strip(ex)
        fired = None
        if fault:
            f, _ = S.disarm()
            fired = f["fired"]
        st1 = globals_.rng_state()
        after = globals_.snapshot(figures=ops.OPS[s["op"]].group != "plot")
    v = None
    return e, fired, before, after, st0, st1


def _go(plan, run, rd, I):
    with sched.Simulator() as S:
        for s in plan["steps"]:
            np.random.seed(plan["nseed"])
            e, fired, before, after, st0, st1 = _call(rd, I, s, S, run)
            if fired:
                run.fault(s["fault"]["kind"])
                run.log("fault", s["fault"]["kind"], *fired)
            how = "returned" if e is None else f"raised {type(e).__name__}"
            run.log(s["op"], s["p"], how)
            run.probe("op:" + s["op"])
            run.nontrivial = run.nontrivial or bool(fired) or e is not None
            run.checks += len(before)
            d = globals_.diff(before, after)
            at = f" after a fault in {fired[0]}" if fired else ""
            if d:
                # the clipping model cache is the library's own; everything else is not
                need(False, "changed:" + d[0].replace(" ", "_"),
                     f"{s['op']}(variant {s['p']}) {how}{at} and changed {d[1]}")
            o = ops.OPS[s["op"]]
            if not o.random:
                need(st0 == st1, "rng_consumed", f"{s['op']}(variant {s['p']}) {how}{at} and "
                     "changed the state of numpy's global random generator")
                run.checks += 1
            elif plan["reseed_check"]:
                np.random.seed(plan["nseed"] ^ 0x5a5a5a)
                x0 = globals_.rng_state()
                _, f2, _, _, _, x1 = _call(rd, I, s, S, run)
                need(x1 != st1, "rng_reseeded", f"after {s['op']}(variant {s['p']}) {how}{at} "
                     "numpy's global generator is in the same state whatever it was before")
                if st0 != st1:
                    need(st1[1:3] != st0[1:3] or st1 != st0, "rng", "unreachable")
                    need(x1 != x0, "rng_frozen", f"{s['op']} advanced one stream but not another")
                run.checks += 1
            plt.close("all")
        run.steps = S.steps
