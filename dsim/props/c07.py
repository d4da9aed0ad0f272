"""C07: analyses in different threads do not affect each other."""
from .. import env, ops, sched, session, world
from ..rngseam import PerThread
from ..util import need

PROPERTY = "C07"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 40000}
SHRINK = [("schedule",)]
RULE = ("one run = two or three caller threads, each running a seeded public analysis over the "
        "same caller-owned inputs in one process, interleaved at source-line granularity by a "
        "seeded schedule; each thread's complete result is compared bit for bit with the same "
        "call run alone; non-trivial = at least two context switches inside rdtools code")
REAL = ["every rdtools module called", "all libraries", "real threads, one released at a time"]
STUB = ["thread scheduling", "random stream (one per thread instead of one shared)"]
ASSUMPTIONS = ["threads are switched between source lines of rdtools, not inside libraries",
               "each thread draws from its own random stream",
               "pyplot, which is not thread-safe, is not used concurrently"]

POOL = ["energy", "interp", "pvwatts", "expected_power", "rescale", "aggregate", "simple_filters",
        "csi", "logic_clip", "xgb_clip", "yoy", "yoy_point", "ols", "classical", "srr",
        "srr_tables", "availability", "sensor", "clearsky", "sensor", "clearsky", "rejected",
        "cods_point", "robust", "odd", "tamb"]


def generate(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    steps = []
    for i in range(n):
        if i and rng.random() < 0.7:
            same = rng.random()
            steps.append({"op": steps[0]["op"], "p": steps[0]["p"] if same < 0.6
                          else rng.randint(0, 143)})
        else:
            steps.append({"op": rng.choice(POOL), "p": rng.randint(0, 143)})
    total = sum(session.STEPS[s["op"]] for s in steps)
    return {"site": world.site_spec(rng), "steps": steps,
            "seeds": [rng.randint(0, 2**31) for _ in range(n)],
            "fresh": rng.random() < 0.5, "private": rng.choice([None, None, "equal", "other",
                                                               "other", "other"]),
            "schedule": session.gen_schedule(rng, n, total, max(session.LINES[s["op"]]
                                                                for s in steps))}


def simplify(plan):
    if len(plan["steps"]) > 2:
        for i in range(3):
            st = [s for j, s in enumerate(plan["steps"]) if j != i]
            yield dict(plan, steps=st, seeds=plan["seeds"][:2],
                       schedule=[[x[0], x[1] % 2] + x[2:] for x in plan["schedule"]])
    yield from session.shrink_session(plan)


def _site(plan, k):
    """Threads share the inputs, have equal ones of their own, or analyse different plants."""
    if plan["private"] == "other":
        return dict(plan["site"], seed=plan["site"]["seed"] + 17 * k,
                    rate=plan["site"]["rate"] - 0.01 * k)
    return plan["site"]


def execute(plan, run):
    import matplotlib.pyplot as plt
    rd = env.ensure()
    n = len(plan["steps"])
    base = []
    with PerThread(plan["seeds"]) as R:
        for k, s in enumerate(plan["steps"]):
            I = world.site(_site(plan, k))
            R.bind(k)
            v, e, _ = session.call(rd, I, s["op"], s["p"])
            base.append((v, e, session.outcome(v, e)))
        if plan["fresh"]:
            rd = env.fresh()
        shared = world.site(plan["site"])
        inputs = [world.site(_site(plan, k)) if plan["private"] else shared for k in range(n)]
        with sched.Simulator(schedule=plan["schedule"]) as S:
            def body(k, s):
                def go():
                    R.bind(k)
                    return ops.OPS[s["op"]].fn(rd, inputs[k], s["p"])
                return go
            with session.quiet():
                res = S.run_threads([body(k, s) for k, s in enumerate(plan["steps"])])
            run.steps = S.steps
    plt.close("all")
    run.interleaving = S.signature()
    run.fault("context_switch", len(S.switches))
    for k, (s, (v, e), (v0, e0, o0)) in enumerate(zip(plan["steps"], res, base)):
        need(not isinstance(e, sched.Deadlock), "deadlock",
             f"{s['op']} never finished when interleaved")
        o = session.outcome(v, e)
        run.log(s["op"], s["p"], o)
        run.probe("op:" + s["op"])
        run.checks += 1
        if o != o0:
            d = world.describe_diff(v0, v) if e is None and e0 is None else (
                f"alone: {o0} ({e0}); interleaved: {o} ({e})")
            need(False, "interference:" + s["op"],
                 f"thread {k} {s['op']}(variant {s['p']}), interleaved with "
                 f"{[t['op'] for j, t in enumerate(plan['steps']) if j != k]}, differs from the "
                 f"same call alone: {d}")
    run.nontrivial = len(S.switches) > 1
