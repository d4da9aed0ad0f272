"""C02: seeded analyses reproduce exactly, whatever happened before and wherever they run."""
from .. import env, ops, sched, session, sibling, world
from ..clock import SimClock
from ..util import need

PROPERTY = "C02"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 40000}
SHRINK = [("steps",)]
RULE = ("one run = a simulated process with a seeded history of 0-4 public calls (some failing or "
        "interrupted at a seeded line) under a simulated wall clock with jumps, then one seeded "
        "analysis; its complete result is compared bit for bit with a freshly started second "
        "process (other hash seed, other system time zone, real clock) given only the inputs; "
        "non-trivial = non-empty history or a clock jump")
REAL = ["every rdtools module called", "all libraries", "a second real interpreter process"]
STUB = ["wall clock (Python-level time sources)", "fault delivery"]
ASSUMPTIONS = ["same machine, same library versions, one BLAS thread",
               "numpy's generator is set with numpy.random.seed"]


def generate(rng, tier):
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        name, p = ops.choose(rng, None, 300)
        steps.append({"op": name, "p": p, "fault": session.gen_fault(rng, name, 0.4)})
    names = ["yoy", "yoy", "ols", "classical", "srr", "srr", "srr_tables", "availability",
             "sensor", "sensor", "clearsky", "xgb_clip", "cods_point", "plot_deg", "plot_soil",
             "logic_clip", "rescale", "odd", "cods_combine", "cods_combine", "tamb", "modelled"]
    target = {"op": rng.choice(names), "p": rng.randint(0, 143)}
    if tier == "thorough" and rng.random() < 0.02:
        target["op"] = "cods_boot"
    if rng.random() < 0.3 and steps:
        steps[-1] = dict(target, fault=session.gen_fault(rng, target["op"], 0.7))
    return {"site": world.site_spec(rng), "steps": steps, "target": target,
            "nseed": rng.randint(0, 2**31), "clock": rng.choice([0.0, 1.2e9, 1.7e9, 4.0e9]),
            "jumps": [[rng.randint(1, 200), rng.choice([-3600.0, 86400.0, -5.0])]
                      for _ in range(rng.choice([0, 2, 5]))],
            "hash": rng.choice(["4242", "7", "99", "123"]), "fresh": rng.random() < 0.3}


def simplify(plan):
    yield from session.shrink_session(plan)


def execute(plan, run):
    rd = env.fresh() if plan["fresh"] else env.ensure()
    I = world.site(plan["site"])
    t = plan["target"]
    with sched.Simulator() as S:
        with SimClock(plan["clock"], jumps=sorted(plan["jumps"])) as ck:
            for s in plan["steps"]:
                v, e, fired = session.call(rd, I, s["op"], s["p"], S, s.get("fault"),
                                           plan["nseed"] + 1, run)
                run.log(s["op"], s["p"], "ok" if e is None else type(e).__name__)
            v, e, _ = session.call(rd, I, t["op"], t["p"], seed=plan["nseed"], run=run)
            jumps = len(plan["jumps"]) - len(ck.jumps)
        here = session.outcome(v, e)
        # the same call again in the same process, other clock reading
        v2, e2, _ = session.call(rd, I, t["op"], t["p"], seed=plan["nseed"])
        run.steps = S.steps
    if jumps:
        run.fault("clock_jump", jumps)
    run.sim_seconds += abs(ck.now - plan["clock"])
    again = session.outcome(v2, e2)
    run.checks += 2
    if here != again:
        need(False, "not_repeatable:" + t["op"], f"{t['op']}(variant {t['p']}) with seed "
             f"{plan['nseed']} gave two different results in one process: "
             f"{world.describe_diff(v, v2) if e is None and e2 is None else (here, again)}")
    # verbosity must not matter, so the other process is as talkative as this one is not
    other = t["p"] ^ 1 if t["op"] == "cods_combine" else t["p"]
    r = sibling.ask({"kind": "op", "site": plan["site"], "op": t["op"], "p": other,
                     "seed": plan["nseed"]}, plan["hash"])
    if here != r["outcome"]:
        need(False, "process_dependent:" + t["op"], f"{t['op']}(variant {t['p']}) with seed "
             f"{plan['nseed']} after {[s['op'] for s in plan['steps']]} gave {here}, a freshly "
             f"started process gives {r['outcome']}")
    run.log(t["op"], t["p"], here)
    run.probe("op:" + t["op"])
    run.nontrivial = bool(plan["steps"]) or jumps > 0
