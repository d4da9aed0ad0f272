"""C05: a failed or interrupted run never publishes partial results; a rerun is clean."""
from .. import env, sched, session, trend, world
from ..util import need

PROPERTY = "C05"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 40000}
SHRINK = [("faulty",), ("before",)]
RULE = ("one run = an analysis object with 0-2 earlier analyses, then 1-3 attempts at an analysis "
        "with a fault at a seeded source line (interrupt, memory exhaustion, I/O error, library "
        "error), then one clean rerun; published results are compared before/after each attempt "
        "and the rerun bit for bit with an object that never failed; non-trivial = a fault fired")
REAL = ["rdtools.analysis_chains, availability, soiling and everything below"]
STUB = ["fault delivery (exception at a source line)"]
ASSUMPTIONS = ["faults are raised at source lines of rdtools",
               "an attempt whose fault comes after publication may leave the complete new result"]


def generate(rng, tier):
    kind = rng.choice(trend.KINDS)
    final = trend.gen_run(rng, kind)
    nm = {"trend": "sensor", "avail": "availability", "srr": "srr", "cods": "cods_point"}[kind]
    faulty = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = dict(final) if rng.random() < 0.7 else trend.gen_run(rng, kind)
        if kind == "trend" and not a["analyses"] and a["analyses"] is not None:
            a["analyses"] = None
        if kind == "trend":
            nm = "sensor" if a["case"] == "sensor" else "clearsky"
        a["fault"] = session.gen_fault(rng, nm, scale=0.9)
        faulty.append(a)
    before = [trend.gen_run(rng, kind) for _ in range(rng.choice([0, 1, 1, 2]))]
    sets = [trend.gen_setting(rng) for _ in range(rng.choice([0, 0, 1, 2]))] \
        if kind == "trend" else []
    return {"site": world.site_spec(rng), "kind": kind, "p": rng.randint(0, 143),
            "settings": [s for s in sets if s["do"] != "bad_setting"], "before": before,
            "faulty": faulty, "final": final, "nseed": rng.randint(0, 2**31)}


def simplify(plan):
    yield from session.shrink_session(plan, "faulty")


def execute(plan, run):
    rd = env.fresh()
    kind = plan["kind"]
    I = world.site(plan["site"])
    try:
        with session.quiet():
            obj = trend.build(rd, I, kind, plan["p"])
    except ValueError as e:
        run.log("cannot build", e)
        return
    m = trend.Model(obj, kind)
    with session.quiet():
        for s in plan["settings"]:
            trend.apply_setting(obj, m, I, s)
    with sched.Simulator() as S:
        for k, a in enumerate(plan["before"]):
            v, e, _ = trend.attempt(trend.do_run, obj, kind, I, a, seed=plan["nseed"] + k)
            run.log("before", a.get("case", kind), "ok" if e is None else type(e).__name__)
        for k, a in enumerate(plan["faulty"]):
            seed = plan["nseed"] + 100 + k
            was = world.clone(trend.published(obj, kind))
            wd = world.digest(was)
            v, e, fired = trend.attempt(trend.do_run, obj, kind, I, a, sim=S,
                                        fault=a.get("fault"), seed=seed, run=run)
            run.log("attempt", a.get("case", kind), "ok" if e is None else type(e).__name__)
            if e is None:
                continue
            run.nontrivial = run.nontrivial or bool(fired)
            now = trend.published(obj, kind)
            run.checks += 1
            if world.digest(now) != wd:
                # legitimate only if it is the complete new result
                ok = False
                fresh = trend.build(rd, I, kind, plan["p"])
                if kind == "trend":
                    for d, src in ((fresh.filter_params, m.fp),
                                   (fresh.filter_params_aggregated, m.fa)):
                        d.clear()
                        d.update(src)
                _, e2, _ = trend.attempt(trend.do_run, fresh, kind, I, a, seed=seed)
                if e2 is None:
                    full = trend.published(fresh, kind)
                    if kind == "trend":
                        full = dict(was or {}, **full)
                    ok = world.digest(full) == world.digest(now)
                need(ok, "partial_results:" + kind,
                     f"attempt {k} ({a}) failed with {e!r}"
                     + (f" injected in {fired[0]}" if fired else "")
                     + f" but changed the published results: {world.describe_diff(was, now)}")
            if kind == "trend":
                need(trend.settings_of(obj, kind) == m.digest(), "settings_changed",
                     f"attempt {k} ({a}) failed with {e!r} and changed the settings")
        a = plan["final"]
        seed = plan["nseed"] + 999
        others = world.digest({c: r for c, r in obj.results.items() if c != a["case"]}) \
            if kind == "trend" else None
        v, e, _ = trend.attempt(trend.do_run, obj, kind, I, a, seed=seed)
        ref, re, _ = trend.reference(rd, plan["site"], kind, plan["p"], m, I, a, seed)
        run.checks += 1
        run.log("final", "ok" if e is None else type(e).__name__)
        run.probe("final_ok" if e is None else "final_raised")
        if session.outcome(v, e) != session.outcome(ref, re):
            d = world.describe_diff(ref, v) if e is None and re is None else \
                f"new object: {re!r}, this object: {e!r}"
            need(False, "rerun_differs:" + kind, f"after {len(plan['faulty'])} failed attempts the "
                 f"clean rerun {a} differs from an object that never failed (new vs this): {d}")
        if others is not None:
            need(world.digest({c: r for c, r in obj.results.items() if c != a["case"]}) == others,
                 "other_workflow_changed", f"running {a['case']} changed the other workflow's "
                 "published results")
        run.steps = S.steps
