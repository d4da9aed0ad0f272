"""C04: results depend only on current inputs and settings, never on the object's past."""
import matplotlib.pyplot as plt

from .. import env, sched, session, trend, world
from ..util import need

PROPERTY = "C04"
LEVEL = "exploration"
RUNS = {"quick": 360, "thorough": 20000}
SHRINK = [("actions",)]
RULE = ("one run = a seeded session on one or two analysis objects (trend, availability, soiling "
        "rate-and-recovery, CODS) over shared inputs: settings changes through every route, "
        "rejected changes, plots, failing and interrupted analyses, analyses of either kind; "
        "settings are compared with a model after every action and each analysis result bit for "
        "bit with a newly made object; non-trivial = an analysis after at least two prior actions")
REAL = ["rdtools.analysis_chains, availability, soiling and everything below"]
STUB = ["fault delivery (exception at a source line)"]
ASSUMPTIONS = ["settings are changed through the documented attributes"]


def generate(rng, tier):
    kind = rng.choice(trend.KINDS)
    nobj = rng.choice([1, 1, 2])
    acts = trend.gen_actions(rng, kind, rng.randint(3, 8), faults=0.25)
    last = trend.gen_run(rng, kind)
    for a in acts + [last]:
        a["obj"] = rng.randrange(nobj)
    return {"site": world.site_spec(rng), "kind": kind, "p": [rng.randint(0, 143)
                                                             for _ in range(nobj)],
            "actions": acts + [last], "nseed": rng.randint(0, 2**31)}


def simplify(plan):
    yield from session.shrink_session(plan, "actions")


def execute(plan, run):
    rd = env.fresh()
    kind = plan["kind"]
    I = world.site(plan["site"])
    try:
        with session.quiet():
            objs = [trend.build(rd, I, kind, p) for p in plan["p"]]
    except ValueError as e:
        run.log("cannot build", e)
        return
    models = [trend.Model(o, kind) for o in objs]
    pubs = [world.digest(trend.published(o, kind)) for o in objs]
    with sched.Simulator() as S:
        for k, a in enumerate(plan["actions"]):
            i = a["obj"] % len(objs)
            obj, m = objs[i], models[i]
            do = a["do"]
            what = f"action {k} {a}"
            if do in ("set", "delete", "replace", "bad_setting"):
                with session.quiet():
                    r = trend.apply_setting(obj, m, I, a)
                if do == "bad_setting":
                    need(r[0] == "rejected", "bad_setting_accepted",
                         f"{what}: an unknown filter was accepted")
                    run.fault("rejected_setting")
                run.log(do, a.get("key"))
            elif do == "plot":
                _, e, _ = trend.attempt(trend.plot, obj, kind, I, a)
                plt.close("all")
                run.log("plot", "ok" if e is None else type(e).__name__)
            elif do == "bad_run":
                _, e, _ = trend.attempt(trend.bad_run, obj, kind, I, a, seed=plan["nseed"])
                need(e is not None, "bad_run_accepted", f"{what}: invalid arguments accepted")
                run.fault("failed_attempt")
                run.log("bad_run", type(e).__name__)
            else:
                seed = plan["nseed"] + k
                v, e, fired = trend.attempt(trend.do_run, obj, kind, I, a, sim=S,
                                            fault=a.get("fault"), seed=seed, run=run)
                run.log("run", a.get("case", kind), "ok" if e is None else type(e).__name__)
                if not fired:
                    ref, re, _ = trend.reference(rd, plan["site"], kind, plan["p"][i], m, I, a,
                                                 seed)
                    run.checks += 1
                    run.probe("runs_compared_ok" if e is None else "runs_compared_raised")
                    if session.outcome(v, e) != session.outcome(ref, re):
                        d = world.describe_diff(ref, v) if e is None and re is None else \
                            f"new object: {re!r}, this object: {e!r}"
                        need(False, "history_dependent:" + kind,
                             f"{what}: result differs from a newly made object with the same "
                             f"inputs and settings (new vs this): {d}")
                    if k >= 2:
                        run.nontrivial = True
                    if e is None:
                        pubs[i] = world.digest(trend.published(obj, kind))
                if fired:
                    pubs[i] = world.digest(trend.published(obj, kind))
            for j, (o, mm) in enumerate(zip(objs, models)):
                run.checks += 1
                if trend.settings_of(o, kind) != mm.digest():
                    d = world.describe_diff([mm.fp, mm.fa], [dict(o.filter_params),
                                                             dict(o.filter_params_aggregated)])
                    need(False, "settings_changed" if j == i else "settings_leaked",
                         f"{what}: settings of object {j} are not what was set: {d}")
                if world.digest(trend.published(o, kind)) != pubs[j]:
                    need(j == i and do in ("run",), "results_leaked",
                         f"{what}: published results of object {j} changed")
                    pubs[j] = world.digest(trend.published(o, kind))
        run.steps = S.steps
