"""C09: a trend-analysis object survives checkpoint, crash and restart."""
import copy
import pickle

import matplotlib.pyplot as plt

from .. import env, sched, session, sibling, trend, world
from ..util import need

PROPERTY = "C09"
LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 20000}
SHRINK = [("before",), ("after",)]
RULE = ("one run = a seeded session on a trend-analysis object, a checkpoint (pickle or deep "
        "copy) at a seeded point - also right after an interrupted analysis -, then the same "
        "continuation on the original and on the restored object; pickles are restored in a "
        "second, freshly started process that only receives the bytes; settings, published "
        "results and every continuation outcome are compared bit for bit; non-trivial = the "
        "continuation contains an analysis or a rejected settings change")
REAL = ["rdtools.analysis_chains and everything below", "pickle/copy",
        "a second real interpreter process"]
STUB = ["process crash (nothing but the checkpoint bytes survives)", "fault delivery"]
ASSUMPTIONS = ["checkpoints are pickle or copy.deepcopy of the object or of its settings"]


def generate(rng, tier):
    before = [a for a in trend.gen_actions(rng, "trend", rng.randint(0, 3), faults=0.5, bad=0.1)]
    after = [trend.gen_setting(rng) for _ in range(rng.randint(0, 3))]
    after += [trend.gen_run(rng, "trend") for _ in range(rng.choice([0, 1, 1]))]
    rng.shuffle(after)
    after.append({"do": "bad_setting", "agg": rng.random() < 0.5,
                  "how": rng.choice(["item", "update", "update_kw", "setter", "setter_type",
                                     "update_mixed"]), "key": "bogus"})
    return {"site": world.site_spec(rng), "p": rng.randint(0, 143), "before": before,
            "after": after, "how": rng.choice(["process", "process", "pickle", "deepcopy",
                                               "settings"]),
            "proto": rng.choice([2, 4, 5]), "nseed": rng.randint(0, 2**31),
            "twice": rng.random() < 0.2}


def simplify(plan):
    yield from session.shrink_session(plan, "before")


def cont(obj, m, I, actions, nseed):
    """Run a continuation; returns the list of comparable outcomes."""
    out = []
    for k, a in enumerate(actions):
        do = a["do"]
        if do in ("set", "delete", "replace", "bad_setting"):
            with session.quiet():
                r = trend.apply_setting(obj, m, I, a)
            out.append(f"{do}:{r[0] if r else ''}")
        elif do == "plot":
            v, e, _ = trend.attempt(trend.plot, obj, "trend", I, a)
            plt.close("all")
            out.append("plot " + ("ok" if e is None else type(e).__name__))
        elif do == "bad_run":
            v, e, _ = trend.attempt(trend.bad_run, obj, "trend", I, a, seed=nseed)
            out.append("bad " + session.outcome(v, e))
        else:
            v, e, _ = trend.attempt(trend.do_run, obj, "trend", I, a, seed=nseed + k)
            out.append("run " + session.outcome(v, e))
        out.append(trend.settings_of(obj, "trend") + world.digest(obj.results))
    return out


def state(obj):
    d = {k: v for k, v in vars(obj).items()
         if k not in ("_filter_params", "_filter_params_aggregated", "pvlib_location")}
    return {"settings": trend.settings_of(obj, "trend"), "results": world.digest(obj.results),
            "attrs": {k: world.digest(v) for k, v in d.items()}}


def serve(obj, req):
    """In the sibling process: report the restored state, then continue."""
    I = world.site(req["site"])
    m = trend.Model(obj, "trend")
    st = state(obj)
    blob = None
    if req.get("twice"):
        obj = pickle.loads(pickle.dumps(obj))
        blob = True
    return {"state": st, "out": cont(obj, m, I, req["after"], req["nseed"]), "twice": blob}


def execute(plan, run):
    rd = env.fresh()
    I = world.site(plan["site"])
    try:
        with session.quiet():
            obj = trend.build(rd, I, "trend", plan["p"])
    except ValueError as e:
        run.log("cannot build", e)
        return
    m = trend.Model(obj, "trend")
    with sched.Simulator() as S:
        for k, a in enumerate(plan["before"]):
            if a["do"] == "run" and a.get("fault"):
                _, e, fired = trend.attempt(trend.do_run, obj, "trend", I, a, sim=S,
                                            fault=a["fault"], seed=plan["nseed"] + 50 + k,
                                            run=run)
                run.log("interrupted", type(e).__name__ if e else "ok")
            else:
                run.log(*cont(obj, m, I, [a], plan["nseed"] + 50 + k))
        run.steps = S.steps
    st = state(obj)
    how = plan["how"]
    run.fault("crash_restart" if how == "process" else how)
    run.nontrivial = True
    if how == "settings":
        for name, d in (("filter_params", obj.filter_params),
                        ("filter_params_aggregated", obj.filter_params_aggregated)):
            for way, c in (("pickle", pickle.loads(pickle.dumps(d, plan["proto"]))),
                           ("deepcopy", copy.deepcopy(d)), ("copy", copy.copy(d))):
                need(world.digest(dict(c)) == world.digest(dict(d)), "settings_lost",
                     f"{way} of {name} holds {dict(c)} instead of {dict(d)}")
                for route in ("item", "update"):
                    try:
                        c["bogus"] = {} if route == "item" else c.update({"bogus": {}})
                        need(False, "validation_lost", f"{way} of {name} accepts unknown filters")
                    except KeyError:
                        pass
                c["ad_hoc_filter"] = None
                c.clear()
                run.checks += 3
                need(trend.settings_of(obj, "trend") == st["settings"], "settings_shared",
                     f"changing a {way} of {name} changed the original")
        run.log("settings", st["settings"])
        return
    if how == "deepcopy":
        other = copy.deepcopy(obj)
    else:
        try:
            blob = pickle.dumps(obj, plan["proto"])
        except Exception as e:
            need(False, "not_serializable", f"checkpoint failed after {plan['before']}: {e!r}")
        other = pickle.loads(blob) if how == "pickle" else None
    if other is not None:
        so = state(other)
        _same(st, so, how)
        m2 = trend.Model(other, "trend")
        first = cont(other, m2, I, plan["after"], plan["nseed"])
        # the copy's continuation must not have touched the original
        _same(st, state(obj), "continuing the copy, the original")
        mine = cont(obj, m, I, plan["after"], plan["nseed"])
    else:
        r = sibling.ask({"kind": "restore", "blob": sibling.pack(blob), "site": plan["site"],
                         "after": plan["after"], "nseed": plan["nseed"],
                         "twice": plan["twice"]})
        _same(st, r["state"], "restart in a new process")
        first = r["out"]
        mine = cont(obj, m, I, plan["after"], plan["nseed"])
    run.checks += len(mine) + len(st["attrs"])
    for i, (a, b) in enumerate(zip(mine, first)):
        act = plan["after"][i // 2]
        need(a == b, "continuation_differs", f"after restoring ({how}), {act} gave {b}; the "
             f"original gives {a}")
        if act["do"] == "bad_setting" and i % 2 == 0:
            need(a.endswith("rejected"), "validation_lost",
                 f"an unknown filter was accepted after a checkpoint: {act}")
    run.log(how, *mine)


def _same(a, b, what):
    need(a["settings"] == b["settings"], "settings_lost", f"{what}: settings differ")
    need(a["results"] == b["results"], "results_lost", f"{what}: published results differ")
    for k in a["attrs"]:
        need(a["attrs"][k] == b["attrs"].get(k), "state_lost", f"{what}: attribute {k!r} differs")
