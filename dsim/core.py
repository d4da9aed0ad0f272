"""Campaign driver: seeds -> plans -> executions -> violations -> minimised replay files."""
import argparse
import concurrent.futures as cf
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Violation(Exception):
    """The property is broken.  `cls` is a stable class used for shrinking and findings."""

    def __init__(self, cls, message):
        super().__init__(message)
        self.cls = cls
        self.message = message


class Run:
    """Everything one simulated run records; deterministic given the plan and the code."""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.sim_seconds = 0.0
        self.steps = 0
        self.interleaving = None
        self.nontrivial = False
        self.checks = 0

    def log(self, *a):
        self.events.append(" ".join(str(x) for x in a))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:20]


def run_seed(prop, seed, i):
    h = hashlib.sha256(f"{prop}:{seed}:{i}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def load(prop):
    return importlib.import_module(f"dsim.props.{prop.lower()}")


def execute(mod, plan):
    """Run one plan; returns a result dict (never raises for a violation)."""
    from . import env
    env.ensure()
    run = Run()
    res = {"violation": None, "error": None}
    try:
        mod.execute(copy.deepcopy(plan), run)
    except Violation as v:
        res["violation"] = {"cls": v.cls, "message": v.message}
    except Exception as e:
        text = traceback.format_exc()
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or tb.tb_frame.f_code.co_filename.startswith(env.PKG_DIR)
            tb = tb.tb_next
        if inside:      # rdtools raised where the property requires it to succeed
            res["violation"] = {"cls": "raised:" + type(e).__name__,
                                "message": f"rdtools raised {type(e).__name__}: {e}\n" + text}
        else:
            res["error"] = text
    res.update(digest=run.digest(), faults=run.faults, probes=run.probes,
               sim_seconds=run.sim_seconds, steps=run.steps,
               interleaving=run.interleaving, nontrivial=run.nontrivial,
               checks=run.checks, nevents=len(run.events))
    if res["violation"]:
        res["events"] = run.events[-200:]
    return res


def plan_for(mod, seed, i, tier):
    rng = random.Random(run_seed(mod.PROPERTY, seed, i))
    plan = mod.generate(rng, tier)
    plan["run"] = i
    plan["seed"] = seed
    return plan


_MOD = None


def _init(prop):
    global _MOD
    import warnings
    warnings.simplefilter("ignore")
    _MOD = load(prop)


def _work(args):
    seed, i, tier = args
    t0 = time.perf_counter()
    plan = plan_for(_MOD, seed, i, tier)
    r = execute(_MOD, plan)
    r["i"] = i
    r["wall"] = time.perf_counter() - t0
    return r


# ----------------------------------------------------------------- shrinking
def _candidates(mod, plan):
    """Generic reductions: drop list elements (chunks first) under SHRINK paths, then the
    property's own simplifications."""
    for path in getattr(mod, "SHRINK", ()):
        node = plan
        ok = True
        for k in path[:-1]:
            if isinstance(node, dict) and k in node:
                node = node[k]
            else:
                ok = False
                break
        if not ok or path[-1] not in node or not isinstance(node[path[-1]], list):
            continue
        lst = node[path[-1]]
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(plan)
                t = c
                for k in path[:-1]:
                    t = t[k]
                t[path[-1]] = lst[:a] + lst[a + size:]
                yield c
            if size == 1:
                break
            size //= 2
    if hasattr(mod, "simplify"):
        yield from mod.simplify(plan)


def shrink(mod, plan, cls, budget_s=60.0, max_exec=400):
    t0 = time.time()
    n = 0
    improved = True
    while improved and time.time() - t0 < budget_s and n < max_exec:
        improved = False
        for c in _candidates(mod, plan):
            if time.time() - t0 > budget_s or n >= max_exec:
                break
            n += 1
            r = execute(mod, c)
            if r["violation"] and r["violation"]["cls"] == cls:
                plan = c
                improved = True
                break
    return plan, n


# ----------------------------------------------------------------- findings
def known_findings():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    d = dict(kv.split("=", 1) for kv in line.split() if "=" in kv)
                    out.append((d.get("property"), d.get("class"),
                                line.split("::", 1)[-1].strip()))
    return out


def _plain(o):
    try:
        return o.item()
    except AttributeError:
        return str(o)


def write_replay(mod, plan, res, seed, i, note):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{mod.PROPERTY}-s{seed}-r{i}.json")
    with open(path, "w") as f:
        json.dump({"property": mod.PROPERTY, "seed": seed, "run": i, "note": note,
                   "violation": res["violation"], "digest": res["digest"],
                   "plan": plan, "events": res.get("events")}, f, indent=1, default=_plain)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    r = execute(mod, d["plan"])
    if r["error"]:
        print(r["error"])
        return 2
    if r["violation"]:
        print(f"property {d['property']} class {r['violation']['cls']}")
        print(r["violation"]["message"])
        same = (r["digest"] == d["digest"] and r["violation"]["cls"] == d["violation"]["cls"])
        print("event log identical to the recorded run:", same)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print(f"property {d['property']}: no violation on this plan")
    return 0


# ----------------------------------------------------------------- campaign
def campaign(prop, tier, seed, workers, runs=None, quiet=False):
    from . import env
    import warnings
    warnings.simplefilter("ignore")
    mod = load(prop)
    env.ensure()
    n = runs or mod.RUNS[tier]
    soft = getattr(mod, "SOFT_S", {"quick": 420, "thorough": 6 * 3600})[tier]
    hard_run = getattr(mod, "RUN_TIMEOUT_S", 300)
    t0 = time.time()
    results = {}
    stop = False
    ctx = mp.get_context("fork")
    tasks = [(seed, i, tier) for i in range(n)]
    first = None
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init,
                                initargs=(prop,)) as ex:
        pending = set()
        it = iter(tasks)
        last_progress = time.time()
        while True:
            while not stop and len(pending) < workers * 3:
                try:
                    pending.add(ex.submit(_work, next(it)))
                except StopIteration:
                    break
            if not pending:
                break
            done, pending = cf.wait(pending, timeout=20, return_when=cf.FIRST_COMPLETED)
            for d in done:
                r = d.result()
                results[r["i"]] = r
                last_progress = time.time()
                if (r["violation"] or r["error"]) and not stop:
                    first = r
                    stop = True
            if time.time() - t0 > soft:
                stop = True
            if time.time() - last_progress > hard_run:
                for p in list(ex._processes.values()):
                    p.kill()
                raise RuntimeError("harness: no simulated run finished for %ds" % hard_run)
    wall = time.time() - t0
    return mod, results, wall, n


def check(prop, tier, seed, workers, runs=None):
    t_start = time.time()
    mod, results, wall, planned = campaign(prop, tier, seed, workers, runs)
    order = sorted(results)
    errs = [results[i] for i in order if results[i]["error"]]
    viol = [results[i] for i in order if results[i]["violation"]]
    known = [k for k in known_findings() if k[0] == prop]
    known_cls = {k[1] for k in known}
    code = 0
    for _, _, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    real = [v for v in viol if v["violation"]["cls"] not in known_cls]
    replay_path = None
    if real:
        v = real[0]
        i = v["i"]
        plan = plan_for(mod, seed, i, tier)
        cls = v["violation"]["cls"]
        small, nexec = shrink(mod, plan, cls)
        r = execute(mod, small)
        note = f"minimised with {nexec} executions"
        if not (r["violation"] and r["violation"]["cls"] == cls):
            small, r = plan, execute(mod, plan)
            note = "not minimised"
        if not r["violation"]:
            r = v
            note = "recorded as first seen"
        replay_path = write_replay(mod, small, r, seed, i, note)
        print(f"seed {seed} run {i}: {cls}: {r['violation']['message']}")
        p = subprocess.run([sys.executable, "-m", "dsim", "replay", replay_path], cwd=ROOT,
                           capture_output=True, text=True)
        print("replay in a fresh process:",
              "reproduced" if p.returncode == 1 else f"exit {p.returncode}",
              "| log identical" if "recorded run: True" in p.stdout else "| log differs")
        print(f"VIOLATION property={prop} replay={replay_path}")
        code = 1
    elif errs:
        print("HARNESS ERROR in run", errs[0]["i"])
        print(errs[0]["error"])
        code = 2
    evidence(mod, prop, tier, seed, results, wall, planned, len(real), workers)
    print(f"{prop} {tier} seed={seed}: {len(results)} simulated runs in {wall:.1f}s "
          f"(total {time.time() - t_start:.1f}s), violations={len(real)}")
    return code


def evidence(mod, prop, tier, seed, results, wall, planned, nviol, workers):
    os.makedirs(EVID, exist_ok=True)
    faults, probes = {}, {}
    sim = steps = checks = 0
    dig, inter, nontriv = set(), set(), set()
    for i in sorted(results):
        r = results[i]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        sim += r["sim_seconds"]
        steps += r["steps"]
        checks += r["checks"]
        dig.add(r["digest"])
        if r["interleaving"]:
            inter.add(r["interleaving"])
        if r["nontrivial"]:
            nontriv.add(r["digest"])
    samples = []
    for i in sorted(results)[:3]:
        p = plan_for(mod, seed, i, tier)
        s = json.dumps(p, default=_plain)
        samples.append(p if len(s) < 4000 else s[:4000] + "...")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": json.loads(json.dumps(samples, default=_plain)),
            "oracle_checks": checks,
            "planned_runs": planned,
            "runs_per_hour": round(len(results) / max(wall, 1e-9) * 3600),
            "runs_per_hour_note": "every run has its own seed: seeds per hour is the same number",
            "workers": workers,
            "simulated_time_hours": round(sim / 3600, 3),
            "scheduler_steps": steps,
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_event_logs": len(dig),
            "distinct_interleavings": len(inter),
            "interleaving_measure": "distinct sequences of (from-thread, to-thread, function, "
                                    "line offset) context switches, or distinct fault/event "
                                    "orders for plant simulations",
            "components_real": mod.REAL,
            "components_stub": mod.STUB,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_plain)


def selftest(props, seeds, runs, workers_list=(1, 3, 8)):
    """Same seeds, different worker counts / hash seeds / processes: identical event logs."""
    bad = 0
    for prop in props:
        ref = None
        for hs, w in zip(("0", "12345", "777"), workers_list):
            e = dict(os.environ, PYTHONHASHSEED=hs)
            out = {}
            for s in seeds:
                p = subprocess.run([sys.executable, "-m", "dsim", "digests", prop, "--seed",
                                    str(s), "--runs", str(runs), "--workers", str(w)],
                                   cwd=ROOT, env=e, capture_output=True, text=True)
                if p.returncode:
                    print(p.stdout, p.stderr)
                    return 1
                out[s] = p.stdout
            if ref is None:
                ref = out
            else:
                for s in seeds:
                    if ref[s] != out[s]:
                        bad += 1
                        a, b = ref[s].split("\n"), out[s].split("\n")
                        for x, y in zip(a, b):
                            if x != y:
                                print(prop, "seed", s, "DIVERGES:", x, "|", y)
                                break
        print(f"{prop}: {'DIVERGED' if bad else 'identical'} event logs over "
              f"{len(seeds)} seeds x {runs} runs x workers {list(workers_list)}")
    return 1 if bad else 0


def main(argv=None):
    ap = argparse.ArgumentParser(prog="dsim")
    ap.add_argument("cmd", choices=["check", "replay", "selftest", "digests", "one", "plan"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    if a.cmd == "check":
        return check(a.args[0], a.tier, a.seed, a.workers, a.runs)
    if a.cmd == "replay":
        return replay(a.args[0])
    if a.cmd == "selftest":
        return selftest(a.args, [1, 2, 3], a.runs or 24)
    if a.cmd == "digests":
        _, res, _, _ = campaign(a.args[0], a.tier, a.seed, a.workers, a.runs)
        for i in sorted(res):
            r = res[i]
            print(i, r["digest"], r["nevents"], r["steps"], r["interleaving"],
                  json.dumps(r["faults"], sort_keys=True))
        return 0
    if a.cmd in ("one", "plan"):
        import warnings
        warnings.simplefilter("ignore")
        mod = load(a.args[0])
        plan = plan_for(mod, a.seed, int(a.args[1]), a.tier)
        if a.cmd == "plan":
            print(json.dumps(plan, indent=1, default=_plain))
            return 0
        t = time.time()
        r = execute(mod, plan)
        print(json.dumps({k: v for k, v in r.items() if k != "error"}, indent=1,
                         default=_plain))
        if r["error"]:
            print(r["error"])
        print("wall", time.time() - t)
        return 0
