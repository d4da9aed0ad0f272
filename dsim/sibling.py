"""A second, freshly started process (other hash seed, time zone) that runs single requests.

Used as the reference for "a new process" and for crash/restart: nothing but the request (and
for C09 the checkpoint bytes) crosses the pipe.
"""
import atexit
import base64
import json
import os
import pickle
import subprocess
import sys

from .core import ROOT

_proc = {}


def get(hash_seed="4242"):
    key = (os.getpid(), hash_seed)
    p = _proc.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=hash_seed, TZ="Asia/Kolkata", PYTHONWARNINGS="ignore")
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dsim.sibling"], cwd=ROOT,
                             env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True)
        _proc[key] = p
        atexit.register(p.kill)
    return p


def ask(req, hash_seed="4242"):
    p = get(hash_seed)
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("sibling process died on " + req.get("kind", "?"))
    r = json.loads(line)
    if r.get("error"):
        raise RuntimeError("sibling: " + r["error"])
    return r


def pack(b):
    return base64.b64encode(b).decode()


def unpack(s):
    return base64.b64decode(s)


def _serve():
    import traceback
    import warnings
    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                       # prints of the code under test go nowhere
    from . import env, session, world
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if req["kind"] == "op":
                rd = env.fresh()
                I = world.site(req["site"])
                v, e, _ = session.call(rd, I, req["op"], req["p"], seed=req["seed"])
                r = {"outcome": session.outcome(v, e)}
            elif req["kind"] == "restore":
                from .props import c09
                env.fresh()
                obj = pickle.loads(unpack(req["blob"]))
                r = c09.serve(obj, req)
            else:
                r = {"error": "unknown request"}
        except Exception:
            r = {"error": traceback.format_exc()}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    _serve()
