"""Deterministic scheduler and fault injector at source-line granularity.

sys.monitoring LINE events are switched on for the code objects of rdtools only.  Each line
about to be executed by rdtools is a *step*: the simulator may (a) hand the baton to another
simulated caller thread, (b) raise an injected fault there, or (c) just count it.  Real
threads are used, but exactly one is ever released, so the choice of who runs is entirely
the plan's.
"""
import ast
import dis
import functools
import hashlib
import sys
import threading

from . import env

TOOL = 3
mon = sys.monitoring
E_LINE = mon.events.LINE


class Aborted(BaseException):
    """Unwinds a parked simulated thread when the run is torn down."""


class Deadlock(Exception):
    pass


@functools.lru_cache(None)
def _unsafe_lines(path):
    """Lines where an injected exception would model something no real fault does.

    An exception raised by the *monitor* on the first line of a finally/except body, on the
    `try:` line itself, or inside __exit__ would skip clean-up code that a real failing
    callee could not skip.  Those lines are never fault points.
    """
    bad = set()
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            bad.add(node.lineno)
            for part in list(node.finalbody) + [s for h in node.handlers for s in h.body]:
                bad.update(range(part.lineno, (part.end_lineno or part.lineno) + 1))
            for h in node.handlers:
                bad.add(h.lineno)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in ("__exit__", "__del__", "__aexit__"):
                bad.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))
    return frozenset(bad)


@functools.lru_cache(None)
def _with_exit_offsets(code):
    """Offsets where the normal exit of a `with` block calls __exit__(None, None, None)."""
    ins = [i for i in dis.get_instructions(code)]
    out = set()
    for k in range(len(ins) - 3):
        a = ins[k:k + 4]
        if (all(x.opname == "LOAD_CONST" and x.argval is None for x in a[:3])
                and a[3].opname == "CALL" and a[3].arg == 2):
            out.add(a[0].offset)
            # LINE events may carry the offset of the instrumented first instruction
            if k and ins[k - 1].opname in ("NOP", "POP_TOP"):
                out.add(ins[k - 1].offset)
    return frozenset(out)


def fault_safe(code, line, frame):
    if line in _unsafe_lines(code.co_filename):
        return False
    if frame.f_lasti in _with_exit_offsets(code):
        return False
    if code.co_name == "<module>":
        return False
    return True


class SimLock:
    """Cooperative lock given to rdtools modules instead of threading.Lock/RLock."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s = Simulator.active
            if s is None or s.current() is None:
                raise Deadlock("lock already held and no other simulated thread can run")
            s.block_on(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Step:
    __slots__ = ("thread", "qual", "line")


class Simulator:
    """One simulated process with one or more caller threads."""

    active = None

    def __init__(self, schedule=(), max_steps=3_000_000):
        # [[steps, next_thread], ...]; a third element "d" counts only lines that are new to
        # the running thread, so that threads in different loops stay at similar places; "c"
        # counts like "d", and the thread handed to gives back as soon as it has passed the
        # line the first one stopped at (one chases the other through the code)
        self.schedule = [list(x) for x in schedule]
        self.fresh = set()
        self.chase = None           # [thread to return to, (code, line), arrived]
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.steps = 0
        self.max_steps = max_steps
        self.threads = []           # (name, Thread)
        self.state = {}             # idx -> 'ready'|'blocked'|'done'
        self.sems = []
        self.blocked_on = {}
        self.by_ident = {}
        self.switches = []          # (from, to, qualname, line) - the interleaving
        self.fault = None           # {'at': k, 'make': callable, 'fired': ...}
        self.op_steps = 0
        self.results = []
        self.main_sem = threading.Semaphore(0)
        self.aborting = False
        self.probe = None
        self.exhausted = False

    # ------------------------------------------------------------ monitoring
    def __enter__(self):
        assert Simulator.active is None
        Simulator.active = self
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "dsim")
        mon.register_callback(TOOL, E_LINE, self._on_line)
        for c in env.repo_code_objects():
            mon.set_local_events(TOOL, c, E_LINE)
        return self

    def __exit__(self, *a):
        for c in env.repo_code_objects():
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, E_LINE, None)
        Simulator.active = None

    def signature(self):
        """Stable hash of the interleaving (sequence of context switches)."""
        if not self.switches:
            return None
        return hashlib.sha256(repr(self.switches).encode()).hexdigest()[:16]

    def current(self):
        return self.by_ident.get(threading.get_ident())

    def _on_line(self, code, line):
        ident = threading.get_ident()
        if self.by_ident and ident not in self.by_ident:
            return                      # a thread the simulator does not own
        self.steps += 1
        if self.aborting:
            raise Aborted()
        if self.steps > self.max_steps:
            self.exhausted = True
            raise Aborted()
        f = self.fault
        if f is not None and f.get("thread") in (None, self.by_ident.get(ident)):
            seen = f.get("seen")
            if seen is None:
                self.op_steps += 1
            elif (code, line) not in seen:
                seen.add((code, line))
                self.op_steps += 1
            if not f.get("fired") and f["at"] is not None and self.op_steps >= f["at"]:
                frame = sys._getframe(1)
                if fault_safe(code, line, frame):
                    f["fired"] = (code.co_qualname, line - code.co_firstlineno)
                    raise f["make"]()
        if self.probe is not None:
            self.probe(code, line)
        c = self.chase
        if c is not None:
            if self.by_ident.get(ident) == c[0]:
                self.chase = None       # the first thread runs again (the other one finished)
            else:
                self.fresh.add((ident, code, line))
                if c[2]:
                    self._give_back(code, line)
                elif (code, line) == c[1]:
                    c[2] = True
                return
        if self.left is not None:
            if len(self.schedule[self.pos]) > 2:
                key = (ident, code, line)
                if key in self.fresh:
                    return
                self.fresh.add(key)
            self.left -= 1
            if self.left <= 0:
                self._advance_schedule(code, line)

    # ------------------------------------------------------------ fault API
    def arm(self, at, make, thread=None, distinct=False):
        """Fault at the `at`-th step from now (first fault-safe line at or after it).

        distinct: count only lines not executed before since arming, so that code run once
        is as likely to be hit as the body of a long loop.
        """
        self.op_steps = 0
        self.fault = {"at": at, "make": make, "fired": None, "thread": thread,
                      "seen": set() if distinct else None}
        return self.fault

    def count(self, thread=None, distinct=False):
        self.op_steps = 0
        self.fault = {"at": None, "fired": None, "thread": thread,
                      "seen": set() if distinct else None}

    def disarm(self):
        f, self.fault = self.fault, None
        n, self.op_steps = self.op_steps, 0
        return f, n

    # ------------------------------------------------------------ threads
    def _advance_schedule(self, code, line):
        me = self.current()
        if me is None:
            return
        target = self.schedule[self.pos][1] if self.pos < len(self.schedule) else None
        self.pos += 1
        self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
        if target is None or not self.threads:
            return
        target %= len(self.threads)
        if target == me or self.state.get(target) != "ready":
            return
        if self.schedule[self.pos - 1][-1] == "c":
            them = next(i for i, k in self.by_ident.items() if k == target)
            if (them, code, line) in self.fresh:
                return                  # it is already past this line
            self.chase = [me, (code, line), False]
        self.switches.append((me, target, code.co_qualname, line - code.co_firstlineno))
        self._handoff(me, target)

    def _give_back(self, code, line):
        me, (first, _, _), self.chase = self.current(), self.chase, None
        if self.state.get(first) == "ready":
            self.switches.append((me, first, code.co_qualname, line - code.co_firstlineno))
            self._handoff(me, first)

    def _handoff(self, me, target):
        self.sems[target].release()
        self.sems[me].acquire()
        if self.aborting:
            raise Aborted()

    def block_on(self, lock):
        me = self.current()
        self.state[me] = "blocked"
        self.blocked_on[me] = lock
        self._wake_blocked()
        if self.state[me] == "ready":
            return
        nxt = self._pick(me)
        if nxt is None:
            raise Deadlock("all simulated threads are blocked")
        self.switches.append((me, nxt, "<lock>", 0))
        self._handoff(me, nxt)

    def _wake_blocked(self):
        for t, lk in list(self.blocked_on.items()):
            if lk.owner is None:
                self.state[t] = "ready"
                del self.blocked_on[t]

    def _pick(self, me):
        self._wake_blocked()
        ready = [t for t in range(len(self.threads)) if self.state[t] == "ready" and t != me]
        return ready[0] if ready else None

    def run_threads(self, bodies):
        """Run callables as simulated threads under the plan's schedule.

        Returns a list of (value, exception) in order.
        """
        n = len(bodies)
        self.results = [(None, None)] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.state = {i: "ready" for i in range(n)}
        self.by_ident = {}
        started = threading.Semaphore(0)

        def runner(i):
            self.by_ident[threading.get_ident()] = i
            started.release()
            self.sems[i].acquire()
            try:
                if not self.aborting:
                    self.results[i] = (bodies[i](), None)
            except Aborted:
                self.results[i] = (None, Aborted())
            except BaseException as e:  # noqa: recorded, judged by the property
                self.results[i] = (None, e)
            self.state[i] = "done"
            nxt = self._pick(i)
            if nxt is not None:
                self.switches.append((i, nxt, "<exit>", 0))
                self.sems[nxt].release()
            else:
                self.main_sem.release()

        self.threads = [threading.Thread(target=runner, args=(i,), daemon=True)
                        for i in range(n)]
        for t in self.threads:
            t.start()
        for _ in range(n):
            started.acquire()
        self.sems[0].release()
        self.main_sem.acquire()
        stuck = [i for i in range(n) if self.state[i] != "done"]
        if stuck:
            self.aborting = True
            for i in stuck:
                self.results[i] = (None, Deadlock("thread never finished"))
                self.sems[i].release()
        for t in self.threads:
            t.join(timeout=30)
        self.by_ident = {}
        self.threads = []
        return self.results
