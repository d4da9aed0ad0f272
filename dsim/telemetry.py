"""Discrete-event simulation of a PV data-acquisition system.

Devices (sensor, meter, inverters) sample on their own clocks, send messages over links that
partition, lose, duplicate, delay and reorder; a logger buffers what it receives and makes it
durable on flush, so a logger crash loses the unflushed tail.  Everything is decided by the
plan (JSON), the loop is a priority queue over simulated time, and the only thing rdtools
sees is what ended up in durable storage.
"""
import heapq
import math

KINDS = ("partition", "device_down", "logger_crash", "loss", "duplicate", "delay",
         "clock_jump", "stuck", "nan_reading")


def generate_faults(rng, n, period_s, kinds=None, density=1.0, start=0):
    """Random fault list for one device that emits `n` samples."""
    kinds = list(kinds or KINDS)
    rng.shuffle(kinds)
    kinds = kinds[: rng.randint(1, len(kinds))]
    out = []
    span = n * period_s

    def window(maxfrac=0.25):
        a = rng.random() * span
        scale = rng.choice([1, 2, 3, 5, 10, 50])
        ln = min(rng.random() * scale * period_s * 2, span * maxfrac)
        if rng.random() < 0.5:   # aligned edges
            a = math.floor(a / period_s) * period_s
            ln = math.ceil(ln / period_s) * period_s
        return round(start + a, 3), round(start + a + ln, 3)

    for k in kinds:
        m = max(1, int(round(density * rng.choice([1, 1, 2, 3, 5]))))
        if k in ("partition", "device_down", "stuck"):
            for _ in range(m):
                a, b = window()
                out.append({"kind": k, "from": a, "to": b})
        elif k == "logger_crash":
            for _ in range(min(m, 3)):
                a, b = window(0.1)
                out.append({"kind": k, "at": a, "restart": b})
        elif k in ("loss", "duplicate", "nan_reading"):
            rate = rng.choice([0.01, 0.03, 0.1, 0.3])
            ids = [i for i in range(n) if rng.random() < rate]
            out.append({"kind": k, "ids": ids[:400]})
        elif k == "delay":
            rate = rng.choice([0.02, 0.1])
            ids = [[i, round(rng.random() * 4 * period_s, 3)] for i in range(n)
                   if rng.random() < rate]
            out.append({"kind": k, "ids": ids[:400]})
        elif k == "clock_jump":
            for _ in range(min(m, 2)):
                out.append({"kind": k, "at": round(start + rng.random() * span, 3),
                            "by": round((rng.random() - 0.5) * period_s * rng.choice([0.5, 3]), 3)})
    return out


class Wire:
    """One device -> link -> logger pipeline, run to completion on simulated time."""

    def __init__(self, run, n, period_s, value, faults, start=0.0, flush_every=4,
                 cutoff=None, whole_seconds=True):
        self.run = run
        self.n = n
        self.period = period_s
        self.value = value          # f(i, true_time) -> float
        self.faults = faults
        self.start = start
        self.flush_every = flush_every * period_s
        self.cutoff = cutoff
        self.whole = whole_seconds
        self.storage = {}           # device timestamp (s) -> value, durable
        self.buffer = []
        self.order = []             # arrival order, part of the event log

    def _in(self, kind, t):
        return any(f["kind"] == kind and f["from"] <= t < f["to"] for f in self.faults)

    def go(self):
        q = []
        seq = 0
        run = self.run

        def push(t, what, payload=None):
            nonlocal seq
            seq += 1
            heapq.heappush(q, (t, seq, what, payload))

        loss, dup, nan, delay = set(), set(), set(), {}
        for f in self.faults:
            if f["kind"] == "loss":
                loss.update(f["ids"])
            elif f["kind"] == "duplicate":
                dup.update(f["ids"])
            elif f["kind"] == "nan_reading":
                nan.update(f["ids"])
            elif f["kind"] == "delay":
                delay.update({i: d for i, d in f["ids"]})
            elif f["kind"] == "logger_crash":
                push(f["at"], "crash", f)
                push(f["restart"], "restart", f)
            elif f["kind"] == "clock_jump":
                push(f["at"], "jump", f["by"])
        end = self.start + self.n * self.period
        for i in range(self.n):
            push(self.start + i * self.period, "sample", i)
        t = self.start
        while t <= end + 10 * self.period:
            t += self.flush_every
            push(t, "flush")
        offset = 0.0
        down = 0
        last = None
        while q:
            now, _, what, p = heapq.heappop(q)
            if what == "jump":
                offset += p
                run.fault("clock_jump")
            elif what == "crash":
                down += 1
                run.fault("logger_crash")
                run.fault("lost_unflushed", len(self.buffer))
                self.buffer = []
            elif what == "restart":
                down -= 1
            elif what == "flush":
                for ts, v in self.buffer:
                    self.storage.setdefault(ts, v)
                self.buffer = []
            elif what == "sample":
                i = p
                if self._in("device_down", now):
                    run.fault("device_down")
                    continue
                if self._in("stuck", now) and last is not None:
                    v = last
                    run.fault("stuck")
                else:
                    v = self.value(i, now)
                    last = v
                ts = now + offset
                if self.whole:
                    ts = round(ts)
                if i in nan:
                    v = float("nan")
                    run.fault("nan_reading")
                if self._in("partition", now):
                    run.fault("partition")
                    continue
                if i in loss:
                    run.fault("loss")
                    continue
                d = 0.0
                if i in delay:
                    d = delay[i]
                    run.fault("delay")
                push(now + d, "deliver", (ts, v))
                if i in dup:
                    run.fault("duplicate")
                    push(now + d + 0.4 * self.period, "deliver", (ts, v))
            elif what == "deliver":
                if down > 0:
                    run.fault("undelivered_logger_down")
                    continue
                self.buffer.append(p)
                self.order.append(p[0])
        for ts, v in self.buffer:
            self.storage.setdefault(ts, v)
        if any(b < a for a, b in zip(self.order, self.order[1:])):
            run.fault("reordered_delivery",
                      sum(b < a for a, b in zip(self.order, self.order[1:])))
        run.sim_seconds += self.n * self.period
        return sorted(self.storage.items())
