"""Simulated wall clock: replaces the Python-level time sources while a call runs."""
import datetime as _dt
import sys
import time

import pandas as pd


class SimClock:
    """time.time & co. return base + tick*calls, with jumps, independent of the real clock."""

    def __init__(self, base, tick=0.001, jumps=()):
        self.now = float(base)
        self.tick = tick
        self.jumps = list(jumps)        # [[reads, seconds], ...]
        self.reads = 0

    def read(self):
        self.reads += 1
        self.now += self.tick
        while self.jumps and self.reads >= self.jumps[0][0]:
            self.now += self.jumps.pop(0)[1]
        return self.now

    def __enter__(self):
        self._saved = {n: getattr(time, n) for n in
                       ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic",
                        "monotonic_ns")}
        for n in self._saved:
            if n.endswith("_ns"):
                setattr(time, n, lambda: int(self.read() * 1e9))
            else:
                setattr(time, n, self.read)
        clock = self

        class datetime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return _dt.datetime.fromtimestamp(clock.read(), tz)

            @classmethod
            def utcnow(cls):
                return _dt.datetime.fromtimestamp(clock.read(), _dt.timezone.utc).replace(
                    tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        class date(_dt.date):
            @classmethod
            def today(cls):
                return _dt.datetime.fromtimestamp(clock.read()).date()

        self._mods = []
        for name, m in list(sys.modules.items()):
            if name == "rdtools" or name.startswith("rdtools."):
                for k, v in list(vars(m).items()):
                    if v is _dt.datetime:
                        self._mods.append((m, k, v))
                        setattr(m, k, datetime)
                    elif v is _dt.date:
                        self._mods.append((m, k, v))
                        setattr(m, k, date)
        self._ts = {}
        for n in ("now", "today", "utcnow"):
            try:
                self._ts[n] = pd.Timestamp.__dict__[n]
                setattr(pd.Timestamp, n, classmethod(
                    lambda cls, tz=None: pd.Timestamp(int(clock.read() * 1e9), tz=tz)))
            except (KeyError, TypeError):
                pass
        return self

    def __exit__(self, *a):
        for n, f in self._saved.items():
            setattr(time, n, f)
        for m, k, v in self._mods:
            setattr(m, k, v)
        for n, f in self._ts.items():
            setattr(pd.Timestamp, n, f)
