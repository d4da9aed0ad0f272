"""Per-thread random streams behind numpy.random's module functions.

numpy's global generator is one stream shared by all threads, so its draws depend on the
interleaving by design.  For the concurrency property each simulated thread gets its own
stream; everything else stays shared.
"""
import threading

import numpy as np

NAMES = ["choice", "normal", "uniform", "rand", "randn", "randint", "random", "random_sample",
         "multivariate_normal", "permutation", "shuffle", "standard_normal", "beta", "gamma",
         "exponential", "poisson", "binomial", "laplace", "lognormal", "triangular", "seed",
         "get_state", "set_state", "bytes", "sample", "ranf", "multinomial", "dirichlet"]


class PerThread:
    def __init__(self, seeds):
        self.seeds = list(seeds)        # assigned by simulator thread index
        self.streams = {}

    def stream(self):
        i = threading.get_ident()
        s = self.streams.get(i)
        if s is None:
            s = self.streams[i] = np.random.RandomState(0)
        return s

    def bind(self, k):
        """Called inside a thread: this thread draws from stream k."""
        self.streams[threading.get_ident()] = np.random.RandomState(self.seeds[k])

    def __enter__(self):
        self.saved = {}
        for n in NAMES:
            if hasattr(np.random, n):
                self.saved[n] = getattr(np.random, n)

                def f(*a, _n=n, **k):
                    return getattr(self.stream(), _n)(*a, **k)
                setattr(np.random, n, f)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
