"""Replaces the sources of randomness of numpy.random, wherever the code under check has imported them."""
import contextlib
import sys

import numpy as np


@contextlib.contextmanager
def patched(uniform=None, normal=None, **repl):
    """patched(uniform=f, normal=g, choice=h, ...)

    f and g take a shape (tuple) and stand for every numpy.random function returning uniform numbers of [0,1) / standard
    normal numbers; the others replace the function of that name, also where a tensap module has imported it.
    Yields the list of the names called, so that a check can tell whether the code drew from that source at all."""
    used = []
    saved = []

    def shape(size):
        return () if size is None else tuple(int(k) for k in np.atleast_1d(size))

    def scalar(x, s):
        return float(x) if s == () else x
    if uniform is not None:
        u = lambda s: scalar(uniform(s), s)   # noqa
        repl.setdefault("rand", lambda *n: u(tuple(int(k) for k in n)))
        for name in ("random", "random_sample", "ranf", "sample"):
            repl.setdefault(name, lambda size=None: u(shape(size)))
        repl.setdefault("uniform", lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * u(
            shape(size) if size is not None else np.broadcast(low, high).shape))
    if normal is not None:
        g = lambda s: scalar(normal(s), s)   # noqa
        repl.setdefault("randn", lambda *n: g(tuple(int(k) for k in n)))
        repl.setdefault("standard_normal", lambda size=None: g(shape(size)))
        repl.setdefault("normal", lambda loc=0.0, scale=1.0, size=None: loc + np.asarray(scale) * g(
            shape(size) if size is not None else np.broadcast(loc, scale).shape))

    def wrap(name, fn):
        def call(*a, **k):
            used.append(name)
            return fn(*a, **k)
        return call
    mods = [np.random] + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "tensap" and m is not None]
    for name, fn in repl.items():
        orig = getattr(np.random, name)
        new = wrap(name, fn)
        for m in mods:
            for a, v in list(vars(m).items()):
                if v is orig:
                    saved.append((m, a, v))
                    setattr(m, a, new)
    try:
        yield used
    finally:
        for m, a, v in saved:
            setattr(m, a, v)
