"""Workers of a process pool that finish in another order than they were started in."""
import contextlib
import functools
import os
import time


@contextlib.contextmanager
def dawdling(E, rng, longest=0.02):
    """Integrations in child processes take a random time; earlier ones tend to take longer."""
    seed, parent, mods = int(rng.integers(1 << 31)), os.getpid(), []

    def slow(f):
        @functools.wraps(f)
        def inner(*a, **k):
            if os.getpid() != parent:
                # the first integrations of a child are the slowest
                n = inner.__dict__["calls"] = inner.__dict__.get("calls", 0) + 1
                time.sleep(longest * ((hash((seed, os.getpid(), n)) % 1000) / 1000) / n)
            return f(*a, **k)
        return inner
    for name in ("odeint", "solve_ivp"):
        if callable(getattr(E, name, None)):
            mods.append((name, getattr(E, name)))
            setattr(E, name, slow(getattr(E, name)))
    try:
        yield
    finally:
        for name, f in mods:
            setattr(E, name, f)
