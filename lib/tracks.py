"""Arguments and results of the evolution functions (shared by the circular and eccentric checks)."""
import astropy.units as u
import numpy as np

import gen


def way(rng, m1, m2, f, a, b, need_masses):
    k = int(rng.integers(2 if need_masses else 4))
    q1, q2 = gen.q(rng, m1, "mass"), gen.q(rng, m2, "mass")
    if k == 0:
        return dict(m_1=q1, m_2=q2, f_orb_i=gen.q(rng, f, "freq"))
    if k == 1:
        return dict(m_1=q1, m_2=q2, a_i=gen.q(rng, a, "len"))
    if k == 2:
        return dict(beta=b * u.m**4 / u.s, a_i=gen.q(rng, a, "len"))
    return dict(beta=(b * u.m**4 / u.s).to(u.Rsun**4 / u.Myr), m_1=q1, m_2=q2, f_orb_i=gen.q(rng, f, "freq"))


def times(rng, tm, scalar, allow_none=True, top=1.6, disorder=False):
    """Time arguments and the expected (n, steps) grid in seconds; tm are merger times."""
    n = len(tm)
    k = int(rng.integers(5))
    n_step = int(rng.choice([2, 3, 10, 100, int(rng.integers(2, 40))]))
    tu = gen.UNITS["time"][int(rng.integers(6))]
    kw = {}
    if k in (0, 1, 4):
        if rng.random() < .7 or k == 4:
            kw["n_step"] = n_step
        else:
            n_step = 100
    if k == 0:                              # one duration for all
        te = float(np.median(tm) * rng.uniform(0.05, top))
        kw["t_evol"] = (te * u.s).to(tu)
        end = np.full(n, te)
    elif k == 1 and not scalar:             # one per binary
        end = tm * rng.uniform(0.0, top, n)
        if rng.random() < .25:
            end[rng.random(n) < .4] = 0     # nothing to do for some
        kw["t_evol"] = (end * u.s).to(tu)
    elif k in (2, 3) and not (k == 3 and scalar):
        m = int(rng.integers(1, 12))
        if k == 2:                          # 1D for every binary
            ts = np.sort(rng.uniform(0, top * np.median(tm), m))
            ts[0] = 0
            if disorder and rng.random() < .3:
                ts = rng.permutation(ts)
            kw["timesteps"] = gen.layout(rng, (ts * u.s).to(tu))
            grid = np.broadcast_to(ts, (n, m)).copy()
        else:                               # 2D
            ts = np.sort(rng.uniform(0, 1, (n, m)), axis=1) * top * tm[:, None]
            ts[:, 0] = 0
            if m > 1 and rng.random() < .25:    # different times that end together
                ts *= rng.uniform(.1, top) * tm.min() / ts[:, -1:]
                ts[:, -1] = ts[0, -1]
            if disorder and rng.random() < .3:
                ts = rng.permutation(ts, axis=1)
            kw["timesteps"] = (ts * u.s).to(tu)
            grid = ts
        return kw, grid, True
    elif allow_none:
        if rng.random() < .5:
            kw["t_evol"] = None
        if k not in (0, 1, 4):
            kw["n_step"] = n_step
        end = tm
    else:
        te = float(np.median(tm) * rng.uniform(0.05, top))
        kw["t_evol"] = (te * u.s).to(tu)
        kw["n_step"] = n_step
        end = np.full(n, te)
    grid = end[:, None] * np.linspace(0, 1, n_step)[None, :]
    return kw, grid, False


def unpack(t, res, names, n, m, scalar):
    """Dictionary of (n, m) SI arrays."""
    if len(names) == 1:
        res = [res]
    t.true("one result per requested output", len(res) == len(names), got=len(res), want=names)
    un = {"timesteps": u.s, "a": u.m, "f_orb": u.Hz, "f_GW": u.Hz}
    out = {}
    for k, v in zip(names, res):
        v = np.asarray(v) if k == "ecc" else t.val(k, v, un[k])
        t.true("shape of " + k, np.shape(v) == ((m,) if scalar else (n, m)), got=np.shape(v), want=((m,) if scalar else (n, m)))
        out[k] = v.reshape(n, m)
    return out
