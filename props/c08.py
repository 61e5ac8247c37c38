"""Random circular binaries evolved with every way of giving the binary (masses or beta, frequency or
separation, any unit, scalar or batch) and the times (duration for all or per binary, default, 1D or 2D
timesteps), every subset and order of outputs, to times before, at and past the merger; each element against
the closed form, plus piecewise evolution and resampling."""
import astropy.units as u
import numpy as np

import gen
import ref
from harness import case
from tracks import times, unpack, way

OUT = ["timesteps", "a", "f_orb", "f_GW"]


def binaries(rng, n):
    m1, m2 = gen.masses(rng, n)
    f = gen.logu(rng, 1e-6, .1, n) if rng.random() < .85 else gen.logu(rng, 1e-2, 1e3, n)
    return m1, m2, f, ref.a_of_f(f, m1, m2), ref.beta(m1, m2)


def outputs(rng, need=None):
    k = int(rng.integers(1, 5))
    out = [OUT[i] for i in rng.permutation(4)[:k]]
    if k == 1 and rng.random() < .6:
        return out[0], out
    return (out if rng.random() < .7 else np.array(out)), out


def judge(t, r, grid, a, b, m1, m2):
    d = a[:, None]**4 - 4 * b[:, None] * grid
    x = d / a[:, None]**4                       # fraction of a^4 left
    merged, alive = x < -1e-11, x > 1e-11
    if "timesteps" in r:
        t.eq("times used", r["timesteps"], grid, 1e-12, 1e-12 * grid.max())
    if "a" in r:
        ratio = r["a"] / a[:, None]
        t.eq("a^4 left", ratio**4, np.maximum(x, 0), 1e-9, 2e-11)
        t.true("separation 0 after the merger", ratio[merged] == 0)
        t.true("separation positive before the merger", ratio[alive] > 0)
    for k, mult in (("f_orb", 1), ("f_GW", 2)):
        if k in r:
            fo = r[k] / mult
            t.true(k + " marks merged binaries", np.abs(fo[merged] - 100) < 1e-9, got=fo[merged])
            want = ref.f_of_a(a[:, None] * np.maximum(x, 1e-11)**.25, m1[:, None], m2[:, None])
            t.le(k + " follows Kepler", np.abs((want / fo)**(8 / 3) - 1)[alive], (1e-9 + 3e-12 / x)[alive])
    if "f_orb" in r and "f_GW" in r:
        t.eq("f_GW is twice f_orb", r["f_GW"], 2 * r["f_orb"], 1e-12)
    t.count("steps past the merger", merged.sum())
    t.count("steps before the merger", alive.sum())


@case(quick=1750, thorough=25000)
def evolution(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 10, crowd=.02)
    scalar = n == 1 and rng.random() < .6
    m1, m2, f, a, b = binaries(rng, n)
    ov, names = outputs(rng)
    kw = way(rng, m1, m2, f, a, b, "f_orb" in names or "f_GW" in names)
    if scalar:
        kw = {k: v[0] for k, v in kw.items()}
    tm = ref.t_circ(a, b)
    tk, grid, own = times(rng, tm, scalar, disorder=True)
    t.note(output_vars=ov, scalar=scalar, **kw, **tk)
    t.seen(tuple(kw), tuple(tk), tuple(names), n, scalar, grid.shape[1])
    r = unpack(t, E.evol_circ(output_vars=ov, **kw, **tk), names, n, grid.shape[1], scalar)
    judge(t, r, grid, a, b, m1, m2)


@case(quick=375, thorough=4000)
def default_output(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 6, crowd=.02)
    m1, m2, f, a, b = binaries(rng, n)
    kw = way(rng, m1, m2, f, a, b, True)
    tk, grid, own = times(rng, ref.t_circ(a, b), False)
    t.note(**kw, **tk)
    t.seen(tuple(kw), tuple(tk), n)
    r = unpack(t, E.evol_circ(**kw, **tk), ["f_orb"], n, grid.shape[1], False)
    judge(t, r, grid, a, b, m1, m2)
    if "t_evol" in tk and "n_step" in tk and tk["t_evol"] is not None:
        ts = t.val("create_timesteps_array", E.create_timesteps_array(a_i=a * u.m, beta=b * u.m**4 / u.s, **tk), u.s)
        t.eq("create_timesteps_array", ts, grid, 1e-12, 1e-12 * grid.max())


@case(quick=375, thorough=4000)
def pieces(t):
    """Consecutive evolutions and finer sampling reach the same states."""
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 6, crowd=.02)
    m1, m2, f, a, b = binaries(rng, n)
    tm = ref.t_circ(a, b)
    t1, t2 = tm * rng.uniform(0, .6, n), tm * rng.uniform(0, .39, n)
    M = dict(m_1=m1 * u.kg, m_2=m2 * u.kg)
    t.note(m_1=m1, m_2=m2, f=f, first=t1 / tm, second=t2 / tm)
    t.seen(n, t.index)
    k1, k2, k3 = [int(v) for v in rng.integers(2, 20, 3)]
    whole = t.val("f", E.evol_circ(t_evol=(t1 + t2) * u.s, n_step=k1, f_orb_i=f * u.Hz, **M), u.Hz)[:, -1]
    half = E.evol_circ(t_evol=t1 * u.s, n_step=k2, f_orb_i=f * u.Hz, **M)[:, -1]
    rest = t.val("f", E.evol_circ(t_evol=t2 * u.s, n_step=k3, f_orb_i=half, **M), u.Hz)[:, -1]
    t.eq("two pieces reach the same state", rest, whole, 1e-8)
    fine = t.val("f", E.evol_circ(t_evol=(t1 + t2) * u.s, n_step=2 * k1 - 1, f_orb_i=f * u.Hz, **M), u.Hz)
    coarse = t.val("f", E.evol_circ(t_evol=(t1 + t2) * u.s, n_step=k1, f_orb_i=f * u.Hz, **M), u.Hz)
    t.eq("finer sampling passes through the same states", fine[:, ::2], coarse, 1e-9)
    t.true("frequency never decreases", np.diff(fine, axis=1) >= -1e-12 * fine[:, 1:])
    t.eq("starts at the initial state", coarse[:, 0], f, 1e-11)


@case(quick=150, thorough=600)
def missing(t):
    rng, E = t.rng, t.L.evol
    n = int(rng.integers(1, 4))
    m1, m2, f, a, b = binaries(rng, n)
    Q = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, a_i=a * u.m, beta=b * u.m**4 / u.s)
    bad, ov = [(("beta", "a_i"), "f_orb"), (("beta", "a_i"), ["a", "f_GW"]), (("m_1", "f_orb_i"), "a"), (("m_1", "m_2"), "a"),
               (("beta", "f_orb_i"), "a"), (("beta", "a_i", "m_1"), ["f_orb"]), ((), "timesteps"), (("a_i",), "a")][t.index % 8]
    t.note(given=bad, output_vars=ov)
    t.seen(bad, str(ov))
    t.raises("evol_circ without enough input", ValueError, E.evol_circ, t_evol=1 * u.Myr, output_vars=ov, **{k: Q[k] for k in bad})
