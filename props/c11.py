"""Random stationary binaries (circular and eccentric, frequencies from far below to above the band), mission
lengths in any unit, every instrument with random arm length, response and confusion choices and user-supplied
noise, exact and user-supplied g(n, e) and noise interpolators; every SNR, every harmonic's share and the
strongest harmonic against the independent reference sum."""
import astropy.units as u
import numpy as np

import gen
import obs
import ref
from harness import case
from ref import YR
from srcs import KPC


def binaries(rng, n):
    m1, m2 = gen.masses(rng, n)
    mc = ref.chirp_mass(m1, m2)
    f = gen.logu(rng, 1e-6, 3e-2, n)
    if rng.random() < .25:
        f = np.where(rng.random(n) < .3, gen.logu(rng, 1e-9, 3, n), f)
    return m1, m2, mc, f, gen.logu(rng, 1e-3, 1e5, n) * KPC


def fakes(rng, kw, noise):
    """Interpolators of the user's own, different from the exact functions."""
    gf, out, calls = None, {}, {"sc": 0, "g": 0}
    if rng.random() < .35:
        k = float(rng.uniform(.2, 3))

        def sc(f):
            calls["sc"] += 1
            return k * 1e-40 * (1 + (f.to(u.Hz).value / 1e-3)**2) / u.Hz
        out["interpolated_sc"] = sc
        noise = lambda x: k * 1e-40 * (1 + (x / 1e-3)**2)       # noqa: E731
    if rng.random() < .35:
        q = float(rng.uniform(.2, 3))

        def gi(n, e):
            calls["g"] += 1
            n, e = np.broadcast_arrays(n, e)
            return q * (1 + e) / n**2

        def gf(n, e):
            return q * (1 + e) / n**2
        out["interpolated_g"] = gi
    return out, noise, gf, calls


def strongest(t, name, got, rows, tol=1e-9):
    got = np.asarray(got)
    t.true(name + ": one per binary", got.shape == (len(rows),), shape=got.shape)
    t.true(name + " is an integer", got.dtype.kind in "iu", dtype=str(got.dtype))
    for k, r in zip(got, rows):
        if r.max() > 0:
            t.le(name, r.max() * (1 - tol), r[int(k) - 1], harmonic=int(k), best=int(r.argmax()) + 1)


@case(quick=500, thorough=15000)
def circular(t):
    rng, N = t.rng, t.L.snr
    n = gen.size(rng, 15, crowd=.03)
    m1, m2, mc, f, d = binaries(rng, n)
    kw, tq, t_yr, noise, name = obs.draw(rng)
    fk, noise, gf, calls = fakes(rng, kw, noise)
    a = dict(m_c=gen.q(rng, mc, "mass"), f_orb=gen.layout(rng, gen.q(rng, f, "freq")), dist=gen.q(rng, d, "dist"), t_obs=tq)
    t.note(**a, **{k: v for k, v in kw.items() if not callable(v)})
    t.seen(name, tuple(fk), n)
    got = t.plain("snr", N.snr_circ_stationary(**a, **kw, **fk))
    want = np.sqrt(ref.snr2_stat(mc, f, 0 * f, d, t_yr * YR, [2], noise, gf)[:, 0])
    t.eq("SNR of circular stationary binaries", got, want, 1e-8)
    t.true("finite and non-negative", np.isfinite(got) & (got >= 0), got=got)
    t.true("interpolators are used", all(calls[k[-2:].replace("_g", "g")] > 0 for k in fk), calls=calls)
    s = float(gen.logu(rng, .1, 30))
    b = dict(a, dist=a["dist"] * s)
    t.eq("inversely proportional to distance", t.plain("snr", N.snr_circ_stationary(**b, **kw, **fk)), got / s, 1e-10)
    i = int(rng.integers(n))
    one = {k: (v if k == "t_obs" else v[i:i + 1]) for k, v in a.items()}
    t.eq("independent of the other binaries", t.plain("snr", N.snr_circ_stationary(**one, **kw, **fk)), got[i:i + 1], 1e-12)
    t.count("out of band", (got == 0).sum())


@case(quick=500, thorough=12000)
def eccentric(t):
    rng, N = t.rng, t.L.snr
    n = gen.size(rng, 12, crowd=.05)
    m1, m2, mc, f, d = binaries(rng, n)
    e = gen.ecc(rng, n, 0, .9, circ=.1)
    kw, tq, t_yr, noise, name = obs.draw(rng)
    fk, noise, gf, calls = fakes(rng, kw, noise)
    H = int([1, 2, 3, 10, 10, 100, int(rng.integers(2, 200))][int(rng.integers(7))])
    if n > 40 and rng.random() < .7:
        H = int(rng.integers(50, 500))
        e = np.maximum(e, rng.uniform(0, .9))
    elif rng.random() < .03:      # as many harmonics as the most eccentric need
        H = int(gen.logu(rng, 200, 3000))
    H = min(H, max(10, 400000 // n))
    a = dict(m_c=gen.q(rng, mc, "mass"), f_orb=gen.q(rng, f, "freq"), ecc=gen.layout(rng, e), dist=gen.q(rng, d, "dist"), t_obs=tq)
    t.note(**a, harmonics=H, **{k: v for k, v in kw.items() if not callable(v)})
    t.seen(name, tuple(fk), n, H)
    rows = ref.snr2_stat(mc, f, e, d, t_yr * YR, np.arange(1, H + 1), noise, gf)
    want = np.sqrt(rows.sum(1))
    got = t.plain("snr", N.snr_ecc_stationary(harmonics_required=H, **a, **kw, **fk))
    t.eq("SNR of eccentric stationary binaries", got, want, 1e-7)
    t.true("finite and non-negative", np.isfinite(got) & (got >= 0), got=got)
    t.true("interpolators are used", all(calls[k[-2:].replace("_g", "g")] > 0 for k in fk), calls=calls)
    by = t.plain("snr^2", N.snr_ecc_stationary(harmonics_required=H, ret_snr2_by_harmonic=True, **a, **kw, **fk))
    t.eq("share of each harmonic", by, rows, 1e-7, 1e-13 * rows.max(axis=1, keepdims=True))
    t.eq("shares add up to the total", by.sum(1), got**2, 1e-10)
    res = N.snr_ecc_stationary(harmonics_required=H, ret_max_snr_harmonic=True, **a, **kw, **fk)
    t.true("SNR and strongest harmonic", isinstance(res, tuple) and len(res) == 2)
    t.eq("same SNR with the strongest harmonic", t.plain("snr", res[0]), got, 1e-12)
    strongest(t, "strongest harmonic", res[1], rows)
    s = float(gen.logu(rng, .1, 30))
    b = dict(a, dist=a["dist"] * s)
    t.eq("inversely proportional to distance", t.plain("snr", N.snr_ecc_stationary(harmonics_required=H, **b, **kw, **fk)), got / s, 1e-10)
    i = int(rng.integers(n))
    one = {k: (v if k == "t_obs" else v[i:i + 1]) for k, v in a.items()}
    t.eq("independent of the other binaries", t.plain("snr", N.snr_ecc_stationary(harmonics_required=H, **one, **kw, **fk)), got[i:i + 1], 1e-12)
    t.count("out of band", (got == 0).sum())
    t.count("harmonics judged", by.size)


@case(quick=60, thorough=1500)
def circular_limit(t):
    """An eccentric calculation of a circular binary is the circular one, and longer missions see more."""
    rng, N = t.rng, t.L.snr
    n = gen.size(rng, 8)
    m1, m2, mc, f, d = binaries(rng, n)
    f = np.minimum(f, .3)
    kw, tq, t_yr, noise, name = obs.draw(rng, simple=1.0)
    a = dict(m_c=gen.q(rng, mc, "mass"), f_orb=gen.q(rng, f, "freq"), dist=gen.q(rng, d, "dist"), t_obs=tq)
    t.note(**a)
    t.seen(name, n)
    c = t.plain("snr", N.snr_circ_stationary(**a, **kw))
    e = t.plain("snr", N.snr_ecc_stationary(harmonics_required=int(rng.integers(2, 20)), ecc=np.zeros(n), **a, **kw))
    t.eq("eccentric calculation at e = 0", e, c, 1e-7)


@case(quick=40, thorough=800)
def oriented(t):
    """Circular stationary SNR with a sky position is the averaged one times the modulation."""
    rng, N = t.rng, t.L.snr
    from astropy.coordinates import SkyCoord
    n = gen.size(rng, 8)
    m1, m2, mc, f, d = binaries(rng, n)
    kw, tq, t_yr, noise, name = obs.draw(rng)
    lon, lat = rng.uniform(0, 2 * np.pi, n), np.arcsin(rng.uniform(-1, 1, n))
    psi, inc = rng.uniform(0, np.pi, n), np.arccos(rng.uniform(-1, 1, n))
    pos = SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=d * u.m, frame="barycentrictrueecliptic")
    t.note(lon=lon, lat=lat, psi=psi, inc=inc)
    t.seen(name, n)
    got = t.plain("snr", N.snr_circ_stationary(m_c=mc * u.kg, f_orb=f * u.Hz, dist=d * u.m, t_obs=tq, position=pos,
                                               polarisation=gen.q(rng, psi, "angle"), inclination=gen.q(rng, inc, "angle"), **kw))
    want = ref.snr2_stat(mc, f, 0 * f, d, t_yr * YR, [2], noise)[:, 0] * ref.modulation(lon, lat, psi, inc)
    t.eq("oriented SNR", got**2, want, 1e-7, 1e-13 * want.max())
