"""Source collections for the checks of legwork.source, with their contents in SI."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

import gen
import ref
from ref import YR

KPC = (1 * u.kpc).to(u.m).value
_G = {}


def ecc_tol(tol):
    """Reference transition eccentricity (resolution 2e-5)."""
    from scipy.optimize import brentq
    return brentq(lambda e: float(ref.g(2, e)) / ref.F(e) - (1 - tol), 1e-9, 0.25)


def contents(rng, n, classes="cCeE", e_hi=0.9, t_yr=4.0, f_hi=0.05, f_lo=1e-5, merging=False, e_tol=0.0667, d=None):
    """SI arrays of n binaries; classes: c/C circular stationary/evolving, e/E eccentric stationary/evolving,
    s eccentric below the transition.  Evolving ones change by at least 2 % in t_yr, stationary by at most 0.5 %."""
    m1, m2 = gen.light(rng, n)
    mc = ref.chirp_mass(m1, m2)
    kind = rng.choice(list(classes), n)
    e = np.zeros(n)
    hi = rng.uniform(e_tol * 1.05, e_hi, n)
    e = np.where(np.isin(kind, ["e", "E"]), hi, e)
    e = np.where((kind == "s") | ((np.isin(kind, ["c", "C"])) & (rng.random(n) < .25)),
                 e_tol * rng.uniform(.05, .97, n) if e_tol > 0 else 0.0, e)
    # circular merger time (with F(e) held) between ~ t_yr and 60 t_yr (evolving), above 800 t_yr (stationary)
    lo = 1.3 if not merging else 0.3
    tm = np.where(np.isin(kind, ["C", "E"]), t_yr * gen.logu(rng, lo, 15, n), t_yr * gen.logu(rng, 120, 1e8, n)) * YR
    f = gen.f_for_tmerge(mc, tm, ref.F(e))
    stat = ~np.isin(kind, ["C", "E"])
    # (not at the round limits themselves: their harmonics would sit on the edges of fits and bands)
    f = np.where(stat, np.clip(f, f_lo * rng.uniform(1, 1.3, n), f_hi * rng.uniform(.8, 1, n)), f)
    # clipping from below can only make a source more evolving: redo those
    rem = ref.f_circ_final(f, mc, t_yr * YR, e)[1]
    f = np.where(stat & (rem < 1 - 0.012), gen.f_for_tmerge(mc, 150 * t_yr * YR, ref.F(e)), f)
    dist = gen.logu(rng, .5, 100, n) * KPC if d is None else np.full(n, d)
    return dict(m1=m1, m2=m2, f=f, e=e, d=dist, kind=kind)


def orient(rng, S):
    n = len(S["m1"])
    S.update(lon=rng.uniform(0, 2 * np.pi, n), lat=np.arcsin(rng.uniform(-1, 1, n)), psi=rng.uniform(0, np.pi, n),
             inc=np.arccos(rng.uniform(0, 1, n)))
    return S


def take(S, i):
    return {k: v[i] for k, v in S.items()}


def kwargs(rng, S, si=False, give=None):
    """Constructor arguments: random units unless si; frequency or separation."""
    if si:
        kw = dict(m_1=S["m1"] * u.kg, m_2=S["m2"] * u.kg, ecc=S["e"].copy(), dist=S["d"] * u.m, f_orb=S["f"] * u.Hz)
    else:
        kw = dict(m_1=gen.q(rng, S["m1"], "mass"), m_2=gen.q(rng, S["m2"], "mass"), ecc=S["e"].copy(),
                  dist=gen.q(rng, S["d"], "dist"))
        give = give or ("a" if rng.random() < .25 else "f_orb")
        if give == "a":
            kw["a"] = gen.q(rng, ref.a_of_f(S["f"], S["m1"], S["m2"]), "len")
        else:
            kw["f_orb"] = gen.q(rng, S["f"], "freq")
    if "lon" in S:
        kw["position"] = SkyCoord(lon=S["lon"] * u.rad, lat=S["lat"] * u.rad, distance=S["d"] * u.m,
                                  frame="barycentrictrueecliptic")
        kw["polarisation"] = S["psi"] * u.rad if si else gen.q(rng, S["psi"], "angle")
        kw["inclination"] = S["inc"] * u.rad if si else gen.q(rng, S["inc"], "angle")
    if "w" in S:
        kw["weights"] = S["w"].copy()
    return kw


def make(t, S, si=False, klass="Source", **kw):
    k = dict(interpolate_g=False, interpolate_sc=False)
    k.update(kwargs(t.rng, S, si))
    k.update(kw)
    return getattr(t.L.source, klass)(**k)


def with_g(t, s):
    """Give a collection the interpolated g(n, e) without building the spline again (set_g is slow)."""
    key = id(t.run)
    if key not in _G:
        s.set_g(True)
        _G[key] = s.g
    s.g = _G[key]
    return s


def mod2(S):
    """Squared-strain modulation, or 1 for orientation-averaged collections."""
    if "lon" not in S:
        return np.ones(len(S["m1"]))
    return ref.modulation(S["lon"], S["lat"], S["psi"], S["inc"])


def group(hr):
    for up in (10, 100, 1000, 10000):
        if hr <= up:
            return up
    return 10000


def snr_parts(S, i, t_yr, noise, n_step, stationary, circular, N, t_merge=None, gf=None):
    """Per-harmonic SNR^2 of one source: list of acceptable rows."""
    s = take(S, slice(i, i + 1))
    T = t_yr * YR
    mc = ref.chirp_mass(s["m1"], s["m2"])
    if stationary and circular:
        return [ref.snr2_stat(mc, s["f"], 0.0 * s["e"], s["d"], T, [2], noise, gf)[0] * mod2(s)]
    if stationary:
        return [ref.snr2_stat(mc, s["f"], s["e"], s["d"], T, np.arange(1, N + 1), noise, gf)[0]]
    tm = None if t_merge is None else t_merge[i:i + 1]
    if circular:
        return [ref.snr2_circ_evol(s["m1"], s["m2"], s["f"], s["d"], T, n_step, noise, gf, tm)[0]]
    return [r[0] for r in ref.snr2_ecc_evol(s["m1"], s["m2"], s["f"], s["e"], s["d"], T, n_step, N, noise, gf, None)]
