"""Reference model: the physics LEGWORK promises, in plain SI floats, written independently.

Nothing here imports legwork.  Where there is a choice the formulas are arranged differently from
the repository (g(n, e) from J_n and J_{n-1} only, merger times as an integral over
t = e / sqrt(1 - e^2), eccentricity evolution by *inverting* that integral instead of integrating an
ODE, characteristic strain from the strain amplitude and the chirp rate).
"""
import os

import numpy as np
from astropy import constants as const
from astropy import units as u
from scipy.integrate import quad
from scipy.interpolate import make_interp_spline
from scipy.optimize import brentq

from overlay import VERIF, table_g

G = const.G.si.value
C = const.c.si.value
MSUN = const.M_sun.si.value
AU = const.au.si.value
YR = (1 * u.yr).to(u.s).value
GYR = 1e9 * YR
F_MERGED = 1e2      # Hz: orbital frequency given to merged sources
pi = np.pi


# ---------------------------------------------------------------- orbital algebra
def chirp_mass(m1, m2):
    m1, m2 = np.asarray(m1, float), np.asarray(m2, float)
    return np.exp(0.6 * (np.log(m1) + np.log(m2)) - 0.2 * np.log(m1 + m2))


def a_of_f(f, m1, m2):
    return np.cbrt(G * (m1 + m2) / (2 * pi * f)**2)


def f_of_a(a, m1, m2):
    return np.sqrt(G * (m1 + m2) / a) / a / (2 * pi)


def beta(m1, m2):
    return 12.8 * (G / C)**3 / C**2 * m1 * m2 * (m1 + m2)


def F(e):
    e2 = np.asarray(e, float)**2
    return (1 + e2 * (73 / 24 + 37 / 96 * e2)) * ((1 - e2)**-3 / np.sqrt(1 - e2))


def c0(a, e):
    e = np.asarray(e, float)
    return a * (1 - e) * (1 + e) / e**(12 / 19) / (1 + 121 * e**2 / 304)**(870 / 2299)


def a_of_e(e, c_0):
    e = np.asarray(e, float)
    return c_0 * e**(12 / 19) / ((1 - e) * (1 + e)) * (1 + 121 * e**2 / 304)**(870 / 2299)


def fdot_n(mc, f, e, n):
    """96/5 pi^(8/3) (G mc / c^3)^(5/3) f_gw^(11/3) for n=2, e=0; scales as n/2 and F(e)."""
    tm = G * mc / C**3
    return n / 2.0 * 96 / 5 * pi**(8 / 3) * tm**(5 / 3) * (2 * f)**(11 / 3) * F(e)


def g(n, e):
    n, e = np.broadcast_arrays(np.asarray(n, float), np.asarray(e, float))
    return table_g(n.ravel(), e.ravel()).reshape(n.shape)


# ---------------------------------------------------------------- strain
def h0(mc, f, e, n, d):
    """Broadcasting, all SI.  h_0,n (Peters & Mathews power at f_n, averaged convention)."""
    tm = G * mc / C**3
    return np.sqrt(2**(28 / 3) / 5) * tm**(5 / 3) * (pi * f)**(2 / 3) * C / d * np.sqrt(g(n, e)) / n


def hc(mc, f, e, n, d):
    """h_c^2 = f_n^2 h_0^2 / fdot_n."""
    fn = n * f
    return np.sqrt(fn**2 * h0(mc, f, e, n, d)**2 / fdot_n(mc, f, e, n))


# ---------------------------------------------------------------- orientation
def D2(theta, phi):
    """Cornish & Larson (2003) Eq. 44: <D+^2>, <Dx^2>, <D+Dx>."""
    ct, st, s2p = np.cos(theta), np.sin(theta), np.sin(2 * phi)
    dp = 3 / 2048 * (487 + 158 * ct**2 + 7 * ct**4 - 162 * s2p**2 * (1 + ct**2)**2)
    dx = 3 / 512 * (120 * st**2 + ct**2 + 162 * s2p**2 * ct**2)
    dpx = 243 / 512 * ct * s2p * np.cos(2 * phi) * (1 + ct**2)
    return dp, dx, dpx


def F2(theta, phi, psi):
    dp, dx, dpx = D2(theta, phi)
    c2, s2 = np.cos(2 * psi), np.sin(2 * psi)
    fp = 0.25 * (c2**2 * dp - 2 * s2 * c2 * dpx + s2**2 * dx)
    fx = 0.25 * (c2**2 * dx + 2 * s2 * c2 * dpx + s2**2 * dp)
    return fp, fx


def modulation(lon, lat, psi, inc):
    fp, fx = F2(pi / 2 - lat, lon, psi)
    ci = np.cos(inc)
    return 1.25 * (((1 + ci**2) / 2)**2 * fp + ci**2 * fx)


# ---------------------------------------------------------------- detector noise
_R = None
R_XMAX = 108.5065       # f / f* at which the published table of R ends


def response(f, fstar):
    """Published table; the documented approximation beyond its end."""
    global _R
    if _R is None:
        x, r = np.load(os.path.join(VERIF, "data", "R.npy"), allow_pickle=True)
        _R = make_interp_spline(np.asarray(x, float), np.asarray(r, float), k=3)
    x = np.asarray(f, float) / fstar
    return np.where(x > R_XMAX, response_approx(x, 1.0), _R(np.minimum(x, R_XMAX)))


def response_approx(f, fstar):
    return 0.3 / (1 + 0.6 * (np.asarray(f, float) / fstar)**2)


ROBSON = {0.5: (0.133, 243., 482., 917., 2.58e-3), 1.0: (0.171, 292., 1020., 1680., 2.15e-3),
          2.0: (0.165, 299., 611., 1340., 1.73e-3), 4.0: (0.138, -221., 521., 1680., 1.13e-3)}
HUANG = {0.5: (-18.6, -1.22, 0.009, -1.87, 0.65, 3.6, -4.6),
         1.0: (-18.6, -1.13, -0.945, -1.02, 4.05, -4.5, -0.5),
         2.0: (-18.6, -1.45, 0.315, -1.19, -4.48, 10.8, -9.4),
         4.0: (-18.6, -1.43, -0.687, 0.24, -0.15, -1.8, -3.2),
         5.0: (-18.6, -1.51, -0.71, -1.13, -0.83, 13.2, -19.1)}


def nearest(lengths, t_yr):
    """The tabulated mission length closest to t_yr (ties: the shorter one)."""
    return min(lengths, key=lambda x: (abs(x - t_yr), x))


def confusion(f, model, t_yr):
    f = np.asarray(f, float)
    if model is None:
        return np.zeros_like(f)
    if model == "robson19":
        al, be, ka, ga, fk = ROBSON[nearest(ROBSON, t_yr)]
        return 9e-45 * f**(-7 / 3) * np.exp(-f**al + be * f * np.sin(ka * f)) * (1 + np.tanh(ga * (fk - f)))
    if model == "huang20":
        co = HUANG[nearest(HUANG, t_yr)]
        x = np.log10(f) + 3
        s = np.polynomial.polynomial.polyval(x, co)
        return np.where((f < 1e-4) | (f > 1.0), 0.0, 10.0**(2 * s))
    if model == "thiele21":
        x = np.log10(f)
        co = [-540.315450, -554.061115, -233.748834, -44.021504, -3.112634]
        return 10**np.polynomial.polynomial.polyval(x, co) * 4 * YR
    if model == "karnesis21":
        f1 = 10**(-0.15 * np.log10(t_yr) - 2.72)
        fk = 10**(-0.37 * np.log10(t_yr) - 2.49)
        return 0.5 * 1.15e-44 * f**(-7 / 3) * np.exp(-(f / f1)**1.56) * (1 + np.tanh((fk - f) / 0.00067))
    raise KeyError(model)


def lisa_psd(f, t_yr=4.0, L=2.5e9, approx=False, conf="karnesis21"):
    f = np.asarray(f, float)
    ok = (f >= 1e-7) & (f <= 2.0)
    x = np.where(ok, f, 1e-3)
    poms = 1.5e-11**2 * (1 + (2e-3 / x)**4)
    pacc = 3e-15**2 * (1 + (0.4e-3 / x)**2) * (1 + (x / 8e-3)**4)
    fs = C / (2 * pi * L)
    pn = (poms + 2 * (1 + np.cos(x / fs)**2) * pacc / (2 * pi * x)**4) / L**2
    R = response_approx(x, fs) if approx else response(x, fs)
    cn = conf(x, t_yr) if callable(conf) else confusion(x, conf, t_yr)
    return np.where(ok, pn / R + cn, np.inf)


def tianqin_psd(f, t_yr=5.0, L=np.sqrt(3) * 1e8, conf="huang20"):
    f = np.asarray(f, float)
    fs = C / (2 * pi * L)
    sa, sx = 1e-30, 1e-24
    base = 10 / 3 / L**2 * (sx + 4 * sa * (1 + 1e-4 / f) / (2 * pi * f)**4) * (1 + 0.6 * (f / fs)**2)
    cn = conf(f, t_yr) if callable(conf) else confusion(f, conf, t_yr)
    return base + cn


def decigo_psd(f, t_yr=4.0, conf="karnesis21", f_low=1e-3, f_high=1e2):
    f = np.asarray(f, float)
    ok = (f >= f_low) & (f <= f_high)
    x = np.where(ok, f, 1.0)
    q = 1 + (x / 7.36)**2
    s = 6.53e-48 * q + 4.8e-51 / x**4 / q + 5.33e-52 / x**4
    cn = conf(x, t_yr) if callable(conf) else confusion(x, conf, t_yr)
    return np.where(ok, s + cn, np.inf)


def psd(f, instrument="LISA", t_yr=None, L=None, approx=False, conf="auto", custom=None):
    """Dispatch with the documented per-instrument defaults (t_yr/L None and conf 'auto')."""
    if instrument == "LISA":
        return lisa_psd(f, 4.0 if t_yr is None else t_yr, 2.5e9 if L is None else L, approx,
                        "karnesis21" if conf == "auto" else conf)
    if instrument == "TianQin":
        return tianqin_psd(f, 5.0 if t_yr is None else t_yr, np.sqrt(3) * 1e8 if L is None else L,
                           "huang20" if conf == "auto" else conf)
    if instrument == "DECIGO":
        return decigo_psd(f, 4.0 if t_yr is None else t_yr, "karnesis21" if conf == "auto" else conf)
    if instrument == "custom":
        return custom(f)
    raise KeyError(instrument)


# ---------------------------------------------------------------- merger times
def _I_quad(e):
    """I(e) = int_0^e x^(29/19) (1 + 121/304 x^2)^(1181/2299) (1 - x^2)^(-3/2) dx, via t = x/sqrt(1-x^2)."""
    t1 = e / np.sqrt((1 - e) * (1 + e))

    def fun(t):
        x2 = t * t / (1 + t * t)
        return x2**(29 / 38) * (1 + 121 / 304 * x2)**(1181 / 2299)
    if t1 < 2:
        return quad(fun, 0, t1, epsabs=0, epsrel=1e-12, limit=200)[0]
    first = quad(fun, 0, 2, epsabs=0, epsrel=1e-12, limit=200)[0]
    rest = quad(lambda s: fun(np.exp(s)) * np.exp(s), np.log(2), np.log(t1), epsabs=0, epsrel=1e-12, limit=200)[0]
    return first + rest


def I(e):
    e = np.asarray(e, float)
    return np.array([_I_quad(x) if x > 0 else 0.0 for x in e.ravel()]).reshape(e.shape)


def t_circ(a, b):
    return a**4 / (4 * b)


def t_exact(e, a, b):
    """Peters (1964) Eq. 5.14 without any approximation."""
    e, a, b = np.broadcast_arrays(np.asarray(e, float), a, b)
    out = np.array(t_circ(a, b), float)
    w = e > 0
    if w.any():
        out[w] = 12 / 19 * c0(a[w], e[w])**4 / b[w] * I(e[w])
    return out


def mandel(e):
    e = np.asarray(e, float)
    co = [-1.20317749e+03, 5.67211219e+03, -1.13935479e+04, 1.27306422e+04, -8.66281737e+03, 3.69447796e+03,
          -9.79864734e+02, 1.54873214e+02, -1.32267683e+01, 5.32494018e-01, 9.93382093e-01]
    return (1 + 0.27 * e**10 + 0.33 * e**20 + 0.2 * e**1000) * (1 - e**2)**3.5 / np.polyval(co, e)


def t_code(e, a, b, exact=True, small=0.15, large=1 - 1e-4):
    """What is documented: circular, small-e and large-e equations and the integral or fit in between."""
    e, a, b = np.broadcast_arrays(np.asarray(e, float), np.asarray(a, float), np.asarray(b, float))
    out = np.array(t_circ(a, b), float)
    s = (e > 0) & (e < small)
    h = e > large
    o = (e > 0) & ~s & ~h
    if s.any():
        out[s] = c0(a[s], e[s])**4 * e[s]**(48 / 19) / (4 * b[s])
    if h.any():
        x = e[h]
        out[h] = (c0(a[h], x)**4 * x**(48 / 19) / (4 * b[h]) * 768 / 425 / np.sqrt(1 - x**2)
                  * (1 + 121 / 304 * x**2)**(3480 / 2299))
    if o.any():
        out[o] = t_exact(e[o], a[o], b[o]) if exact else t_circ(a[o], b[o]) * mandel(e[o])
    return out


# ---------------------------------------------------------------- evolution
def a_circ(a, b, t):
    d = a**4 - 4 * b * t
    return np.where(d > 0, np.abs(d)**0.25, 0.0)


_grid = None


def _I_grid():
    """Dense table of I on a grid in log(e) and log(1-e), used to start the root finder."""
    global _grid
    if _grid is None:
        e = np.concatenate([[0.0], np.logspace(-7, np.log10(0.5), 400), 1 - np.logspace(np.log10(0.5), -7, 400)[1:]])
        _grid = e, I(e)
    return _grid


def ecc_after(e0, c_0, b, t):
    """e(t) by inverting  t = 12/19 c0^4 / beta (I(e0) - I(e));  0 once the binary has merged."""
    t = np.atleast_1d(np.asarray(t, float))
    I0 = _I_quad(e0)
    target = I0 - t * 19 * b / (12 * c_0**4)
    eg, Ig = _I_grid()
    out = np.empty_like(t)
    for k, y in enumerate(target):
        if t[k] == 0:
            out[k] = e0
        elif y <= 0:
            out[k] = 0.0
        else:
            j = np.searchsorted(Ig, y)
            lo = eg[max(j - 1, 0)]
            hi = min(eg[min(j, len(eg) - 1)], e0) if eg[min(j, len(eg) - 1)] > lo else e0
            lo = min(lo, hi)
            flo, fhi = _I_quad(lo) - y if lo > 0 else -y, _I_quad(hi) - y
            if fhi <= 0:
                out[k] = hi
            elif flo >= 0:
                out[k] = lo
            else:
                out[k] = brentq(lambda x: (_I_quad(x) if x > 0 else 0.0) - y, lo, hi, xtol=1e-14, rtol=1e-12)
    return out


def f_circ_final(f, mc, t, e, merge_f=1e9):
    """Closed-form frequency after t with the initial F(e) held fixed."""
    tm = G * mc / C**3
    rem = 1 - 256 / 5 * tm**(5 / 3) * (2 * pi * f)**(8 / 3) * t * F(e)
    return np.where(rem >= 0, f * np.abs(rem)**(-3 / 8), merge_f), rem


def freeze(ts, t_merge, t_before):
    """Timesteps at or after t_merge - t_before repeat the last valid one; the first is always valid."""
    ts = np.array(ts, float)
    bad = ts >= t_merge - t_before
    bad[0] = False
    last = ts[~bad].max()
    ts[bad] = last
    margin = np.abs(ts - (t_merge - t_before)).min() / max(abs(t_merge), 1e-300)
    return ts, margin


def trapz(y, x, axis=-1):
    y = np.moveaxis(np.asarray(y), axis, -1)
    x = np.moveaxis(np.asarray(x), axis, -1)
    return (0.5 * (y[..., 1:] + y[..., :-1]) * (x[..., 1:] - x[..., :-1])).sum(-1)


_gl = {}


def I_fast(e):
    """I(e), vectorised, for e <= 0.999 (Gauss-Legendre after x = e s^19, which makes the integrand analytic)."""
    e = np.asarray(e, float)
    k = 160 if e.size and e.max() <= 0.96 else 600
    if k not in _gl:
        x, w = np.polynomial.legendre.leggauss(k)
        s = 0.5 * (x + 1)
        _gl[k] = s**19, 0.5 * w * 19 * s**47
    s19, w = _gl[k]
    x = e[..., None] * s19
    x2 = x * x
    y = (1 + 121 / 304 * x2)**(1181 / 2299) / (1 - x2)**1.5
    return (y @ w) * e**(48 / 19)


def time_to(e0, e, c_0, b):
    """Time in which the eccentricity falls from e0 to e (Peters 1964 Eq. 5.13/5.14)."""
    return 12 / 19 * c_0**4 / b * (I_fast(e0) - I_fast(e))


def de_dt(e, c_0, b):
    return -19 / 12 * b / c_0**4 * e**(-29 / 19) * (1 - e * e)**1.5 / (1 + 121 / 304 * e * e)**(1181 / 2299)


# ---------------------------------------------------------------- signal-to-noise ratio
def snr2_stat(mc, f, e, d, t_obs, n, psdf, gf=None):
    """(x, N) SNR^2 per harmonic of stationary binaries; psdf maps Hz to 1/Hz, gf replaces g(n, e)."""
    mc, f, e, d = [np.atleast_1d(v).astype(float)[:, None] for v in (mc, f, e, d)]
    n = np.asarray(n)[None, :]
    h2 = h0(mc, f, 0.0, 2, d)**2 * 4 / n**2 * (gf or g)(n * np.ones_like(e), e * np.ones(n.shape))
    return h2 * t_obs / psdf(n * f)


_inv = None


def e_track(e0, c_0, b, ts):
    """e at each time (n, m), by inverting Peters' integral (interpolation and Newton steps); before the merger only."""
    global _inv
    if _inv is None:
        x = np.concatenate([np.linspace(0, .9, 3000), 1 - np.geomspace(.1, 1e-3, 1500)[1:]])
        _inv = np.concatenate([I_fast(x[x <= .96]), I_fast(x[x > .96])])**(19 / 48), x
    target = np.maximum(I_fast(e0)[:, None] - ts * (19 * b / (12 * c_0**4))[:, None], 0.0)
    e = np.interp(target**(19 / 48), *_inv)
    for _ in range(3):
        x2 = e * e
        with np.errstate(all="ignore"):
            step = (I_fast(e) - target) * (1 - x2)**1.5 / (1 + 121 / 304 * x2)**(1181 / 2299) / e**(29 / 19)
        e = np.where(e > 0, np.clip(e - np.where(np.isfinite(step), step, 0), e / 2, (1 + e) / 2), 0.0)
    e = np.minimum(e, e0[:, None])
    return np.where(ts <= 0, e0[:, None], e)


def _evolving(mc, f, e, d, n, psdf, gf):
    """Trapezoid over each harmonic's frequency: f, e (x, y); result (x, N)."""
    n = np.asarray(n)[None, None, :]
    F3, E3 = f[..., None], e[..., None]
    fn = n * F3
    mc3, d3 = mc[:, None, None], d[:, None, None]
    gg = (gf or g)(n * np.ones_like(E3), E3 * np.ones(n.shape))
    h2 = h0(mc3, F3, 0.0, 2, d3)**2 * 4 / n**2 * gg
    hc2 = fn**2 * h2 / fdot_n(mc3, F3, E3, n)
    y = hc2 / (fn**2 * psdf(fn))
    return trapz(y, fn, axis=1)


def snr2_circ_evol(m1, m2, f, d, t_obs, n_step, psdf, gf=None, t_merge=None):
    a, b = a_of_f(f, m1, m2), beta(m1, m2)
    tm = t_circ(a, b)
    end = np.minimum((tm if t_merge is None else t_merge) - 1.0, t_obs)
    ts = end[:, None] * np.linspace(0, 1, n_step)[None]
    fe = f_of_a((a[:, None]**4 - 4 * b[:, None] * ts)**.25, m1[:, None], m2[:, None])
    return _evolving(chirp_mass(m1, m2), fe, np.zeros_like(fe), d, [2], psdf, gf)


def snr2_ecc_evol(m1, m2, f, e, d, t_obs, n_step, N, psdf, gf=None, t_merge=None, t_before=0.1 * YR):
    """Two values (x, N): with the last timestep kept and with it frozen (the cutoff may coincide with it)."""
    a, b = a_of_f(f, m1, m2), beta(m1, m2)
    tm = t_code(e, a, b) if t_merge is None else t_merge
    end = np.minimum(tm - t_before, t_obs)
    ts = np.maximum(end, 0.0)[:, None] * np.linspace(0, 1, n_step)[None]
    cz = c0(a, e)
    ev = e_track(e, cz, b, ts)
    fe = f_of_a(a_of_e(ev, cz[:, None]), m1[:, None], m2[:, None])
    n = np.arange(1, N + 1)
    mc = chirp_mass(m1, m2)
    full = _evolving(mc, fe, ev, d, n, psdf, gf)
    fe[:, -1], ev[:, -1] = fe[:, -2], ev[:, -2]
    return full, _evolving(mc, fe, ev, d, n, psdf, gf)
