"""Workload generators: binaries, units, memory layouts.  Everything is made from a numpy Generator."""
import astropy.units as u
import numpy as np

from ref import MSUN, YR

UNITS = {
    "mass": [u.kg, u.Msun, u.g, u.Mearth, u.Mjup],
    "freq": [u.Hz, u.mHz, 1 / u.yr, 1 / u.day, u.uHz, 1 / u.s, u.kHz],
    "len": [u.m, u.AU, u.Rsun, u.km, u.pc, u.lyr, u.cm],
    "dist": [u.kpc, u.pc, u.Mpc, u.m, u.lyr, u.AU],
    "time": [u.s, u.yr, u.Myr, u.Gyr, u.day, u.hour],
    "angle": [u.rad, u.deg, u.arcmin, u.hourangle],
}
USUAL = {"mass": u.Msun, "freq": u.Hz, "len": u.AU, "dist": u.kpc, "time": u.yr, "angle": u.rad}
BASE = {"mass": u.kg, "freq": u.Hz, "len": u.m, "dist": u.m, "time": u.s, "angle": u.rad}


def logu(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def gen_twin(rng, n):
    return logu(rng, 1e-8, 1e-2, n) if rng.random() < .7 else np.zeros(n)


def masses(rng, n):
    """Primary and secondary masses in kg: white dwarfs, neutron stars, stellar and massive black holes."""
    kind = rng.choice(5, size=n, p=[.35, .2, .2, .15, .1])
    lo = np.array([0.1, 1.1, 3.0, 0.01, 1e3])[kind]
    hi = np.array([1.4, 2.5, 100.0, 1.0, 1e6])[kind]
    m1 = np.exp(rng.uniform(np.log(lo), np.log(hi)))
    m2 = np.exp(rng.uniform(np.log(lo), np.log(hi)))
    r = rng.random()
    if r < .12:         # twins: the same mass or nearly so
        k = 1 + rng.choice([-1, 1]) * gen_twin(rng, n)
        m2 = np.where(rng.random(n) < (1 if r < .08 else .5), m1 * k, m2)
    return m1 * MSUN, m2 * MSUN


def light(rng, n):
    """Masses (kg) of stellar remnants only: inspiral on 1e-5..1e-2 Hz, slow evolution."""
    m = np.exp(rng.uniform(np.log(0.1), np.log(60.0), (2, n))) * MSUN
    return m[0], m[1]


def ecc(rng, n, lo=0.0, hi=0.95, circ=0.15, edges=()):
    """Eccentricities: circular ones, tiny, moderate, high, and exact boundary values."""
    e = rng.uniform(lo, hi, n)
    r = rng.random(n)
    e = np.where(r < 0.2, np.minimum(np.exp(rng.uniform(np.log(max(lo, 1e-6)), np.log(0.1), n)), hi), e)
    e = np.where((r > 0.2) & (r < 0.3), lo + (hi - lo) * (1 - np.exp(rng.uniform(np.log(1e-3), 0, n))), e)
    if circ:
        e = np.where(rng.random(n) < circ, 0.0, e)
    if len(edges):
        e = np.where(rng.random(n) < 0.15, rng.choice(np.asarray(edges, float), n), e)
    return e


def size(rng, hi=12, crowd=0):
    """Batch sizes: 1 often, small mostly; a few hundred with probability `crowd`."""
    if crowd and rng.random() < crowd:
        return int(logu(rng, 50, 600))
    return int(rng.choice([1, 1, 2, 3, int(rng.integers(2, hi + 1))]))


def unit(rng, dim, usual=0.5):
    if rng.random() < usual:
        return USUAL[dim]
    return UNITS[dim][int(rng.integers(len(UNITS[dim])))]


def q(rng, si, dim, usual=0.5, to=None):
    """A Quantity with this SI value in a randomly chosen unit of its dimension."""
    return (np.asarray(si, float) * BASE[dim]).to(to if to is not None else unit(rng, dim, usual))


LAYOUTS = ("c", "strided", "reversed", "readonly", "fcol", "offset")


def layout(rng, x, kind=None):
    """Same values in another memory layout (1-D arrays; plain or Quantity)."""
    if hasattr(x, "frame"):         # positions stay as they are
        return x
    kind = kind or LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    un = getattr(x, "unit", None)
    v = np.array(x.value if un is not None else x)
    if v.ndim == 0:
        return x
    if kind == "strided":
        b = np.full((v.shape[0] * 3,) + v.shape[1:], 7, dtype=v.dtype)
        b[::3] = v
        v = b[::3]
    elif kind == "reversed":
        v = v[::-1].copy()[::-1]
    elif kind == "readonly":
        v = v.copy()
        v.setflags(write=False)
    elif kind == "fcol":
        b = np.full(v.shape + (2,), 3, dtype=v.dtype, order="C")
        b[..., 1] = v
        v = b[..., 1]
    elif kind == "offset":
        b = np.full((v.shape[0] + 5,) + v.shape[1:], 5, dtype=v.dtype)
        b[3:3 + len(v)] = v
        v = b[3:3 + len(v)]
    if un is None:
        return v
    out = u.Quantity(v, un, copy=False)
    if kind == "readonly":
        out.setflags(write=False)
    return out


def f_for_tmerge(mc, t, F=1.0):
    """Orbital frequency (Hz) at which a circular binary of chirp mass mc (kg) merges in about t seconds."""
    from ref import C, G
    tm = G * mc / C**3
    return (5 / (256 * t * F))**(3 / 8) * tm**(-5 / 8) / (2 * np.pi)


def evolving_f(rng, mc, lo=0.3 * YR, hi=300 * YR, F=1.0):
    return f_for_tmerge(mc, logu(rng, lo, hi, np.shape(mc)), F)


def shapes(rng):
    if rng.random() < .02:
        return (int(logu(rng, 300, 20000)),)
    return [(), (1,), (int(rng.integers(2, 200)),), (int(rng.integers(2, 200)),),
            (int(rng.integers(1, 5)), int(rng.integers(1, 6))), (2, 3, 2)][int(rng.integers(6))]


def custom_confusion(rng):
    """A user's confusion noise: whatever it is given, inverse frequency out, in some unit."""
    un = [1 / u.Hz, u.s, 1 / u.mHz, u.day, u.Hz**-1][int(rng.integers(5))]
    amp = float(logu(rng, 1e-42, 1e-36))

    def noise(f, t_obs):
        x = f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f)
        return (amp * (1e-3 / x)**0.5 * np.sqrt(4 / t_obs.to(u.yr).value) / u.Hz).to(un)

    def model(x, t_yr):
        return amp * (1e-3 / x)**0.5 * np.sqrt(4 / t_yr)
    return noise, model


def small_ints(rng, top, n):
    """Integer harmonics in a narrow integer type (which must not overflow)."""
    kind = [int, np.int32, np.int16, np.uint16, np.int8, np.uint8][int(rng.integers(6))]
    return rng.integers(1, min(top, int(np.iinfo(kind).max)), n).astype(kind)
