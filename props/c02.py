"""g(n, e) for random harmonics (1 to 10^4) and eccentricities (0 to 1 - 1e-6) on scalars, vectors and
grids, compared with the Bessel form, with a Fourier transform of the quadrupole of a numerically solved
Kepler orbit and with the sum rule; interpolated g of a real Source against the same."""
import numpy as np
from scipy.special import jv

import gen
import ref
from harness import case

NEEDS_G = True
_src = {}


def bessel(n, e):
    """Peters & Mathews Eq. 20 in terms of explicit orders (used relative to each element)."""
    n, e = np.broadcast_arrays(np.asarray(n, float), np.asarray(e, float))
    x = n * e
    j = {k: jv(n + k, x) for k in (-2, -1, 0, 1, 2)}
    re = j[-2] - j[2] - 2 * e * (j[-1] - j[1]) + 2 / n * j[0]
    im = j[-2] - 2 * j[0] + j[2]
    return n**4 / 32 * (re**2 + (1 - e * e) * im**2) + n**2 / 24 * j[0]**2


def peak(e):
    """max over n of g(n, e) (scalar e)."""
    top = int(min(10000, 3 * (1 - e)**-1.5 + 10))
    n = np.unique(np.round(np.geomspace(1, top, 150)))
    return ref.g(n, np.full(len(n), e)).max()


def pick_e(rng, size=None):
    m = np.atleast_1d(rng.uniform(0, 0.99, size))
    r = rng.random(m.shape)
    m = np.where(r < .1, 0.0, np.where(r < .25, 10**rng.uniform(-8, -1, m.shape),
                                       np.where(r < .4, 1 - 10**rng.uniform(-6, -1, m.shape), m)))
    return m if size is not None else float(m[0])


def pick_n(rng, e, size):
    """Harmonics around the peak for that e, low ones, and far ones."""
    top = np.minimum(10000, 4 * (1 - e)**-1.5 + 4)
    n = np.exp(rng.uniform(0, np.log(top), size)).astype(int)
    n = np.where(rng.random(size) < .3, rng.integers(1, 6, size), n)
    return np.clip(n, 1, 10000)


@case(quick=500, thorough=20000)
def values(t):
    rng, U = t.rng, t.L.utils
    k = int(rng.integers(5))
    if k == 0:          # scalars
        e = pick_e(rng)
        n = int(pick_n(rng, np.array([e]), 1)[0])
        n = [n, np.int64(n), float(n)][int(rng.integers(3))]
    elif k == 1:        # element-wise vectors
        m = int(rng.integers(1, 60))
        e = pick_e(rng, m)
        n = pick_n(rng, e, m)
    elif k == 2:        # one eccentricity, many harmonics
        e = pick_e(rng)
        n = pick_n(rng, np.full(60, e), 60)
    elif k == 3:        # one harmonic, many eccentricities
        e = pick_e(rng, 60)
        n = int(rng.integers(1, 200))
    else:               # grid
        e = pick_e(rng, (int(rng.integers(1, 9)), 1))
        n = gen.small_ints(rng, 300, (1, int(rng.integers(1, 30))))
    t.note(n=n, e=e)
    t.seen(k, np.shape(n), np.shape(e), type(n).__name__, round(float(np.max(e)), 3), int(np.max(n)))
    got = np.asarray(U.peters_g(n, e))
    want = bessel(n, e)
    t.true("g finite and not negative", np.isfinite(got) & (got >= -1e-300), g=got)
    pk = np.vectorize(peak)(np.asarray(e))
    t.eq("g(n, e)", got, want, 1e-8, 1e-13 * np.broadcast_to(pk, want.shape))
    t.eq("g(n, e) second form", got, ref.g(n, e), 1e-6, 1e-10 * np.broadcast_to(pk, want.shape))
    # the same element asked alone or in another order
    if want.ndim:
        nn, ee = np.broadcast_arrays(n, e)
        i = rng.permutation(nn.size)
        t.eq("g element by element", np.asarray(U.peters_g(nn.ravel()[i], ee.ravel()[i])), got.ravel()[i], 1e-12)
        j = int(rng.integers(nn.size))
        t.eq("g alone", float(U.peters_g(int(nn.ravel()[j]), float(ee.ravel()[j]))), float(got.ravel()[j]), 1e-12)


@case(quick=60, thorough=1500)
def orbit_fourier(t):
    """The definition: Fourier components of the third derivative of the quadrupole of a Kepler orbit."""
    rng, U = t.rng, t.L.utils
    e = float(rng.choice([rng.uniform(0, .6), rng.uniform(.6, .9), 10**rng.uniform(-3, -1), 0.0]))
    N = 1 << 14
    M = 2 * np.pi * np.arange(N) / N
    E = M + e * np.sin(M)
    for _ in range(60):
        E = E - (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
    x, y = np.cos(E) - e, np.sqrt(1 - e * e) * np.sin(E)
    c = [np.fft.rfft(v) / N for v in (x * x, y * y, x * y)]
    n = np.arange(1, 301)
    g = n**6 / 16 * (abs(c[0])**2 + abs(c[1])**2 + 2 * abs(c[2])**2 - abs(c[0] + c[1])**2 / 3)[1:301]
    t.note(e=e)
    t.seen(round(e, 3))
    got = np.asarray(U.peters_g(n, e))
    t.eq("g against the orbit", got, g, 1e-5, 1e-9 * g.max())
    t.eq("g(1..8) against the orbit", got[:8], g[:8], 1e-6, 1e-12)


@case(quick=60, thorough=1000)
def sum_rule(t):
    rng, U = t.rng, t.L.utils
    e = float(rng.choice([rng.uniform(0, .9), rng.uniform(.9, .97), 0.0, 10**rng.uniform(-5, -1)]))
    top = int(40 * (1 - e)**-1.5 + 40)
    n = np.arange(1, min(top, 10000) + 1)
    t.note(e=e, n_max=len(n))
    t.seen(round(e, 3))
    g = np.asarray(U.peters_g(n, e))
    t.eq("sum of g over n", g.sum(), float(ref.F(e)), 1e-8)
    t.eq("sum of g over n against peters_f", g.sum(), float(U.peters_f(e)), 1e-8)
    if e == 0:
        t.eq("circular orbit", g, (n == 2) * 1.0, 0, 1e-15)


def source(t):
    if "g" not in _src:
        import astropy.units as u
        _src["g"] = t.L.source.Source(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, ecc=np.array([0.1, .5]),
                                      dist=np.ones(2) * u.kpc, f_orb=np.ones(2) * u.mHz, interpolate_g=True,
                                      interpolate_sc=False)
    return _src["g"]


@case(quick=80, thorough=3000)
def interpolated(t):
    rng = t.rng
    s = source(t)
    e = float(rng.choice([rng.uniform(0, .95), rng.uniform(.8, .95), 0.0, rng.uniform(0, .01)]))
    top = int(5 * (1 - e)**-1.5 + 6)
    n = np.arange(1, top + 1)
    t.note(e=e, n_max=top)
    t.seen(round(e, 2))
    want = ref.g(n, e)
    k = int(rng.integers(3))
    if k == 0:
        got = np.asarray(s.g(n, e))
    elif k == 1:        # the shape used inside the strain functions
        got = np.asarray(s.g(n[np.newaxis, np.newaxis, :], np.array([[[e]]])))[0, 0]
    else:
        i = rng.permutation(top)
        got = np.empty(top)
        got[i] = np.asarray(s.g(n[i], np.full(top, e)))
    t.eq("interpolated g", got, want, 0, 1e-3 * want.max())
    t.true("collection says it interpolates g", s.interpolate_g is True)
