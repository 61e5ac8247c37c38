"""Random binaries at random stages of their orbit, (x,) and (x, y) inputs, harmonics as integers, lists and
arrays in any order with repeats, exact and interpolated g: every element of the (x, y, z) cube against the
quadrupole formula in SI, plus the h_c / h_0 relation, distance scaling, bad harmonics and hostile
interpolators (slightly negative values)."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

import gen
import ref
import srcs
from harness import case


def setup(t, emax=0.97):
    rng = t.rng
    x = gen.size(rng, 9, crowd=.03)
    y = int(rng.choice([0, 0, 1, 2, int(rng.integers(2, 9))]))
    m1, m2 = gen.masses(rng, x)
    mc = ref.chirp_mass(m1, m2)
    d = gen.logu(rng, 1e-3, 1e7, x) * 3.0857e19
    sh = (x, y) if y else (x,)
    f = gen.logu(rng, 1e-7, 1, sh)
    e = gen.ecc(rng, x * max(y, 1), 0, emax, circ=0.2).reshape(sh)
    return x, y, m1, m2, mc, d, f, e


def pick_n(rng, hi=60):
    k = int(rng.integers(6))
    if k == 0:
        return int(rng.integers(1, hi))
    if k == 1:
        return np.arange(1, int(rng.integers(2, hi)) + 1)
    if k == 2:
        return [int(v) for v in rng.integers(1, hi, int(rng.integers(1, 9)))]
    if k == 3:
        return gen.small_ints(rng, hi, int(rng.integers(1, 9)))
    if k == 4:
        return np.int64(rng.integers(1, hi))
    return rng.permutation(np.arange(1, hi))[:int(rng.integers(1, 30))]


def want(mc, f, e, n, d, fun):
    f, e = np.atleast_1d(f), np.atleast_1d(e)
    f = f[:, None] if f.ndim == 1 else f
    e = e[:, None] if e.ndim == 1 else e
    n = np.atleast_1d(n)[None, None, :]
    mc, d = np.atleast_1d(mc), np.atleast_1d(d)
    return fun(mc[:, None, None], f[..., None], e[..., None], n, d[:, None, None])


def compare(t, name, got, w, dom):
    """Relative to the strongest of the harmonics; to the n = 2 harmonic when all are negligible."""
    t.true(name + " finite, not negative", np.isfinite(got) & (np.asarray(got) >= 0), got=got)
    pk = np.max(w, axis=-1, keepdims=True)
    pk = np.where(pk > 1e-15 * dom, pk, dom)
    t.eq(name, (np.asarray(got) / pk)**2, (w / pk)**2, 1e-7, 1e-11)


@case(quick=1200, thorough=20000)
def cube(t):
    rng, S = t.rng, t.L.strain
    x, y, m1, m2, mc, d, f, e = setup(t)
    n = pick_n(rng)
    scalar = x == 1 and y == 0 and rng.random() < .5
    if scalar:
        mc_, f_, e_, d_ = mc[0], f[0], float(e[0]), d[0]
        a = [gen.q(rng, mc_, "mass"), gen.q(rng, f_, "freq"), e_, gen.q(rng, d_, "dist")]
    else:
        a = [gen.layout(rng, gen.q(rng, mc, "mass")), gen.layout(rng, gen.q(rng, f, "freq")),
             gen.layout(rng, e), gen.layout(rng, gen.q(rng, d, "dist"))]
    # eccentricity constant in time or frequency constant in time
    mixed = y and rng.random() < .3
    if mixed:
        if rng.random() < .5:
            a[2], e = e[:, 0].copy(), np.repeat(e[:, :1], y, axis=1)
        else:
            a[1], f = gen.q(rng, f[:, 0], "freq"), np.repeat(f[:, :1], y, axis=1)
    interp = [None, lambda nn, ee: ref.g(nn, ee)][int(rng.random() < .3)]
    t.note(m_c=a[0], f_orb=a[1], ecc=a[2], dist=a[3], n=n, interpolated=interp is not None)
    t.seen(x, y, scalar, bool(mixed), type(n).__name__, np.size(n), interp is not None, round(float(e.max()), 2))
    kw = dict(m_c=a[0], f_orb=a[1], ecc=a[2], n=n, dist=a[3])
    mod = np.ones((x, 1, 1))
    if rng.random() < .2:       # an orientation applies to every timestep and harmonic
        o = srcs.orient(rng, dict(m1=m1))
        kw.update(position=SkyCoord(lon=o["lon"] * u.rad, lat=o["lat"] * u.rad, distance=d * u.m, frame="barycentrictrueecliptic"),
                  polarisation=gen.q(rng, o["psi"], "angle"), inclination=gen.q(rng, o["inc"], "angle"))
        mod = np.sqrt(ref.modulation(o["lon"], o["lat"], o["psi"], o["inc"]))[:, None, None]
        t.count("oriented calls")
    if interp is not None:
        kw["interpolated_g"] = interp
    h0, hc = S.h_0_n(**kw), S.h_c_n(**kw)
    w0, wc = want(mc, f, e, n, d, ref.h0) * mod, want(mc, f, e, n, d, ref.hc) * mod
    t.true("shape is (sources, timesteps, harmonics)", np.shape(h0) == (x, max(y, 1), np.size(n))
           and np.shape(hc) == (x, max(y, 1), np.size(n)), h0=np.shape(h0), hc=np.shape(hc))
    compare(t, "h_0_n", h0, w0, want(mc, f, e, 2, d, ref.h0) * mod)
    compare(t, "h_c_n", hc, wc, want(mc, f, e, 2, d, ref.hc) * mod)
    # h_c^2 = f_n^2 h_0^2 / fdot_n with the library's own chirp rate
    ff, ee = [v[:, None] if v.ndim == 1 else v for v in (f, e)]
    nn = np.atleast_1d(n)
    fdot = t.val("fn_dot", t.L.utils.fn_dot(mc[:, None, None] * u.kg, ff[..., None] * u.Hz, ee[..., None],
                                            nn[None, None, :]), u.Hz / u.s)
    t.eq("h_c = f_n h_0 / sqrt(fn_dot)", np.asarray(hc), (nn * ff[..., None]) * np.asarray(h0) / np.sqrt(fdot), 1e-9,
         1e-140)     # below, squares are denormal
    # distance
    k = float(gen.logu(rng, 1e-3, 1e3))
    kw["dist"] = a[3] * k
    t.eq("h_0_n inversely proportional to distance", S.h_0_n(**kw) * k, h0, 1e-12)
    t.eq("h_c_n inversely proportional to distance", S.h_c_n(**kw) * k, hc, 1e-12)


@case(quick=300, thorough=4000)
def hostile_interpolator(t):
    """Splines dip below zero: these harmonics must come out as 0, all others untouched."""
    rng, S = t.rng, t.L.strain
    x, y, m1, m2, mc, d, f, e = setup(t)
    n = np.atleast_1d(pick_n(rng, 30))
    sh = (x, max(y, 1), len(n))
    neg = rng.random(sh) < .4
    seen_args = []

    def g(nn, ee):
        seen_args.append((np.shape(nn), np.shape(ee)))
        v = np.array(np.broadcast_to(ref.g(nn, ee), sh))
        v[neg] = -1e-9 * rng.random(neg.sum())
        return v
    t.note(n=n, negative=int(neg.sum()), e=e)
    t.seen(sh, int(neg.sum()))
    for name, fn, rf in (("h_0_n", S.h_0_n, ref.h0), ("h_c_n", S.h_c_n, ref.hc)):
        got = fn(m_c=mc * u.kg, f_orb=f * u.Hz, ecc=e, n=n, dist=d * u.m, interpolated_g=g)
        w = want(mc, f, e, n, d, rf)
        w[neg] = 0
        compare(t, name + " with interpolated g", got, w, want(mc, f, e, 2, d, rf))
    t.count("interpolator calls", len(seen_args))


@case(quick=120, thorough=600)
def bad_harmonics(t):
    rng, S = t.rng, t.L.strain
    x, y, m1, m2, mc, d, f, e = setup(t)
    bad = [0, -1, -12, np.int64(0), [1, 2, 0], np.array([3, -1, 2]), [0], np.array([5, 0])][int(rng.integers(8))]
    t.note(n=bad)
    t.seen(repr(bad), x, y)
    kw = dict(m_c=mc * u.kg, f_orb=f * u.Hz, ecc=e, n=bad, dist=d * u.m)
    if rng.random() < .5:
        kw["interpolated_g"] = lambda nn, ee: np.ones(np.broadcast(nn, ee).shape)
    t.raises("h_0_n with a harmonic below 1", ValueError, S.h_0_n, **kw)
    t.raises("h_c_n with a harmonic below 1", ValueError, S.h_c_n, **kw)
