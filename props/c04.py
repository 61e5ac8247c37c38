"""Random sky positions, polarisations and inclinations (all angle units, ICRS / galactic / ecliptic frames,
scalars and batches): response averages and modulation against Cornish & Larson (2003), strains and SNRs of
real Source collections source by source against averaged strain times sqrt(modulation), random draws against
their distributions, and refusals."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord
from scipy.stats import kstest

import gen
import ref
from harness import case

LAMS = ("barycentrictrueecliptic",)


def angles(rng, n):
    lon = rng.uniform(0, 2 * np.pi, n)
    lat = np.arcsin(rng.uniform(-1, 1, n))
    psi = rng.uniform(-np.pi, 2 * np.pi, n)
    inc = rng.uniform(0, np.pi, n)
    for arr, special in ((lat, [0, np.pi / 2, -np.pi / 2]), (psi, [0, np.pi / 4, np.pi / 2, np.pi]),
                         (inc, [0, np.pi / 2, np.pi, np.pi / 3]), (lon, [0, np.pi / 2, np.pi, np.pi / 4])):
        w = rng.random(n) < .1
        arr[w] = rng.choice(special, w.sum())
    return lon, lat, psi, inc


@case(quick=600, thorough=15000)
def responses(t):
    rng, U = t.rng, t.L.utils
    n = gen.size(rng, 30, crowd=.02)
    lon, lat, psi, inc = angles(rng, n)
    th = np.pi / 2 - lat
    if rng.random() < .3:
        lon, th, psi, inc, lat = [v[0] for v in (lon, th, psi, inc, lat)]
    q = [gen.q(rng, v, "angle") for v in (th, lon, psi)]
    if rng.random() < .2:
        q = [th, lon, psi]              # plain radians
    t.note(theta=q[0], phi=q[1], psi=q[2])
    t.seen(np.shape(th), *[str(getattr(v, "unit", "")) for v in q])
    dp, dx, dpx = ref.D2(th, lon)
    fp, fx = ref.F2(th, lon, psi)
    tol = dict(rtol=1e-10, atol=1e-12)
    t.eq("<D+^2>", t.plain("D", U.D_plus_squared(q[0], q[1])), dp, **tol)
    t.eq("<Dx^2>", t.plain("D", U.D_cross_squared(q[0], q[1])), dx, **tol)
    t.eq("<D+Dx>", t.plain("D", U.D_plus_D_cross(q[0], q[1])), dpx, **tol)
    t.eq("<F+^2>", t.plain("F", U.F_plus_squared(*q)), fp, **tol)
    t.eq("<Fx^2>", t.plain("F", U.F_cross_squared(*q)), fx, **tol)
    if hasattr(q[0], "unit"):
        t.eq("<F+^2> period pi/2", t.plain("F", U.F_plus_squared(q[0], q[1], q[2] + 90 * u.deg)), fp, **tol)
        t.eq("<Fx^2> period pi/2", t.plain("F", U.F_cross_squared(q[0], q[1], q[2] + 90 * u.deg)), fx, **tol)
        t.eq("<Fx^2> is <F+^2> at psi + pi/4", t.plain("F", U.F_cross_squared(*q)),
             t.plain("F", U.F_plus_squared(q[0], q[1], q[2] + 45 * u.deg)), **tol)


def pos(rng, lon, lat, dist=None):
    kw = {} if dist is None else {"distance": dist}
    return SkyCoord(lon=gen.q(rng, lon, "angle"), lat=gen.q(rng, lat, "angle"), frame="barycentrictrueecliptic", **kw)


@case(quick=450, thorough=8000)
def modulation(t):
    rng, S = t.rng, t.L.strain
    n = gen.size(rng, 12, crowd=.02)
    lon, lat, psi, inc = angles(rng, n)
    m1, m2 = gen.masses(rng, n)
    mc = ref.chirp_mass(m1, m2)
    f, d = gen.logu(rng, 1e-6, 1, n), gen.logu(rng, 1e-2, 1e5, n) * 3.0857e19
    w = ref.modulation(lon, lat, psi, inc)
    qp, qi = gen.q(rng, psi, "angle"), gen.q(rng, inc, "angle")
    p = pos(rng, lon, lat, d * u.m if rng.random() < .5 else None)
    t.note(lon=lon, lat=lat, polarisation=qp, inclination=qi)
    t.seen(n, str(qp.unit), str(qi.unit))
    tol = dict(rtol=1e-9, atol=1e-12)
    got = t.plain("modulation", S.amplitude_modulation(position=p, polarisation=qp, inclination=qi))
    t.eq("modulation", got, w, **tol)
    t.true("modulation in [0, 1]", (got >= 0) & (got <= 1), got=got)
    t.eq("modulation of pi - i", t.plain("m", S.amplitude_modulation(p, qp, 180 * u.deg - qi)), w, **tol)
    t.eq("modulation of psi + pi/2", t.plain("m", S.amplitude_modulation(p, qp + 90 * u.deg, qi)), w, **tol)
    t.eq("modulation in radians", t.plain("m", S.amplitude_modulation(p, psi * u.rad, inc * u.rad)), w, **tol)
    ns = [2, [2], np.array([1, 2, 3]), [4, 2, 2, 1]][int(rng.integers(4))]
    y = int(rng.choice([0, 0, 3]))
    ff = f if not y else np.repeat(f[:, None], y, 1) * rng.uniform(1, 2, (n, y))
    e = np.zeros_like(ff)
    for name, fn, rf in (("h_0_n", S.h_0_n, ref.h0), ("h_c_n", S.h_c_n, ref.hc)):
        h = fn(m_c=mc * u.kg, f_orb=ff * u.Hz, ecc=e, n=ns, dist=d * u.m, position=p, polarisation=qp, inclination=qi)
        f3 = ff.reshape(n, -1, 1)
        want = rf(mc[:, None, None], f3, 0 * f3, np.atleast_1d(ns)[None, None], d[:, None, None]) \
            * np.sqrt(w)[:, None, None]
        t.eq(name + " modulated", h**2, want**2, 1e-9, 1e-13 * (want**2).max())


def frames(rng, lon, lat, n):
    """The same sky positions expressed in a random frame; returns SkyCoord and ecliptic (lon, lat)."""
    k = int(rng.integers(6))
    if k == 0:
        return SkyCoord(lon=gen.q(rng, lon, "angle"), lat=gen.q(rng, lat, "angle"),
                        frame="barycentrictrueecliptic"), lon, lat, "ecl"
    if k == 1:
        c = SkyCoord(ra=gen.q(rng, lon, "angle"), dec=gen.q(rng, lat, "angle"), frame="icrs")
        name = "icrs"
    elif k == 2:
        c = SkyCoord(l=lon * u.rad, b=lat * u.rad, frame="galactic")
        name = "galactic"
    elif k == 3:
        name = str(rng.choice(["fk5", "fk4"]))
        c = SkyCoord(ra=gen.q(rng, lon, "angle"), dec=gen.q(rng, lat, "angle"), frame=name)
    elif k == 4:
        name = str(rng.choice(["barycentricmeanecliptic", "heliocentrictrueecliptic", "geocentrictrueecliptic"]))
        c = SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=np.full(np.shape(lon), 1e-3) * u.pc, frame=name)
    else:
        c = SkyCoord(l=lon * u.rad, b=lat * u.rad, distance=np.full(np.shape(lon), 5.0) * u.kpc, frame="galactic")
        name = "galactic+distance"
    ecl = c.transform_to("barycentrictrueecliptic")
    return c, ecl.lon.rad, ecl.lat.rad, name


def make_source(t, n, given=(True, True), scalar=False, klass=None):
    rng = t.rng
    m1, m2 = gen.light(rng, n)
    mc = ref.chirp_mass(m1, m2)
    f = gen.f_for_tmerge(mc, gen.logu(rng, 1e5, 1e10, n) * ref.YR)      # all stationary
    f = np.minimum(f, 0.4)
    d = gen.logu(rng, .1, 100, n) * 3.0857e19
    lon, lat, psi, inc = angles(rng, n)
    if scalar:
        m1, m2, mc, f, d, lon, lat, psi, inc = [v[0] for v in (m1, m2, mc, f, d, lon, lat, psi, inc)]
    c, elon, elat, frame = frames(rng, lon, lat, n)
    kw = dict(m_1=gen.q(rng, m1, "mass"), m_2=gen.q(rng, m2, "mass"), ecc=np.zeros(n) if not scalar else 0.0,
              dist=gen.q(rng, d, "dist"), f_orb=gen.q(rng, f, "freq"), position=c, interpolate_g=False,
              interpolate_sc=bool(rng.random() < .3))
    if given[0]:
        kw["polarisation"] = gen.q(rng, psi, "angle")
    if given[1]:
        kw["inclination"] = gen.q(rng, inc, "angle")
    s = (klass or t.L.source.Source)(**kw)
    return s, kw, frame, [np.atleast_1d(v) for v in (m1, m2, mc, f, d, elon, elat, psi, inc)]


@case(quick=180, thorough=3000)
def collections(t):
    rng = t.rng
    scalar = rng.random() < .2
    n = 1 if scalar else gen.size(rng, 9, crowd=.02)
    klass = [t.L.source.Source, t.L.source.Source, t.L.source.Stationary][int(rng.integers(3))]
    s, kw, frame, (m1, m2, mc, f, d, lon, lat, psi, inc) = make_source(t, n, scalar=scalar, klass=klass)
    t.note(frame=frame, n=n, scalar=scalar, **{k: kw[k] for k in ("m_1", "m_2", "f_orb", "polarisation", "inclination")})
    t.seen(frame, n, scalar, klass.__name__, kw["interpolate_sc"])
    t.eq("ecliptic longitude", np.exp(1j * np.atleast_1d(s.position.lon.rad)).real, np.cos(lon), 0, 1e-9)
    t.eq("ecliptic longitude (sin)", np.sin(np.atleast_1d(s.position.lon.rad)), np.sin(lon), 0, 1e-9)
    t.eq("ecliptic latitude", np.atleast_1d(s.position.lat.rad), lat, 0, 1e-9)
    t.eq("polarisation kept", t.val("psi", s.polarisation, u.rad), psi, 1e-12, 1e-12)
    t.eq("inclination kept", t.val("inc", s.inclination, u.rad), inc, 1e-12, 1e-12)
    w = np.sqrt(ref.modulation(lon, lat, psi, inc))
    ns = [2, [1, 2, 3], np.array([2, 1])][int(rng.integers(3))]
    nn = np.atleast_1d(ns)[None]
    for name, fn, rf in (("h_0_n", s.get_h_0_n, ref.h0), ("h_c_n", s.get_h_c_n, ref.hc)):
        want = rf(mc[:, None], f[:, None], 0.0, nn, d[:, None]) * w[:, None]
        t.eq("Source strain " + name, fn(ns)**2, want**2, 1e-8, 1e-13 * (want**2).max())
    tobs = float(rng.choice([4.0, 1.0, 7.5]))
    want = ref.h0(mc, f, 0.0, 2, d) * w * np.sqrt(tobs * ref.YR / ref.lisa_psd(2 * f, tobs))
    got = s.get_snr(t_obs=tobs * u.yr, instrument="LISA")
    interp = kw["interpolate_sc"]
    ok = (2 * f > 1e-6) & (2 * f < 1.5) if interp else np.ones(n, bool)
    t.eq("Source SNR", np.asarray(got)[ok], want[ok], 6e-3 if interp else 1e-8, 1e-300)
    # a subset keeps its own orientation
    m = rng.random(n) < .5
    if m.any():
        want = ref.h0(mc, f, 0.0, 2, d)[m] * w[m]
        t.eq("strain of a subset", s.get_h_0_n(2, which_sources=m)[:, 0], want, 1e-8, 1e-300)
        t.eq("SNR of a subset", s.get_snr_stationary(t_obs=tobs * u.yr, instrument="LISA", which_sources=m),
             np.asarray(got)[m], 1e-10)


@case(quick=6, thorough=60)
def draws(t):
    rng = t.rng
    n = 4000
    given = [(False, False), (True, False), (False, True)][int(rng.integers(3))]
    s, kw, frame, (m1, m2, mc, f, d, lon, lat, psi, inc) = make_source(t, n, given=given)
    t.note(given=given)
    t.seen(given, t.index)
    p, i = t.val("psi", s.polarisation, u.rad), t.val("inc", s.inclination, u.rad)
    if given[0]:
        t.eq("given polarisation kept", p, psi, 1e-12, 1e-12)
    else:
        t.true("polarisation in [0, pi]", (p >= 0) & (p <= np.pi), p=p)
        t.true("polarisation uniform", kstest(p / np.pi, "uniform").pvalue > 1e-8, mean=p.mean())
    if given[1]:
        t.eq("given inclination kept", i, inc, 1e-12, 1e-12)
    else:
        t.true("inclination in [0, pi/2]", (i >= 0) & (i <= np.pi / 2), i=i)
        t.true("cos(inclination) uniform", kstest(np.cos(i), "uniform").pvalue > 1e-8, mean=np.cos(i).mean())
    if not any(given):
        t.true("draws independent", abs(np.corrcoef(p, np.cos(i))[0, 1]) < 0.12, r=np.corrcoef(p, np.cos(i))[0, 1])
    t.true("no ties in the draws", (given[0] or len(np.unique(p)) > n * .99) and (given[1] or len(np.unique(i)) > n * .99))
    # drawn orientations are the ones used
    w = np.sqrt(ref.modulation(lon, lat, p, i))
    t.eq("strain with drawn orientations", s.get_h_0_n(2)[:, 0], ref.h0(mc, f, 0.0, 2, d) * w, 1e-8)


@case(quick=60, thorough=400)
def refusals(t):
    rng, Src = t.rng, t.L.source.Source
    n = int(rng.integers(1, 6))
    _, kw, frame, _ = make_source(t, n)
    kw["interpolate_sc"] = False
    t.note(frame=frame, n=n)
    t.seen(frame, n)
    k = dict(kw)
    k["ecc"] = np.zeros(n)
    k["ecc"][int(rng.integers(n))] = float(rng.choice([0.3, 1e-6]))
    t.raises("eccentric source with a position", ValueError, Src, **k)
    k.pop("polarisation"), k.pop("inclination")
    t.raises("eccentric source with only a position", ValueError, Src, **k)
    for keep in (("polarisation",), ("inclination",), ("polarisation", "inclination")):
        k = {a: b for a, b in kw.items() if a not in ("position", "polarisation", "inclination") or a in keep}
        t.raises("orientation without a position", ValueError, Src, **k)
    k = {a: b for a, b in kw.items() if a not in ("position", "polarisation", "inclination")}
    t.true("averaged source has no orientation", all(getattr(Src(**k), a) is None for a in
                                                     ("position", "polarisation", "inclination")))
