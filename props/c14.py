"""The same binaries handed to every public calculation twice: in SI and with every quantity argument in its own
randomly chosen unit (including scaled and composite ones), the physical results compared; detectors, confusion
models, noise settings and source collections likewise; dimension of every output checked."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

import gen
import obs
import ref
import srcs
from calcs import V, prepare
from harness import case

ODD = {
    "mass": [u.kg, u.Msun, u.g, u.Mearth, u.Unit(1e3 * u.kg), u.J * u.s**2 / u.m**2],
    "length": [u.m, u.AU, u.Rsun, u.km, u.pc, u.kpc, u.lyr, u.cm, u.km / u.s * u.yr, u.Unit(17.0 * u.m)],
    "time": [u.s, u.yr, u.Myr, u.Gyr, u.day, u.hour, 1 / u.mHz, u.pc / (u.km / u.s), u.Unit(3.0 * u.yr)],
    "frequency": [u.Hz, u.mHz, 1 / u.yr, 1 / u.day, u.uHz, 1 / u.s, u.kHz, u.km / u.s / u.AU, u.Unit(7e-4 * u.Hz)],
    "angle": [u.rad, u.deg, u.arcmin, u.hourangle, u.arcsec],
}


def converter(rng, used):
    def y(x):
        if not isinstance(x, u.Quantity):
            return x
        for k, units in ODD.items():
            if x.unit.is_equivalent(units[0]):
                un = units[int(rng.integers(len(units)))]
                used.append(un.to_string())
                return u.Quantity(x.value, x.unit, dtype=float).to(un)
        return x
    return y


def close(t, name, got, want, rtol):
    t.true(name + ": same number of results", len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        t.true("{} [{}] has a unit either way or neither way".format(name, k), hasattr(a, "unit") == hasattr(b, "unit"))
        if hasattr(a, "unit"):
            t.true("{} [{}] has the same dimension".format(name, k), a.unit.is_equivalent(b.unit), got=str(a.unit), want=str(b.unit))
        a, b = V(a), V(b)
        big = np.abs(b[np.isfinite(b)]).max(initial=0.0)
        t.eq("{} [{}]".format(name, k), a, b, rtol, 1e-13 * big if b.ndim > 1 else 0.0)


@case(quick=220, thorough=6000)
def calculations(t):
    rng = t.rng
    name, rtol, fn, S, P = prepare(t)
    used = []
    y = converter(rng, used)
    want = fn(t.L, lambda x: x, S, P)
    got = fn(t.L, y, S, P)
    t.note(units=used)
    t.seen(name, tuple(used[:5]))
    t.count("arguments converted", len(used))
    close(t, name + " in other units", got, want, max(rtol * 10, 1e-10))


@case(quick=300, thorough=6000)
def detectors(t):
    rng, P = t.rng, t.L.psd
    used = []
    y = converter(rng, used)
    kw, tq, t_yr, noise, key = obs.draw(rng)
    n = int(rng.integers(1, 9))
    top = 1.5 if kw.get("confusion_noise") == "robson19" else (50.0 if key[0] == "DECIGO" else 2.0)
    f = gen.logu(rng, 1e-5, top, n)
    f = np.where(np.abs(f / 1e-3 - 1) < 1e-6, 2e-3, f)
    t_si = t_yr * u.yr
    t.note(f=f, t=t_yr, kw=kw)
    th = kw.get("confusion_noise") == "thiele21"
    kw2 = {k: y(v) for k, v in kw.items()}
    a = P.power_spectral_density(f * u.Hz, t_obs=t_si, **kw)
    b = P.power_spectral_density(y(f * u.Hz), t_obs=t_si if th else y(t_si), **kw2)
    t.note(units=used)
    t.seen(key, tuple(used[:2]))
    want = noise(f)
    for nm, v in (("first", a), ("converted", b)):
        t.eq("noise ({})".format(nm), t.val("noise", v, 1 / u.Hz), want, 1e-8, 1e-60)
    m = ["huang20", "karnesis21", "robson19"][int(rng.integers(3))]
    fl = np.minimum(f, 1.5)
    a, b = P.get_confusion_noise(fl * u.Hz, m, t_si), P.get_confusion_noise(y(fl * u.Hz), m, y(t_si))
    t.eq("confusion " + m, t.val(m, b, 1 / u.Hz), t.val(m, a, 1 / u.Hz), 1e-9, 1e-60)


@case(quick=220, thorough=4000)
def dimensions(t):
    """Every result has the dimension it should have, whatever the units going in."""
    L, rng = t.L, t.rng
    used = []
    y = converter(rng, used)
    S = srcs.orient(rng, srcs.contents(rng, int(rng.integers(1, 5)), "eE"))
    n = len(S["f"])
    m1, m2, f, d = y(S["m1"] * u.kg), y(S["m2"] * u.kg), y(S["f"] * u.Hz), y(S["d"] * u.m)
    e = S["e"]
    M = dict(m_1=m1, m_2=m2)
    U, E = L.utils, L.evol
    a = y(U.get_a_from_f_orb(f, m1, m2))
    mc, b = y(U.chirp_mass(m1, m2)), U.beta(m1, m2)
    t_si = float(gen.logu(rng, 1e-3, 2)) * u.yr
    t.note(units=used, f=S["f"], e=e)
    t.seen(n, tuple(used))
    pos = SkyCoord(lon=y(S["lon"] * u.rad), lat=y(S["lat"] * u.rad), distance=d, frame="barycentrictrueecliptic")
    wants = [
        ("chirp mass", mc, u.kg), ("separation", a, u.m), ("frequency", U.get_f_orb_from_a(a, m1, m2), u.Hz), ("beta", b, u.m**4 / u.s),
        ("c_0", U.c_0(a, e), u.m), ("a(e)", U.get_a_from_ecc(e, U.c_0(a, e)), u.m), ("chirp rate", U.fn_dot(mc, f, e, 2), u.Hz / u.s),
        ("t_merge circ", E.get_t_merge_circ(beta=b, a_i=a), u.s), ("t_merge circ", E.get_t_merge_circ(f_orb_i=f, **M), u.s),
        ("t_merge ecc", E.get_t_merge_ecc(ecc_i=e, a_i=a, beta=b), u.s),
        ("evolved f", E.evolve_f_orb_circ(f, mc, y(t_si), e), u.Hz),
        ("confusion", L.psd.get_confusion_noise(f, "robson19", y(t_si)), 1 / u.Hz),
        ("no confusion", L.psd.get_confusion_noise(f, None), 1 / u.Hz),
    ]
    names = ["timesteps", "a", "f_orb", "f_GW"]
    for v, un, o in zip(names, (u.s, u.m, u.Hz, u.Hz), E.evol_circ(t_evol=y(t_si), n_step=3, f_orb_i=f, output_vars=names, **M)):
        wants.append(("evol_circ " + v, o, un))
    names = ["timesteps", "ecc", "a", "f_orb", "f_GW"]
    for v, un, o in zip(names, (u.s, None, u.m, u.Hz, u.Hz), E.evol_ecc(ecc_i=e, t_evol=y(t_si), n_step=3, a_i=a, beta=None, output_vars=names, **M)):
        wants.append(("evol_ecc " + v, o, un))
    wants += [("g", U.peters_g(2, e), None), ("F", U.peters_f(e), None), ("h_0", L.strain.h_0_n(mc, f, e, [1, 2], d), None),
              ("h_c", L.strain.h_c_n(mc, f, e, [1, 2], d), None),
              ("modulation", L.strain.amplitude_modulation(pos, y(S["psi"] * u.rad), y(S["inc"] * u.rad)), None),
              ("snr", L.snr.snr_ecc_stationary(mc, f, e, d, y(t_si), 5), None), ("snr circ", L.snr.snr_circ_stationary(mc, f, d, y(t_si)), None),
              ("snr evol", L.snr.snr_circ_evolving(m1, m2, f, d, y(t_si), 5), None),
              ("D", U.D_plus_squared(y(S["lat"] * u.rad), y(S["lon"] * u.rad)), None),
              ("F2", U.F_plus_squared(y(S["lat"] * u.rad), y(S["lon"] * u.rad), y(S["psi"] * u.rad)), None)]
    for name, got, un in wants:
        if un is None:
            v = t.plain(name, got)
            t.true(name + " is a plain number", np.isfinite(v))
        else:
            t.true(name + " finite", np.isfinite(t.val(name, got, un)))


@case(quick=100, thorough=2500)
def angles(t):
    rng, U, n = t.rng, t.L.utils, int(t.rng.integers(1, 9))
    S = srcs.orient(rng, dict(m1=np.zeros(n)))
    used = []
    y = converter(rng, used)
    th, ph, ps, inc = [S[k] * u.rad for k in ("lat", "lon", "psi", "inc")]
    t.note(lat=th, lon=ph, psi=ps, inc=inc)
    for name in ("D_plus_squared", "D_cross_squared", "D_plus_D_cross"):
        fn = getattr(U, name)
        t.eq(name, t.plain(name, fn(y(th), y(ph))), t.plain(name, fn(th, ph)), 1e-9, 1e-12)
    for name in ("F_plus_squared", "F_cross_squared"):
        fn = getattr(U, name)
        t.eq(name, t.plain(name, fn(y(th), y(ph), y(ps))), t.plain(name, fn(th, ph, ps)), 1e-9, 1e-12)
    pos = [SkyCoord(lon=c(ph), lat=c(th), distance=np.ones(n) * u.kpc, frame="barycentrictrueecliptic") for c in (lambda x: x, y)]
    mod = t.L.strain.amplitude_modulation
    t.eq("amplitude modulation", t.plain("mod", mod(pos[1], y(ps), y(inc))), t.plain("mod", mod(pos[0], ps, inc)), 1e-9, 1e-12)
    t.note(units=used)
    t.seen(tuple(used[:6]))


@case(quick=50, thorough=1500)
def collections(t):
    """Collections of the same binaries in different units, with settings in different units, used alike."""
    rng, L = t.rng, t.L
    used = []
    y = converter(rng, used)
    kw, tq, t_yr, noise, key = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO"))
    sky = rng.random() < .3
    S = srcs.contents(rng, int(rng.integers(2, 7)), "cC" if sky else "cCeEs", e_hi=.7, t_yr=t_yr)
    if sky:
        S["e"] = np.zeros_like(S["e"])
        S["f"] = np.where(S["kind"] == "C", gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), 10 * t_yr * ref.YR), S["f"])
        srcs.orient(rng, S)
    th = kw.get("confusion_noise") == "thiele21"
    interp = bool(rng.random() < .3)
    step = float(gen.logu(rng, 1e-4, .5)) * ref.t_exact(S["e"], ref.a_of_f(S["f"], S["m1"], S["m2"]), ref.beta(S["m1"], S["m2"])) * u.s
    if rng.random() < .5:
        step = step.min()
    give_a, params = bool(rng.random() < .3), bool(rng.random() < .5)
    t.note(f=S["f"], e=S["e"], kw=kw, t=t_yr, sky=sky, interp=interp)

    def run(c):
        k = srcs.kwargs(rng, S, si=True)
        if give_a:
            k["a"] = ref.a_of_f(S["f"], S["m1"], S["m2"]) * u.m
            del k["f_orb"]
        if sky:
            k["position"] = SkyCoord(lon=c(S["lon"] * u.rad), lat=c(S["lat"] * u.rad), distance=c(S["d"] * u.m), frame="barycentrictrueecliptic")
        k = {a: c(v) for a, v in k.items()}
        p = {a: (v if th and a == "t_obs" else c(v)) for a, v in dict(kw, t_obs=t_yr * u.yr).items()}
        s = L.source.Source(interpolate_g=False, interpolate_sc=interp, sc_params=p if params else {}, **k)
        to = p["t_obs"]
        out = [s.m_c, s.a, s.f_orb, s.get_source_mask(stationary=True, t_obs=to), s.get_source_mask(circular=True),
               s.get_h_0_n([1, 2, 5]), s.get_h_c_n([2, 3]), s.get_snr(n_step=7, **p), s.max_snr_harmonic,
               s.get_merger_time()]
        s.evolve_sources(c(step))
        out += [s.f_orb, s.ecc, s.t_merge, s.merged, s.a]
        s.m_1 = c(s.m_1)
        s.a = c(s.a)
        return out + [s.m_c, s.f_orb, s.get_snr(n_step=4, **p)]
    want = run(lambda x: x)
    got = run(y)
    t.note(units=used)
    t.seen(key, sky, interp, tuple(used[:4]))
    close(t, "collection in other units", got, want, 1e-5)
