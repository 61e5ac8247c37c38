"""Every public calculation as a function of a batch of binaries: shared by the checks that compare the same
calculation under different batches, memory layouts, units, orders and threads.

Each entry takes (L, y, S, P): the package, a function applied to every argument handed to LEGWORK, the binaries
in SI, the other parameters.  It returns a list of results whose first axis runs over the binaries."""
import astropy.units as u
import numpy as np

import gen
import obs
import ref
import srcs
from ref import YR


def batch(rng, n, classes="cCeEs", merging=True, e_hi=.8):
    S = srcs.contents(rng, n, classes, e_hi=e_hi, merging=merging)
    S["t"] = np.where(rng.random(n) < .5, gen.logu(rng, 1e3, 1e9, n), gen.logu(rng, 1e-2, 1.2, n) * ref.t_exact(
        S["e"], ref.a_of_f(S["f"], S["m1"], S["m2"]), ref.beta(S["m1"], S["m2"])))
    return srcs.orient(rng, S)


def Q(S):
    return dict(m_1=S["m1"] * u.kg, m_2=S["m2"] * u.kg), S["f"] * u.Hz, S["d"] * u.m


def V(x):
    return np.asarray(x.si.value if hasattr(x, "unit") else x, float)


# each calculation: (classes it accepts, relative tolerance, function of (L, lay, S, P) -> list of arrays over binaries)
CALCS = {}


def calc(classes="cCeEs", rtol=1e-11, quick=True):
    def deco(fn):
        CALCS[fn.__name__] = (classes, rtol, fn)
        return fn
    return deco


@calc()
def algebra(L, y, S, P):
    U = L.utils
    M, f, d = Q(S)
    m1, m2, f, e = y(M["m_1"]), y(M["m_2"]), y(f), y(S["e"])
    a = y(U.get_a_from_f_orb(f, m1, m2))
    mc = y(U.chirp_mass(m1, m2))
    c0 = U.c_0(a[S["e"] > 0], e[S["e"] > 0])
    back = np.zeros(len(e))
    back[S["e"] > 0] = V(U.get_a_from_ecc(e[S["e"] > 0], c0))
    return [mc, U.beta(m1, m2), a, U.get_f_orb_from_a(a, m1, m2), U.peters_f(e), back, U.fn_dot(mc, f, e, P["n"]),
            U.peters_g(P["n"], e)]


@calc()
def strains(L, y, S, P):
    M, f, d = Q(S)
    mc = y(L.utils.chirp_mass(**M))
    a = dict(m_c=mc, f_orb=y(f), ecc=y(S["e"]), dist=y(d))
    ns = P["ns"]
    return [L.strain.h_0_n(n=ns, **a), L.strain.h_c_n(n=ns, **a), L.strain.h_0_n(n=P["n"], **a)]


@calc("cC", 1e-9)
def oriented(L, y, S, P):
    from astropy.coordinates import SkyCoord
    M, f, d = Q(S)
    pos = y(SkyCoord(lon=y(S["lon"] * u.rad), lat=y(S["lat"] * u.rad), distance=y(d), frame="barycentrictrueecliptic"))
    a = dict(m_c=L.utils.chirp_mass(**M), f_orb=y(f), ecc=np.zeros(len(f)), dist=y(d), position=pos,
             polarisation=y(S["psi"] * u.rad), inclination=y(S["inc"] * u.rad))
    return [L.strain.h_0_n(n=P["ns"], **a), L.strain.amplitude_modulation(pos, y(S["psi"] * u.rad), y(S["inc"] * u.rad))]


@calc()
def curves(L, y, S, P):
    """Noise, response and confusion at the binaries' frequencies."""
    f, K, P_ = S["f"] * 2, P["curve"], L.psd
    plain = np.clip(f, 1e-5, .5)
    arm = P["arm"]
    out = [P_.power_spectral_density(y(f * u.Hz), **K), P_.load_response_function(y(plain), arm), P_.approximate_response_function(y(plain), arm)]
    out += [P_.get_confusion_noise(y(plain * u.Hz), m, y(P["T"] * u.yr)) for m in P["fits"]]
    return out + [L.utils.D_plus_squared(y(S["lat"] * u.rad), y(S["lon"] * u.rad)), L.utils.F_cross_squared(y(S["lat"] * u.rad), y(S["lon"] * u.rad), y(S["psi"] * u.rad))]


@calc()
def merger_times(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    return [L.evol.get_t_merge_ecc(ecc_i=y(S["e"]), f_orb_i=y(f), exact=P["exact"], **M),
            L.evol.get_t_merge_circ(f_orb_i=y(f), **M)]


@calc(rtol=1e-8)
def circular_evolution(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    return list(L.evol.evol_circ(t_evol=y(S["t"] * u.s), n_step=P["k"], f_orb_i=y(f), output_vars=["timesteps", "f_orb", "a"], **M)) \
        + list(L.evol.evol_circ(timesteps=y(np.linspace(0, P["T"], P["k"]) * u.yr), f_orb_i=y(f), output_vars=["timesteps", "f_GW"], **M))


@calc("eEs", 1e-6)
def eccentric_evolution(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    ts = S["t"][:, None] * .8 * np.linspace(0, 1, P["k"]) * u.s
    return list(L.evol.evol_ecc(timesteps=y(ts), f_orb_i=y(f), ecc_i=y(S["e"]), t_before=y(P["tb"] * u.yr),
                                output_vars=["timesteps", "ecc", "a", "f_orb"], **M))


@calc()
def classes(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    mc = y(L.utils.chirp_mass(**M))
    return [L.evol.determine_stationarity(f_orb_i=y(f), t_evol=y(P["T"] * u.yr), ecc_i=y(S["e"]), stat_tol=1e-2, **M),
            L.evol.evolve_f_orb_circ(f_orb_i=y(f), m_c=mc, t_evol=y(P["T"] * u.yr), ecc_i=y(S["e"]))]


@calc()
def stationary_snr(L, y, S, P):
    M, f, d = Q(S)
    mc = y(L.utils.chirp_mass(**M))
    K = P["noise"]
    a = dict(m_c=mc, f_orb=y(f), dist=y(d), t_obs=y(P["T"] * u.yr), **K)
    r = L.snr.snr_ecc_stationary(ecc=y(S["e"]), harmonics_required=12, ret_max_snr_harmonic=True, **a)
    return [L.snr.snr_circ_stationary(**a), r[0], r[1],
            L.snr.snr_ecc_stationary(ecc=y(S["e"]), harmonics_required=12, ret_snr2_by_harmonic=True, **a)]


@calc("cC", 1e-7)
def circular_evolving_snr(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    return [L.snr.snr_circ_evolving(f_orb_i=y(f), dist=y(d), t_obs=y(P["T"] * u.yr), n_step=P["k"] + 2, **P["noise"], **M)]


@calc("E", 1e-5)
def eccentric_evolving_snr(L, y, S, P):
    M, f, d = Q(S)
    M = {k: y(v) for k, v in M.items()}
    r = L.snr.snr_ecc_evolving(f_orb_i=y(f), dist=y(d), ecc=y(S["e"]), t_obs=y(P["T"] * u.yr), n_step=P["k"] + 2, harmonics_required=8,
                               ret_max_snr_harmonic=True, **P["noise"], **M)
    return [r[0]]


@calc(rtol=1e-5)
def collection(L, y, S, P):
    """A Source built from the binaries and everything it computes; some of them are merged already."""
    M, f, d = Q(S)
    s = L.source.Source(ecc=y(S["e"]), f_orb=y(f), dist=y(d), interpolate_g=False, interpolate_sc=P["interp"], gw_lum_tol=P["tol"],
                        **{k: y(v) for k, v in M.items()})
    gone = S["gone"] > 0
    if gone.any():
        s.get_merger_time()
        step = np.where(gone, s.t_merge.to(u.yr).value * 1.5, 0.0) * u.yr
        s.evolve_sources(y(step))
    out = [s.merged]
    out += [s.get_source_mask(circular=True, stationary=True, t_obs=y(P["T"] * u.yr)) & ~gone, s.get_h_0_n(P["ns"]), s.get_h_c_n(P["ns"])]
    out += [s.get_snr(t_obs=y(P["T"] * u.yr), n_step=P["k"] + 2, **P["noise"]), s.max_snr_harmonic if s.max_snr_harmonic is not None else np.zeros(len(f)),
            s.get_merger_time(save_in_class=False)]
    s2 = s.evolve_sources(y(P["T"] * 0.1 * u.yr), create_new_class=True)
    out += [s2.f_orb, s2.ecc, s2.merged]
    return out


@calc("cC", 1e-6)
def oriented_collection(L, y, S, P):
    from astropy.coordinates import SkyCoord
    M, f, d = Q(S)
    n = len(f)
    pos = y(SkyCoord(lon=y(S["lon"] * u.rad), lat=y(S["lat"] * u.rad), distance=y(d), frame="barycentrictrueecliptic"))
    s = L.source.Source(ecc=np.zeros(n), f_orb=y(f), dist=y(d), position=pos, polarisation=y(S["psi"] * u.rad),
                        inclination=y(S["inc"] * u.rad), interpolate_g=False, interpolate_sc=P["interp"], **{k: y(v) for k, v in M.items()})
    return [s.get_h_0_n(P["ns"]), s.get_h_c_n(2), s.get_snr(t_obs=y(P["T"] * u.yr), **P["noise"])]


def params(rng, name):
    insts = [{}, {"instrument": "TianQin"}, {"instrument": "LISA", "confusion_noise": None}, {"instrument": "LISA", "approximate_R": True}]
    return dict(n=int(rng.integers(1, 6)), ns=np.array(rng.permutation(8)[:int(rng.integers(1, 5))] + 1), exact=bool(rng.random() < .5),
                k=int(rng.integers(1, 12)), T=float(rng.choice([4.0, 1.0])), tb=float(gen.logu(rng, 1e2, 1e7)),
                noise=insts[int(rng.integers(len(insts)))], interp=bool(rng.random() < .2), tol=float(rng.choice([.05, .01])), curve=curve(rng),
                arm=float(rng.choice([19.09e-3, gen.logu(rng, 5e-3, .3)])), fits=list(rng.permutation(["huang20", "karnesis21", "robson19"])[:2]))


def curve(rng):
    """Arguments of a noise curve that can be sent to another process."""
    while True:
        kw, tq, t_yr, noise, key = obs.draw(rng, instruments=("LISA", "LISA", "TianQin", "DECIGO"))
        if not callable(kw.get("confusion_noise")):
            return dict(kw, t_obs=tq)


def prepare(t):
    names = sorted(CALCS)
    name = names[t.index % len(names)]
    cl, rtol, fn = CALCS[name]
    S, P = draw(t.rng, name, int(t.rng.integers(3, 9 if name in SLOW else 20)))
    t.note(calculation=name, f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], **{x: v for x, v in P.items()})
    return name, max(rtol, .1) if P["idle"] else rtol, fn, S, P


SLOW = ("collection", "eccentric_evolving_snr")


def draw(rng, name, n):
    cl = CALCS[name][0]
    slow = name in SLOW
    S = batch(rng, n, cl, e_hi=.7 if slow else .9)
    S["gone"] = (rng.random(n) < .25) * (rng.random() < .6)
    P = params(rng, name)
    if rng.random() < .2:
        # nearly the same in some respects: each must still get its own numbers
        for k in ("f", "m1", "m2", "e", "d", "lon", "lat", "psi", "inc"):
            if k in ("f", "m1", "m2") or rng.random() < .5:
                S[k] = S[k][0] * (1 - gen.logu(rng, 1e-9, 1e-2) * rng.random(n))
    P["idle"] = name in ("circular_evolving_snr", "eccentric_evolving_snr") and rng.random() < .25
    if P["idle"]:       # hardly evolve at all, next to one that does
        k = np.arange(n) > 0
        F = ref.F(S["e"])
        S["f"] = np.where(k, gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), P["T"] * YR * gen.logu(rng, 1e8, 1e13, n), F), S["f"])
    # keep clear of decisions that rounding can flip
    if name in ("circular_evolving_snr", "collection", "eccentric_evolving_snr", "oriented_collection"):
        a, b = ref.a_of_f(S["f"], S["m1"], S["m2"]), ref.beta(S["m1"], S["m2"])
        tm = ref.t_exact(S["e"], a, b)
        k = tm / YR > P["T"] * 1.3 if name in ("collection", "oriented_collection") else np.ones(n, bool)
        rem = ref.f_circ_final(S["f"], ref.chirp_mass(S["m1"], S["m2"]), P["T"] * YR, S["e"])[1]
        ch = np.abs(rem)**(-3 / 8) - 1
        k &= np.abs(ch / 1e-2 - 1) > 1e-3
        if not k.any():
            k[:] = True
            S["f"] = S["f"] * .3
        S = srcs.take(S, k)
    return S, P
