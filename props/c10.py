"""Random binaries of every class, clustered around both boundaries (relative frequency change near the
tolerance, eccentricity near the transition), any units, tolerances, mission lengths and instruments: final
frequency and stationarity against the closed form, masks of collections against the conjunction of the
reference conditions, true frequency change of every binary called stationary."""
import astropy.units as u
import numpy as np

import gen
import ref
import srcs
from harness import case
from obs import AUTO_T
from ref import YR


def near_boundary(rng, n, t_s, tol, e):
    """Frequencies (Hz) whose relative change in t_s is tol times something around 1."""
    m1, m2 = gen.masses(rng, n)
    mc = ref.chirp_mass(m1, m2)
    change = tol * np.where(rng.random(n) < .6, 1 + rng.choice([-1, 1], n) * gen.logu(rng, 1e-6, .5, n), gen.logu(rng, 1e-3, 1e4, n))
    rem = (1 + change)**(-8 / 3)
    # 256/5 (G mc/c^3)^(5/3) (2 pi f)^(8/3) t F = 1 - rem
    one = 1 - ref.f_circ_final(np.ones(n), mc, t_s, e)[1]
    f = ((1 - rem) / one)**(3 / 8)
    # some merge well within the time
    f = np.where(rng.random(n) < .15, f * gen.logu(rng, 2, 50, n), f)
    return m1, m2, mc, f


def stationary(f, mc, t_s, e, tol):
    """(class, sure)."""
    rem = ref.f_circ_final(f, mc, t_s, e)[1]
    with np.errstate(invalid="ignore", divide="ignore"):
        ch = np.where(rem > 0, np.abs(rem)**(-3 / 8) - 1, 1e300)
    sure = (np.abs(ch - tol) > 1e-9 * tol + 1e-12) & (np.abs(rem) > 1e-9)
    return ch <= tol, sure


@case(quick=800, thorough=15000)
def final_frequency(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 20, crowd=.03)
    e = gen.ecc(rng, n, 0, .95)
    te = float(gen.logu(rng, 1, 1e6) * YR)
    m1, m2, mc, f = near_boundary(rng, n, te, float(gen.logu(rng, 1e-4, 30)), e)
    if rng.random() < .3:
        f = f * gen.logu(rng, .5, 50, n)        # many merge within t_evol
    if rng.random() < .05:
        te = 0.0
    kw = dict(f_orb_i=gen.layout(rng, gen.q(rng, f, "freq")), m_c=gen.q(rng, mc, "mass"), t_evol=gen.q(rng, te, "time"))
    merge_f = 1e9
    if rng.random() < .8:
        kw["ecc_i"] = e
    else:
        e = np.zeros(n)
    if rng.random() < .4:
        merge_f = float(gen.logu(rng, 1, 1e9))
        kw["merge_f"] = gen.q(rng, merge_f, "freq")
    t.note(**kw)
    t.seen(tuple(kw), n, bool((e > 0).any()))
    got = t.val("f_orb_f", E.evolve_f_orb_circ(**kw), u.Hz)
    want, rem = ref.f_circ_final(f, mc, te, e, merge_f)
    sure = np.abs(rem) > 1e-9
    err = np.abs(got / want - 1)
    t.true("one frequency per binary", got.shape == (n,), shape=got.shape)
    t.le("final frequency", err[sure], (1e-11 + 1e-13 / np.abs(rem))[sure], e=e, rem=rem)
    t.count("merged", (rem < 0).sum())
    t.count("inspiralling", (rem >= 0).sum())


@case(quick=1000, thorough=18000)
def stationarity(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 20, crowd=.03)
    e = gen.ecc(rng, n, 0, .95)
    te = float(gen.logu(rng, .1, 1e4) * YR)
    tol = 1e-2 if rng.random() < .5 else float(gen.logu(rng, 1e-5, .5))
    m1, m2, mc, f = near_boundary(rng, n, te, tol, e)
    kw = dict(f_orb_i=gen.q(rng, f, "freq"), t_evol=gen.q(rng, te, "time"), ecc_i=e)
    way = int(rng.integers(3))
    if way != 1:
        kw.update(m_1=gen.q(rng, m1, "mass"), m_2=gen.q(rng, m2, "mass"))
    if way != 0:
        kw["m_c"] = gen.q(rng, mc, "mass")
    if way == 2:
        kw["m_1"] = kw["m_1"] * 3              # the chirp mass overrides
    if tol != 1e-2 or rng.random() < .5:
        kw["stat_tol"] = tol
    t.note(**kw)
    t.seen(way, n, "stat_tol" in kw)
    got = E.determine_stationarity(**kw)
    got = np.asarray(got.value if hasattr(got, "unit") else got)
    want, sure = stationary(f, mc, te, e, tol)
    t.true("one truth value per binary", got.shape == (n,) and got.dtype == bool, shape=got.shape)
    t.true("stationary exactly when the change is within the tolerance", (got == want) | ~sure, got=got, want=want, e=e)
    t.count("stationary", got.sum())
    t.count("evolving", (~got).sum())
    if not way:
        kw.pop("m_1" if rng.random() < .5 else "m_2")
        t.raises("stationarity without masses", ValueError, E.determine_stationarity, **kw)
    # conservative: what is called stationary truly changes by no more than the tolerance
    ids = np.flatnonzero(got & sure & (e > 1e-3) & (e <= .95))[:2]
    for i in ids:
        cz = ref.c0(ref.a_of_f(f[i], m1[i], m2[i]), e[i])
        e1 = ref.ecc_after(e[i], cz, ref.beta(m1[i], m2[i]), [te])[0]
        f1 = ref.f_of_a(ref.a_of_e(e1, cz), m1[i], m2[i])
        t.le("true change of a stationary binary", f1 / f[i] - 1, tol * (1 + 1e-6) + 1e-9, e=e[i], tol=tol)


@case(quick=240, thorough=3500)
def masks(t):
    rng = t.rng
    n = int(rng.integers(1, 40))
    gtol = float(rng.choice([.05, .05, .01, 1e-3, .2]))
    etol = srcs.ecc_tol(gtol)
    e = np.where(rng.random(n) < .4, 0.0, np.where(rng.random(n) < .6, etol * (1 + rng.choice([-1, 1], n) * gen.logu(rng, 1e-3, .9, n)),
                                                  rng.uniform(0, .95, n)))
    e = np.clip(e, 0, .95)
    inst = ["LISA", "TianQin", "DECIGO", "custom"][int(rng.integers(4))]
    tol = 1e-2 if rng.random() < .5 else float(gen.logu(rng, 1e-4, .3))
    how = int(rng.integers(3))                 # mission length: instrument default, collection's, given
    t_yr = AUTO_T[inst] if how == 0 else float(gen.logu(rng, .2, 20))
    m1, m2, mc, f = near_boundary(rng, n, t_yr * YR, tol, e)
    S = dict(m1=m1, m2=m2, f=f, e=e, d=np.full(n, srcs.KPC))
    sc = {"instrument": inst}
    if inst == "custom":
        sc["custom_psd"] = lambda f, t_obs, L, approximate_R, confusion_noise: np.ones(np.shape(f)) * 1e-40 / u.Hz
    if how == 1 or (how == 2 and rng.random() < .5):
        sc["t_obs"] = gen.q(rng, t_yr if how == 1 else 17.0, "time") * YR
    klass = ["Source", "Source", "Stationary", "Evolving"][int(rng.integers(4))]
    s = srcs.make(t, S, klass=klass, gw_lum_tol=gtol, stat_tol=tol, sc_params=sc, interpolate_sc=bool(rng.random() < .2))
    if rng.random() < .3:
        tol2 = tol * float(rng.choice([.5, 2.0]))
        s.stat_tol, tol = tol2, tol2
    kw = {"t_obs": gen.q(rng, t_yr * YR, "time")} if how == 2 else {}
    t.note(n=n, instrument=inst, how=how, t_yr=t_yr, stat_tol=tol, gw_lum_tol=gtol, ecc=e, **kw)
    t.seen(inst, how, gtol, klass, n > 1)
    circ = e <= etol
    sure_c = (np.abs(e - etol) > 3e-5) | (e == 0)
    stat, sure_s = stationary(f, mc, t_yr * YR, e, tol)
    total = np.zeros(n, int)
    got = {}
    for a in (None, True, False):
        for b in (None, True, False):
            m = s.get_source_mask(circular=a, stationary=b, **kw)
            m = got[a, b] = np.asarray(getattr(m, "value", m))
            t.true("a boolean per source", m.shape == (n,) and m.dtype == bool, shape=m.shape)
            want = (circ == a if a is not None else np.ones(n, bool)) & (stat == b if b is not None else np.ones(n, bool))
            sure = (sure_c | (a is None)) & (sure_s | (b is None))
            t.true("mask is the conjunction of the conditions", (m == want) | ~sure, circular=a, stationary=b, got=m, want=want)
            if a is not None and b is not None:
                total += m
            t.count("selected", m.sum())
    t.true("the four classes partition the collection", total == 1, total=total)
    for a in (None, True, False):
        for b in (None, True, False):
            t.true("masks combine", (got[a, b] == (got[a, None] & got[None, b])).all(), circular=a, stationary=b)
    bad = ["stationary", 2, "True", -1, 0.5, [True], np.array(3)][int(rng.integers(7))]
    t.raises("circular must be True, False or None", ValueError, s.get_source_mask, circular=bad)
    t.raises("stationary must be True, False or None", ValueError, s.get_source_mask, stationary=bad)
    # exactly at the transition: circular
    s.ecc = np.full(n, s.ecc_tol)
    t.true("eccentricity equal to the transition is circular", s.get_source_mask(circular=True).all())
    s.ecc = np.full(n, np.nextafter(s.ecc_tol, 1))
    t.true("eccentricity just above the transition is eccentric", s.get_source_mask(circular=False).all())
