"""Random evolving binaries (merging soon after, during or long after the observation), mission lengths in any
unit, numbers of steps, instruments and user-supplied noise and g(n, e) interpolators: every SNR and harmonic's
share against an independent trapezoid along an independently solved inspiral, convergence to the continuous
integral and to the stationary limit, and with merger times from the caller."""
import astropy.units as u
import numpy as np

import gen
import obs
import ref
from harness import case
from ref import YR
from srcs import KPC


def binaries(rng, n, t_yr, lo=.5, hi=60, e=None):
    """lo, hi: merger time in units of the observing time."""
    m1, m2 = gen.light(rng, n) if rng.random() < .8 else gen.masses(rng, n)
    tm = gen.logu(rng, lo, hi, n) * t_yr * YR
    if e is None:
        a = (4 * ref.beta(m1, m2) * tm)**.25
    else:
        a = (tm / ref.t_exact(e, np.ones(n), ref.beta(m1, m2)))**.25
    f = ref.f_of_a(a, m1, m2)
    return m1, m2, f, tm, gen.logu(rng, 1e-2, 1e4, n) * KPC


def fakes(rng, noise):
    gf, out, calls = None, {}, {"interpolated_sc": 0, "interpolated_g": 0}
    if rng.random() < .3:
        k = float(rng.uniform(.2, 3))

        def sc(f):
            calls["interpolated_sc"] += 1
            return k * 1e-40 * (1 + (f.to(u.Hz).value / 1e-3)**2) / u.Hz
        out["interpolated_sc"] = sc
        noise = lambda x: k * 1e-40 * (1 + (x / 1e-3)**2)       # noqa: E731
    if rng.random() < .3:
        q = float(rng.uniform(.2, 3))

        def gi(n, e):
            calls["interpolated_g"] += 1
            n, e = np.broadcast_arrays(n, e)
            return q * (1 + e) / n**2

        def gf(n, e):
            return q * (1 + e) / n**2
        out["interpolated_g"] = gi
    return out, noise, gf, calls


@case(quick=350, thorough=9000)
def circular(t):
    rng, N = t.rng, t.L.snr
    n = gen.size(rng, 10)
    if rng.random() < .12:      # a glance of seconds to days
        kw, tq, t_yr, noise, name = obs.draw(rng, ("TianQin", "DECIGO", "custom"), t_yr=float(gen.logu(rng, 10, 1e6) / YR))
    else:
        kw, tq, t_yr, noise, name = obs.draw(rng)
    m1, m2, f, tm, d = binaries(rng, n, t_yr)
    fk, noise, gf, calls = fakes(rng, noise)
    k = int([100, 2, 3, 20, int(rng.integers(2, 300))][int(rng.integers(5))]) if rng.random() < .94 else int(gen.logu(rng, 300, 3000))
    a = dict(m_1=gen.q(rng, m1, "mass"), m_2=gen.q(rng, m2, "mass"), f_orb_i=gen.q(rng, f, "freq"), dist=gen.q(rng, d, "dist"),
             t_obs=tq, n_step=k)
    t.note(**a, tm=tm / YR, **{x: v for x, v in kw.items() if not callable(v)})
    t.seen(name, tuple(fk), n, k, bool((tm < t_yr * YR).any()))
    got = t.plain("snr", N.snr_circ_evolving(**a, **kw, **fk))
    want = np.sqrt(ref.snr2_circ_evol(m1, m2, f, d, t_yr * YR, k, noise, gf)[:, 0])
    # the last second before the merger and the steps next to the band edge amplify rounding
    slack = np.where(tm < t_yr * YR * 1.0001, 2e-3, 1e-6 + 1e-11 * tm / (t_yr * YR))
    edge = band_edge(f, m1, m2, tm, t_yr * YR, k, [2], None) if "LISA" in name or "DECIGO" in name else np.zeros(n, bool)
    edge &= "interpolated_sc" not in fk
    t.true("finite and non-negative", np.isfinite(got) & (got >= 0), got=got)
    t.eq("SNR of circular evolving binaries", got[~edge], want[~edge], slack[~edge])
    t.true("interpolators are used", all(calls[x] > 0 for x in fk), calls=calls)
    s = float(gen.logu(rng, .1, 30))
    b = dict(a, dist=a["dist"] * s)
    t.eq("inversely proportional to distance", t.plain("snr", N.snr_circ_evolving(**b, **kw, **fk)), got / s, 1e-10)
    i = int(rng.integers(n))
    one = {x: (v[i:i + 1] if x not in ("t_obs", "n_step") else v) for x, v in a.items()}
    t.eq("independent of the other binaries", t.plain("snr", N.snr_circ_evolving(**one, **kw, **fk)), got[i:i + 1], 1e-9)
    b = dict(a, t_merge=gen.q(rng, tm, "time"))
    t.eq("merger times given by the caller", t.plain("snr", N.snr_circ_evolving(**b, **kw, **fk)), got,
         np.where(tm < t_yr * YR * 1.0001, 5e-3, 1e-9))
    t.count("merging during the observation", (tm < t_yr * YR).sum())
    # whatever merger times the caller believes in (here up to 5% late), no binary feels the others
    wrong = tm * rng.uniform(.8, 1.05, n)
    b = dict(a, t_merge=gen.q(rng, wrong, "time"))
    both = t.plain("snr", N.snr_circ_evolving(**b, **kw, **fk))
    for i in range(n) if n > 1 else []:
        one = {x: (v[i:i + 1] if x not in ("t_obs", "n_step") else v) for x, v in b.items()}
        t.eq("independent of the other binaries, inaccurate merger times", t.plain("snr", N.snr_circ_evolving(**one, **kw, **fk)),
             both[i:i + 1], 1e-9)


def band_edge(f, m1, m2, tm, T, k, n, e):
    """Some step of some harmonic within 1e-6 of a band edge (1e-7, 2 Hz; 1e-3, 100 Hz for DECIGO)."""
    a, b = ref.a_of_f(f, m1, m2), ref.beta(m1, m2)
    end = np.minimum(tm - 1, T)
    x = a[:, None]**4 - 4 * b[:, None] * end[:, None] * np.linspace(0, 1, k)
    fe = 2 * ref.f_of_a(np.abs(x)**.25, m1[:, None], m2[:, None])
    return np.any([np.any(np.abs(fe / g - 1) < 1e-4, axis=1) for g in (1e-7, 2.0, 1e-3, 1e2)], axis=0)


def strongest(t, name, got, rows, tol):
    got = np.asarray(got)
    t.true(name + ": one per binary", got.shape == (len(rows),), shape=got.shape)
    t.true(name + " is an integer", got.dtype.kind in "iu", dtype=str(got.dtype))
    for k, r in zip(got, rows):
        if r.max() > 0:
            t.le(name, r.max() * (1 - tol), r[int(k) - 1], harmonic=int(k), best=int(r.argmax()) + 1)


@case(quick=220, thorough=5000)
def eccentric(t):
    rng, N = t.rng, t.L.snr
    n = gen.size(rng, 5)
    kw, tq, t_yr, noise, name = obs.draw(rng, t_yr=float(gen.logu(rng, .2, 1.2)) if rng.random() < .25 else None)
    e = gen.ecc(rng, n, 0.02, .9, circ=0)
    m1, m2, f, tm, d = binaries(rng, n, t_yr, max(.5, .2 / t_yr), 40 if t_yr > 1.2 or rng.random() < .3 else 2, e)
    fk, noise, gf, calls = fakes(rng, noise)
    k = int([100, 2, 3, 20, int(rng.integers(2, 120))][int(rng.integers(5))]) if rng.random() < .94 else int(gen.logu(rng, 120, 1500))
    H = int([1, 2, 10, 10, int(rng.integers(2, 40))][int(rng.integers(5))])
    a = dict(m_1=gen.q(rng, m1, "mass"), m_2=gen.q(rng, m2, "mass"), f_orb_i=gen.q(rng, f, "freq"), ecc=e.copy(),
             dist=gen.q(rng, d, "dist"), t_obs=tq, n_step=k, harmonics_required=H)
    t.note(**a, tm=tm / YR, **{x: v for x, v in kw.items() if not callable(v)})
    merging = tm < (t_yr + .1) * YR * 1.03
    t.seen(name, tuple(fk), n, k, H, bool(merging.any()))
    rows = ref.snr2_ecc_evol(m1, m2, f, e, d, t_yr * YR, k, H, noise, gf)
    by = t.plain("snr^2", N.snr_ecc_evolving(ret_snr2_by_harmonic=True, **a, **kw, **fk))
    got = t.plain("snr", N.snr_ecc_evolving(**a, **kw, **fk))
    t.true("finite and non-negative", np.isfinite(got) & (got >= 0), got=got)
    t.eq("shares add up to the total", by.sum(1), got**2, 1e-10)
    t.true("one row per binary, one column per harmonic", by.shape == (n, H), shape=by.shape)
    smooth = ("TianQin" in name) or ("custom" in name) or "interpolated_sc" in fk
    for i in range(n):
        tops = [r[i] for r in rows]
        big = max(r.max() for r in tops)
        # a timestep near a band edge may fall on either side of it
        tol = (5e-3 if merging[i] else 3e-4)
        if not smooth and edge(f[i], e[i], m1[i], m2[i], t_yr, tm[i], H, "DECIGO" in name):
            t.count("sources crossing a band edge")
            continue
        good = [np.all(np.abs(by[i] - r) <= tol * r + 1e-6 * big + 1e-300) for r in tops]
        t.true("share of each harmonic", any(good), source=i, got=by[i], want=tops[0], frozen=tops[1], merging=bool(merging[i]))
        w = [np.sqrt(r.sum()) for r in tops]
        t.true("SNR of eccentric evolving binaries", any(abs(got[i] - x) <= tol * x + 1e-300 for x in w), source=i, got=got[i], want=w)
        t._dev("SNR of eccentric evolving binaries", min(abs(got[i] - x) / (tol * x + 1e-300) for x in w))
        t.count("harmonics judged", H)
    res = N.snr_ecc_evolving(ret_max_snr_harmonic=True, **a, **kw, **fk)
    t.true("SNR and strongest harmonic", isinstance(res, tuple) and len(res) == 2)
    t.eq("same SNR with the strongest harmonic", t.plain("snr", res[0]), got, 1e-12)
    strongest(t, "strongest harmonic", res[1], by, 1e-9)
    t.true("interpolators are used", all(calls[x] > 0 for x in fk), calls=calls)
    s = float(gen.logu(rng, .1, 30))
    b = dict(a, dist=a["dist"] * s)
    t.eq("inversely proportional to distance", t.plain("snr", N.snr_ecc_evolving(**b, **kw, **fk)), got / s, 1e-10)
    i = int(rng.integers(n))
    one = {x: (v[i:i + 1] if x not in ("t_obs", "n_step", "harmonics_required") else v) for x, v in a.items()}
    t.eq("independent of the other binaries", t.plain("snr", N.snr_ecc_evolving(**one, **kw, **fk)), got[i:i + 1], 1e-9)
    b = dict(a, t_merge=gen.q(rng, ref.t_code(e, ref.a_of_f(f, m1, m2), ref.beta(m1, m2)), "time"))
    t.eq("merger times given by the caller", t.plain("snr", N.snr_ecc_evolving(**b, **kw, **fk))[~merging], got[~merging], 1e-4)
    t.count("merging during the observation", merging.sum())


def edge(f, e, m1, m2, t_yr, tm, H, decigo):
    """Whether some harmonic of some step can be near (5%) a band edge; conservative bracket of the track."""
    a, b = ref.a_of_f(f, m1, m2), ref.beta(m1, m2)
    end = min(max(ref.t_code(e, a, b) - .1 * YR, 0), t_yr * YR)
    cz = ref.c0(a, e)
    e1 = ref.e_track(np.array([e]), np.array([cz]), np.array([b]), np.array([[end]]))[0, 0]
    f1 = ref.f_of_a(ref.a_of_e(e1, cz), m1, m2)
    lims = (1e-3, 1e2) if decigo else (1e-7, 2.0)
    return any(n * f * .95 <= g <= n * f1 * 1.05 for n in range(1, H + 1) for g in lims)


@case(quick=40, thorough=800)
def convergence(t):
    """More steps converge to the continuous integral, second order in the step."""
    rng, N = t.rng, t.L.snr
    ecc = bool(rng.random() < .5)
    n = int(rng.integers(1, 4))
    t_yr = float(rng.choice([4.0, 1.0, 6.5]))
    e = rng.uniform(.1, .7, n)
    m1, m2, f, tm, d = binaries(rng, n, t_yr, 3, 40, e if ecc else None)
    a = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, dist=d * u.m, t_obs=t_yr * u.yr, instrument="TianQin")
    t.note(ecc=ecc, e=e, f=f, tm=tm / YR)
    t.seen(ecc, n, t.index)
    if ecc:
        a.update(ecc=e, harmonics_required=10)
    fn = N.snr_ecc_evolving if ecc else N.snr_circ_evolving
    s = [t.plain("snr", fn(n_step=k, **a)) for k in (51, 101, 401)]
    T = t_yr * YR
    noise = lambda x: ref.psd(x, "TianQin", t_yr)       # noqa: E731
    if ecc:
        best = np.sqrt(ref.snr2_ecc_evol(m1, m2, f, e, d, T, 1501, 10, noise)[0].sum(1))
    else:
        best = np.sqrt(ref.snr2_circ_evol(m1, m2, f, d, T, 3001, noise)[:, 0])
    d1, d2 = np.abs(s[0] / best - 1), np.abs(s[2] / best - 1)
    t.le("100 steps are close to the continuous integral", np.abs(s[1] / best - 1), 5e-3)
    t.le("converges with the number of steps", d2, d1 / 8 + 2e-5)


@case(quick=60, thorough=1000)
def stationary_limit(t):
    """Slowly evolving binaries: the evolving calculation equals the stationary one."""
    rng, N = t.rng, t.L.snr
    ecc = bool(rng.random() < .5)
    n = int(rng.integers(1, 5))
    kw, tq, t_yr, noise, name = obs.draw(rng, instruments=("LISA", "TianQin"))
    e = rng.uniform(.1, .7, n)
    m1, m2 = gen.light(rng, n)
    tm = gen.logu(rng, 200, 2000, n) * t_yr * YR
    a0 = ((tm / ref.t_exact(e, np.ones(n), ref.beta(m1, m2))) if ecc else 4 * ref.beta(m1, m2) * tm)**.25
    f = ref.f_of_a(a0, m1, m2)
    d = gen.logu(rng, .1, 100, n) * KPC
    t.note(ecc=ecc, e=e, f=f, tm=tm / YR, name=name)
    t.seen(ecc, n, name)
    mc = ref.chirp_mass(m1, m2)
    a = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, dist=d * u.m, t_obs=tq, n_step=30)
    if ecc:
        ev = t.plain("snr", N.snr_ecc_evolving(ecc=e, harmonics_required=15, **a, **kw))
        st = ref.snr2_stat(mc, f, e, d, t_yr * YR, np.arange(1, 16), noise)
    else:
        ev = t.plain("snr", N.snr_circ_evolving(**a, **kw))
        st = ref.snr2_stat(mc, f, 0 * f, d, t_yr * YR, [2], noise)
    st = np.sqrt(st.sum(1))
    ok = st > 0
    # the frequency changes by up to 0.4 % and the noise by a few times that; eccentric ones also lose rounding
    t.le("evolving SNR tends to the stationary one", np.abs(ev[ok] / st[ok] - 1), 0.04, ev=ev, st=st)


@case(quick=80, thorough=2000)
def about_to_merge(t):
    """Binaries with less than the margin to live have no time left to be seen in: exactly 0, and never less."""
    rng, N = t.rng, t.L.snr
    ecc = bool(rng.random() < .5)
    n = gen.size(rng, 6)
    kw, tq, t_yr, noise, name = obs.draw(rng)
    margin = .1 * YR if ecc else 1.0
    m1, m2 = gen.light(rng, n) if rng.random() < .7 else gen.masses(rng, n)
    e = gen.ecc(rng, n, 0.02, .9, circ=0)
    doomed = rng.random(n) < .7
    tm = margin * np.where(doomed, gen.logu(rng, 1e-3, .9, n), gen.logu(rng, 1.1, 1e9, n))
    b = ref.beta(m1, m2)
    a0 = (tm / ref.t_code(e, np.ones(n), b) if ecc else 4 * b * tm)**.25
    f = ref.f_of_a(a0, m1, m2)
    d = gen.logu(rng, 1e-2, 1e4, n) * KPC
    k = int(rng.integers(2, 60))
    t.note(ecc=ecc, e=e, f=f, tm=tm, name=name)
    t.seen(ecc, n, name, k, bool(doomed.any()))
    a = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, dist=d * u.m, t_obs=tq, n_step=k)
    if rng.random() < .3:
        a["t_merge"] = gen.q(rng, tm, "time")
    if ecc:
        got, best = N.snr_ecc_evolving(ecc=e, harmonics_required=10, ret_max_snr_harmonic=True, **a, **kw)
        t.true("strongest harmonic", (np.asarray(best) >= 1) & (np.asarray(best) <= 10), best=best)
    else:
        got = N.snr_circ_evolving(**a, **kw)
    got = t.plain("snr", got)
    t.true("finite and non-negative up to the merger", np.isfinite(got) & (got >= 0), snr=got, tm=tm)
    t.true("no signal within the margin of the merger", (got == 0) | ~doomed, snr=got, tm=tm)
    t.count("within the margin", doomed.sum())
