"""Pairs of collections that differ only in their interpolation settings (set when building, switched afterwards, or
kept through copies, subsets, evolution and files), over instruments, mission lengths, arm lengths, responses,
confusion models and custom noise in any inverse-frequency unit; SNRs of every kind and strains within the promised
differences, and everything else bit for bit the same."""
import os
import tempfile

import astropy.units as u
import numpy as np

import obs
import ref
import srcs
from harness import case
from ref import YR

NEEDS_G = True
SOFT_S = 120


def in_band(t, n, classes, par, e_hi=.6, t_yr=4.0):
    """Sources whose contributing harmonics stay clear of the edges of bands and fits, and of the response wiggles."""
    rng = t.rng
    inst = par.get("instrument", "LISA")
    lo = 1.2e-3 if inst == "DECIGO" else 1.2e-4
    top = .15
    if inst == "LISA" and "L" in par:
        top = min(top, .15 * 2.5e9 / par["L"].to_value(u.m))
    S = srcs.contents(rng, n, classes, e_hi=e_hi, t_yr=t_yr, f_lo=lo)
    peak = 2 * (1 - S["e"])**-1.5
    f1 = np.where(np.isin(S["kind"], ["C", "E"]), 1.8, 1.01) * S["f"] * peak
    # heavier and slower binaries with the same merger time
    k = np.maximum(1.0, (f1 / top)**1.6)
    ev = np.isin(S["kind"], ["C", "E"])
    S["m1"], S["m2"] = np.where(ev, S["m1"] * k, S["m1"]), np.where(ev, S["m2"] * k, S["m2"])
    S["f"] = np.where(f1 > top, S["f"] * top / f1, S["f"])
    S["f"] = np.maximum(S["f"], lo)
    return S


def mk(t, kw, interpolate_sc=False, **more):
    """From the same quantities (in the same units) every time."""
    return t.L.source.Source(**kw, interpolate_g=False, interpolate_sc=interpolate_sc, **more)


def snrs(t, s, how, n_step, stat):
    if how == "get_snr":
        return t.plain("snr", s.get_snr(n_step=n_step))
    out = np.zeros(s.n_sources)
    if stat.any():
        out[stat] = s.get_snr_stationary(which_sources=stat)
    if (~stat).any():
        out[~stat] = s.get_snr_evolving(which_sources=~stat, n_step=n_step)
    return out


def others(t, s):
    """Everything interpolation must not touch."""
    e = np.linspace(0, .97, 50)
    return [s.get_source_mask(circular=True), s.get_source_mask(stationary=True, t_obs=3 * u.yr), s.harmonics_required(e),
            s.max_strain_harmonic(e), s.ecc_tol, s.get_merger_time(save_in_class=False).to_value("yr"), s.a.to_value("m")]


def same_others(t, a, b, what):
    for x, y in zip(others(t, a), others(t, b)):
        t.true("interpolation touches nothing else", np.array_equal(x, y), got=x, want=y, op=what)


@case(quick=110, thorough=2500)
def curve(t):
    rng = t.rng
    n = int(rng.integers(1, 5))
    par, tq, t_yr, noise, tag = obs.draw(rng, t_yr=float(rng.choice([4, 4, 5, 2, 8])))
    t_auto = not (rng.random() < .7 or par.get("confusion_noise") == "thiele21")
    if t_auto:
        t_yr = obs.AUTO_T[par.get("instrument", "LISA")]
    else:
        par["t_obs"] = tq
    S = in_band(t, n, ["cCeE", "cC", "eE", "c"][int(rng.integers(4))], par, t_yr=t_yr)
    n_step = int(rng.choice([10, 30, 100]))
    kw = srcs.kwargs(rng, S)
    exact = mk(t, kw, sc_params=dict(par), interpolate_sc=False)
    how = int(rng.integers(6))
    if how == 5 and None in par.values():       # None in a call means "not given"
        how = 1
    t.note(how=how, tag=tag, f=S["f"], e=S["e"], kind=S["kind"], t_yr=t_yr)
    t.seen(tag, how, tuple(S["kind"]))
    if how == 0:
        s = mk(t, kw, sc_params=dict(par), interpolate_sc=True)
    elif how == 1:
        s = mk(t, kw, interpolate_sc=True)
        s.sc_params.update(par)
    elif how == 2:
        s = mk(t, kw, sc_params=dict(par), interpolate_sc=False)
        s.interpolate_sc = True
        s.set_sc()
    elif how == 3:
        s = mk(t, kw, sc_params=dict(par), interpolate_sc=True)[np.arange(n)]
    elif how == 4:
        s = mk(t, kw, interpolate_sc=True).copy()
        s.sc_params = dict(par)
    else:
        s = mk(t, kw, interpolate_sc=True)
    t.true("reports that it interpolates", s.interpolate_sc is True and s.sc is not None)
    t.true("reports that it does not", exact.interpolate_sc is False and exact.sc is None)
    stat = exact.get_source_mask(stationary=True)
    if how == 5:
        a, b = s.get_snr(n_step=n_step, **par), exact.get_snr(n_step=n_step)
    else:
        k = ["get_snr", "parts"][int(rng.integers(2))]
        a, b = snrs(t, s, k, n_step, stat), snrs(t, exact, k, n_step, stat)
    same_others(t, s, exact, how)
    # sources with a harmonic that matters outside the range are not promised anything
    t.true("the exact one is positive", b > 0, got=b)
    t.le("SNR with an interpolated curve", np.abs(a / b - 1), 5e-3, exact=b, interpolated=a, stat=stat)
    t.count("SNRs compared", n)
    # harmonic recorded
    if rng.random() < .4:
        s.interpolate_sc = False
        s.set_sc()
        t.true("switched off: no curve", s.sc is None and s.interpolate_sc is False)
        t.same("switched off: exact again", s.get_snr(n_step=n_step), exact.get_snr(n_step=n_step))
    # evolution is untouched
    if rng.random() < .4:
        dt = 1 * u.yr
        x, y = s.evolve_sources(dt, create_new_class=True), exact.evolve_sources(dt, create_new_class=True)
        t.true("same evolution", np.array_equal(x.f_orb, y.f_orb) and np.array_equal(x.ecc, y.ecc) and np.array_equal(x.merged, y.merged))
        t.true("the choice is kept", x.interpolate_sc == s.interpolate_sc and (x.sc is None) == (s.sc is None) and y.sc is None)


@case(quick=80, thorough=2000)
def relative_power(t):
    """Interpolated g(n, e)."""
    rng = t.rng
    n = int(rng.integers(1, 4))
    par = {"instrument": ["LISA", "TianQin", "DECIGO"][int(rng.integers(3))]}
    S = in_band(t, n, ["cCeE", "eE", "e", "e"][int(rng.integers(4))], par, e_hi=float(rng.choice([.4, .6, .75])))
    if t.index % 4 == 0:
        st = S["kind"] == "e"
        S["e"] = np.where(st, rng.uniform(.1, .9, n), S["e"])
        S["f"] = np.where(st, np.minimum(S["f"], 3e-3), S["f"])
    t.note(f=S["f"], e=S["e"], kind=S["kind"], par=par)
    t.seen(par["instrument"], tuple(S["kind"]), t.index)
    kw = srcs.kwargs(rng, S)
    exact = mk(t, kw, sc_params=dict(par))
    s = srcs.with_g(t, mk(t, kw, sc_params=dict(par)))
    t.true("reports that it interpolates", s.interpolate_g is True)
    t.true("reports that it does not", exact.interpolate_g is False)
    same_others(t, s, exact, "g")
    hs = np.unique(np.concatenate([rng.integers(1, 30, 5), exact.max_strain_harmonic(S["e"]), [1, 2, 3]])).astype(int)
    for name in ("get_h_0_n", "get_h_c_n"):
        a, b = getattr(s, name)(hs), getattr(exact, name)(hs)
        a, b = np.asarray(a), np.asarray(b)
        for i in range(n):
            g = ref.g(hs, S["e"][i])
            on = g > .2 * ref.g(np.arange(1, 120), S["e"][i]).max()
            if on.any():
                t.le("strain with interpolated g", np.abs(a[i, on] / b[i, on] - 1), 1e-2, e=S["e"][i], harmonics=hs[on], fn=name)
                t.count("strains compared", on.sum())
    stat = exact.get_source_mask(stationary=True)
    k = ["get_snr", "parts"][int(rng.integers(2))]
    a, b = snrs(t, s, k, 10, stat), snrs(t, exact, k, 10, stat)
    t.le("SNR with interpolated g", np.abs(a / b - 1), 1e-2, exact=b, interpolated=a, stat=stat)
    t.count("SNRs compared", n)
    x, y = s.evolve_sources(1 * u.yr, create_new_class=True), exact.evolve_sources(1 * u.yr, create_new_class=True)
    t.true("same evolution", np.array_equal(x.f_orb, y.f_orb) and np.array_equal(x.ecc, y.ecc) and np.array_equal(x.merged, y.merged))
    t.true("evolved: the choice is kept", x.interpolate_g and not y.interpolate_g)
    for o, w in ((s.copy(), True), (s[[0]], True), (exact.copy(), False), (exact[[0]], False)):
        t.true("copies keep the choice", o.interpolate_g is w, got=o.interpolate_g, want=w)
    s.set_g(False)
    t.true("switched off", s.interpolate_g is False)
    t.same("switched off: exact again", snrs(t, s, k, 10, stat), b)


@case(quick=6, thorough=60)
def choices(t):
    """Interpolation chosen when building or loading (the real table each time)."""
    rng = t.rng
    S = in_band(t, 2, "ce", {})
    g, sc = [(True, False), (False, True), (True, True), (False, False), (None, None), (None, False)][t.index % 6]
    t.note(g=g, sc=sc)
    t.seen(g, sc)
    kw = srcs.kwargs(rng, S)
    ch = {}
    if g is not None:
        ch["interpolate_g"] = g
    if sc is not None:
        ch["interpolate_sc"] = sc
    s = t.L.source.Source(**kw, **ch)
    # by default both are interpolated
    g, sc = g is not False, sc is not False
    t.true("interpolate_g", s.interpolate_g is g and (s.g is not None) is g, got=s.interpolate_g, want=g)
    t.true("interpolate_sc", s.interpolate_sc is sc and (s.sc is not None) is sc, got=s.interpolate_sc, want=sc)
    exact = mk(t, kw)
    t.le("SNR", np.abs(s.get_snr() / exact.get_snr() - 1), 1e-2)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "s.h5")
        s.save(p)
        r = t.L.source.Source.from_file(p)
        t.true("reloaded: the choices are kept", r.interpolate_g == g and r.interpolate_sc == sc and (r.sc is not None) == sc)
        o = t.L.source.Source.from_file(p, interpolate_g=not g, interpolate_sc=not sc) if t.index % 2 else \
            t.L.source.Source.from_file(p, interpolate_g=False, interpolate_sc=not sc)
        t.true("reloaded: explicit choices count", o.interpolate_g == (not g if t.index % 2 else False) and o.interpolate_sc != sc
               and (o.sc is not None) != sc)
    n = np.array([1, 2, 3, 7, 20])
    e = np.array([.1, .35, .6])
    if g:
        for x in e:
            v = np.asarray(s.g(n, np.full(5, x)))
            w = ref.g(n, x)
            t.le("interpolated g", np.abs(v - w), 2e-3 * ref.g(np.arange(1, 60), x).max(), e=x)
