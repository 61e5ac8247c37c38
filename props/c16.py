"""Random collections (stationary and evolving, circular and eccentric, merged ones among them, any unit, with and
without sky positions), settings given to the collection, to the call or to both, masks, random orders of generic,
stationary-only and evolving-only calls; every source's SNR and strongest harmonic against the reference value of
the calculation for its class, the records kept in the collection and the output printed watched after each call."""
import contextlib
import io

import astropy.units as u
import numpy as np

import gen
import obs
import ref
import srcs
from harness import case
from ref import YR


def near_edge(S, i, t_yr, N, name):
    """An evolving eccentric source with a harmonic that may cross a band edge during the observation."""
    a, b = ref.a_of_f(S["f"][i], S["m1"][i], S["m2"][i]), ref.beta(S["m1"][i], S["m2"][i])
    tm = ref.t_code(S["e"][i], a, b)
    end = min(max(tm - .1 * YR, 0), t_yr * YR)
    cz = ref.c0(a, S["e"][i])
    e1 = ref.e_track(np.array([S["e"][i]]), np.array([cz]), np.array([b]), np.array([[end]]))[0, 0]
    f1 = ref.f_of_a(ref.a_of_e(e1, cz), S["m1"][i], S["m2"][i])
    lims = {"DECIGO": (1e-3, 1e2), "custom": (), "TianQin": ()}.get(name, (1e-7, 2.0)) + (1e-4, 1.0)
    return any(n * S["f"][i] * .95 <= g <= n * f1 * 1.05 for n in range(1, N + 1) for g in lims)


def at_edge(S, i, t_yr, k, rel=1e-4):
    """A merging circular source with a timestep right at a band edge or at a step of a confusion fit."""
    a, b = ref.a_of_f(S["f"][i], S["m1"][i], S["m2"][i]), ref.beta(S["m1"][i], S["m2"][i])
    end = min(a**4 / (4 * b) - 1, t_yr * YR)
    f = 2 * ref.f_of_a(np.abs(a**4 - 4 * b * end * np.linspace(0, 1, k))**.25, S["m1"][i], S["m2"][i])
    return any(np.any(np.abs(f / g - 1) < rel) for g in (1e-7, 2.0, 1e-3, 1e2, 1e-4, 1.0))


def judge(t, S, i, v, h, t_yr, noise, k, stat, circ, hr, name, rtol=0.0):
    """One source's SNR v and strongest harmonic h."""
    N = srcs.group(hr)
    if not circ and not stat and near_edge(S, i, t_yr, min(N, 100), name):
        t.count("evolving sources at a band edge (not judged)")
        return
    merging = circ and not stat and ref.t_circ(ref.a_of_f(S["f"][i], S["m1"][i], S["m2"][i]), ref.beta(S["m1"][i], S["m2"][i])) < t_yr * YR * 1.001
    if merging:
        if at_edge(S, i, t_yr, k) or name == "curve":       # (the interpolated curve of TianQin ends at 2 Hz)
            t.count("merging sources at a band edge (not judged)")
            return
        rtol = max(rtol, 5e-3)       # the last second before the merger amplifies rounding
        t.count("sources merging during the observation judged")
    rows = srcs.snr_parts(S, i, t_yr, noise, k, stat, circ, N)
    tol = rtol + (1e-7 if stat else 1e-5 if circ else 1e-3)
    cls = ("stationary" if stat else "evolving") + " " + ("circular" if circ else "eccentric")
    w = [float(np.sqrt(r.sum())) for r in rows]
    t.true("SNR of a {} source".format(cls), any(abs(v - x) <= tol * x + 1e-300 for x in w), source=i, got=v, want=w,
           steps=k, harmonics=N)
    t._dev("SNR of a {} source".format(cls), min(abs(v - x) / (tol * x + 1e-300) for x in w))
    if circ:
        t.true("strongest harmonic of a circular source is 2", h == 2, got=h, source=i)
    else:
        tops = [r.ravel() for r in rows]
        if all(r.max() > 0 for r in tops):
            t.true("strongest harmonic of a {} source".format(cls), 1 <= h <= N and any(r[h - 1] >= r.max() * (1 - 2 * rtol - 2e-3) for r in tops),
                   got=h, want=[int(r.argmax()) + 1 for r in tops], source=i)
    t.count(cls + " sources judged")


def classes(S, t_yr, stat_tol, ecc_tol):
    """(stationary, circular, too close to call)."""
    mc = ref.chirp_mass(S["m1"], S["m2"])
    rem = ref.f_circ_final(S["f"], mc, t_yr * YR, S["e"])[1]
    with np.errstate(all="ignore"):
        ch = np.where(rem > 0, np.abs(rem)**(-3 / 8) - 1, np.inf)
    close = (np.abs(ch / stat_tol - 1) < 1e-4) | (np.abs(S["e"] - ecc_tol) < 5e-5)
    return ch <= stat_tol, S["e"] <= ecc_tol, close


DECOY = {"instrument": ["LISA", "TianQin", "DECIGO"], "t_obs": [2.0 * u.yr, 7 * u.yr], "L": [1.3e9 * u.m], "approximate_R": [True],
         "confusion_noise": ["huang20", "karnesis21", None], "custom_psd": [None]}


def split(rng, kw):
    """Settings for the collection and for the call: each in one of them, or in both with the call's prevailing."""
    coll, call = {}, {}
    for k, v in kw.items():
        r = rng.random()
        if v is None or r < .4:
            coll[k] = v
        else:
            call[k] = v
            if r > .7:
                c = DECOY[k][int(rng.integers(len(DECOY[k])))]
                if not (k == "instrument" and "custom_psd" in kw):
                    coll[k] = c
    if "approximate_R" not in kw and rng.random() < .2:     # an explicit False prevails, too
        coll["approximate_R"], call["approximate_R"] = True, False
    return coll, call


def setup(t, max_n=8, e_hi=.9, classes_="cCeEs"):
    rng = t.rng
    auto = rng.random() < .25
    insts = ("LISA", "LISA", "TianQin", "DECIGO", "custom")
    if auto:
        inst = insts[int(rng.integers(5))]
        kw, tq, t_yr, noise, name = obs.draw(rng, instruments=(inst,), t_yr=obs.AUTO_T[inst])
        if kw.get("confusion_noise") == "thiele21" and inst != "LISA":
            kw.pop("confusion_noise")
            noise = (lambda x, inst=inst, L=None if "L" not in kw else kw["L"].to(u.m).value, ap=bool(kw.get("approximate_R")):
                     ref.psd(np.asarray(x, float), inst, obs.AUTO_T[inst], L, ap, "auto", None))
            if inst == "custom":
                kw["custom_psd"], model = obs.custom_psd(rng)
                noise = lambda x: ref.psd(np.asarray(x, float), "custom", 5.0, None, False, "auto", model)    # noqa: E731
    else:
        kw, tq, t_yr, noise, name = obs.draw(rng, instruments=insts)
        kw["t_obs"] = tq
    sky = rng.random() < .25
    n = int(rng.choice([1, 2, int(rng.integers(2, max_n + 1))]))
    tol = float(rng.choice([.05, .05, .01, .1, 1e-3, .3]))
    et = srcs.ecc_tol(tol)
    S = srcs.contents(rng, n, "cC" if sky else classes_, e_hi=e_hi, t_yr=t_yr, e_tol=et)
    S["e"] = np.where(S["kind"] == "E", np.minimum(S["e"], max(.7, et * 1.1)), S["e"])
    S["f"] = np.where(S["kind"] == "E", gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), t_yr * YR * gen.logu(rng, 2, 15, n), ref.F(S["e"])), S["f"])
    if sky:
        mc = ref.chirp_mass(S["m1"], S["m2"])
        S["f"] = np.where((S["kind"] == "C"), gen.f_for_tmerge(mc, t_yr * YR * gen.logu(rng, 2, 15, n)), S["f"])
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    if not sky and rng.random() < .12:
        # so eccentric that harmonics in the hundreds are the strongest, at low frequencies
        k = S["kind"] == "e"
        S["e"] = np.where(k, rng.uniform(.93, .985, n), S["e"])
        S["f"] = np.where(k, gen.logu(rng, 1e-7, 1e-5, n), S["f"])
    if rng.random() < .4:
        # some evolving circular ones merge during the observation
        S["e"] = np.where(S["kind"] == "C", 0.0, S["e"])
        S["f"] = np.where((S["kind"] == "C") & (rng.random(n) < .7),
                          gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), t_yr * YR * gen.logu(rng, .05, 1.5, n)), S["f"])
    st = float(rng.choice([1e-2, 1e-2, 5e-3, 1.1e-2]))
    stat, circ, close = classes(S, t_yr, st, et)
    for _ in range(20):
        if not close.any():
            break
        S["f"] = np.where(close, S["f"] * .97, S["f"])
        stat, circ, close = classes(S, t_yr, st, et)
    return kw, t_yr, noise, name, S, stat, circ, dict(gw_lum_tol=tol, stat_tol=st)


def merge_some(t, s, S, p=.35):
    n = len(S["f"])
    gone = (t.rng.random(n) < .3) & (t.rng.random() < p)
    if gone.any():
        s.get_merger_time()
        step = np.where(gone, s.t_merge.to(u.yr).value * 1.5, 0.0) * u.yr
        s.evolve_sources(step)
        t.count("merged sources", gone.sum())
    return gone


def ask(fn, quiet, t, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = fn(**kw)
    if quiet:
        t.true("prints nothing unless verbose", out.getvalue() == "", printed=out.getvalue()[:200])
    else:
        t.true("verbose output", len(out.getvalue()) > 0)
    return t.plain("snr", v)


@case(quick=220, thorough=5000)
def generic(t):
    rng = t.rng
    kw, t_yr, noise, name, S, stat, circ, tols = setup(t)
    coll, call = split(rng, kw)
    n = len(S["f"])
    interp = bool(rng.random() < .15) and name[0] in ("LISA", "TianQin") and kw.get("confusion_noise") != "thiele21"   # (needs exactly 4 yr at all times)
    s = srcs.make(t, S, interpolate_sc=interp, sc_params=coll, **tols)
    gone = merge_some(t, s, S)
    mask = None if rng.random() < .6 else rng.random(n) < .6
    k = int(rng.choice([2, 3, 7, 20, 100], p=[.25, .25, .3, .1, .1]))
    if rng.random() < .3:
        s.get_merger_time()
    t.note(f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], d=S["d"], coll=coll, call=call, t_yr=t_yr, stat=stat, circ=circ, gone=gone, mask=mask, interp=interp,
           sky="lon" in S, **tols)
    t.seen(name, tuple(sorted(coll)), tuple(sorted(call)), n, mask is None, interp, tuple(zip(stat, circ)))
    kk = {} if k == 100 else {"n_step": k}        # 100 by default
    if mask is not None:
        kk["which_sources"] = mask
    got = ask(s.get_snr, True, t, **call, **kk)
    t.true("one value per source", got.shape == (n,), shape=got.shape)
    t.same("recorded SNR", np.asarray(s.snr), got)
    sel = np.ones(n, bool) if mask is None else mask
    hr = s.harmonics_required(S["e"])
    t.true("0 for sources merged or not asked for", got[~sel | gone] == 0, got=got)
    live = np.flatnonzero(sel & ~gone)
    for i in live:
        judge(t, S, i, got[i], s.max_snr_harmonic[i], t_yr, noise, k, stat[i], circ[i], hr[i], "curve" if interp and name[0] == "TianQin" else name[0],
              6e-3 if interp else 0)
    if len(live):
        msh = np.asarray(s.max_snr_harmonic)
        t.true("strongest harmonics are integers, one per source", msh.shape == (n,) and msh.dtype.kind in "iu", got=msh)
        t.true("no strongest harmonic for sources not computed", msh[~sel | gone] == 0, got=msh)
    keep = got.copy()
    if rng.random() < .4:
        t.same("same values again when verbose", ask(s.get_snr, False, t, verbose=True, **call, **kk), keep)
    if mask is None and rng.random() < .4:
        m = rng.random(n) < .5
        sub = ask(s.get_snr, True, t, which_sources=m, **call, **kk)
        t.eq("a subset has the values of the full call", sub, np.where(m, keep, 0.0), 1e-9)
    if not len(live):
        t.count("calls with nothing to compute")


@case(quick=150, thorough=4000)
def single_class_calls(t):
    """Stationary-only and evolving-only calls: values in order, records of the sources selected only."""
    rng = t.rng
    kw, t_yr, noise, name, S, stat, circ, tols = setup(t, e_hi=.8)
    coll, call = split(rng, kw)
    n = len(S["f"])
    s = srcs.make(t, S, sc_params=coll, **tols)
    gone = merge_some(t, s, S)
    hr = s.harmonics_required(S["e"])
    k = int(rng.choice([2, 3, 10]))
    earlier = rng.random() < .6
    t.note(f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], d=S["d"], coll=coll, call=call, t_yr=t_yr, stat=stat, circ=circ, gone=gone, **tols)
    if earlier:
        other = {"LISA": "TianQin", "TianQin": "LISA"}.get(name[0], "LISA")
        with contextlib.redirect_stdout(io.StringIO()):
            s.get_snr(instrument=other, t_obs=3 * u.yr, L=2e9 * u.m, approximate_R=False, confusion_noise="karnesis21", n_step=3)
        # everything the collection's settings should provide must be set again
        base = dict(coll)
        s.sc_params = base
    old_snr = None if s.snr is None else np.array(s.snr)
    old_msh = None if s.max_snr_harmonic is None else np.array(s.max_snr_harmonic)
    which = ["stationary", "evolving"][int(rng.integers(2))]
    base = stat if which == "stationary" else ~stat
    m = base & (rng.random(n) < .8)
    if rng.random() < .3:
        m = m | gone
    if not m.any() or rng.random() < .1:
        m = base.copy()
    none = bool(which == "stationary" and rng.random() < .3)
    if none:
        m = np.ones(n, bool)
    fn = s.get_snr_stationary if which == "stationary" else s.get_snr_evolving
    kk = {} if which == "stationary" else {"n_step": k}
    if not none:
        kk["which_sources"] = m
    t.seen(which, name, tuple(zip(stat, circ)), tuple(m), earlier, none)
    got = ask(fn, True, t, **call, **kk)
    t.true("one value per selected source", got.shape == (int(m.sum()),), shape=got.shape, selected=int(m.sum()))
    idx = np.flatnonzero(m)
    full_snr, full_msh = np.asarray(s.snr), s.max_snr_harmonic
    for j, i in enumerate(idx):
        if gone[i]:
            t.true("merged sources have no SNR", got[j] == 0, got=got[j])
            continue
        t.true("recorded SNR", full_snr[i] == got[j], record=full_snr[i], got=got[j])
        judge(t, S, i, got[j], full_msh[i], t_yr, noise, k, which == "stationary", circ[i], hr[i], name[0])
    rest = ~m | gone
    t.true("records of other sources left alone", full_snr[rest] == (old_snr[rest] if old_snr is not None else 0.0), now=full_snr, before=old_snr)
    if m.any() and full_msh is not None:
        t.true("harmonics of other sources left alone", np.asarray(full_msh)[rest] == (old_msh[rest] if old_msh is not None else 0), now=full_msh, before=old_msh)
    if rng.random() < .3:
        t.same("same values when verbose", ask(fn, not (m & ~gone).any(), t, verbose=True, **call, **kk), got)


@case(quick=70, thorough=1500)
def default_missions(t):
    """Mission length left to the instrument: a sequence of instruments on one collection, each with its own default."""
    rng = t.rng
    n = int(rng.integers(1, 5))
    S = srcs.contents(rng, n, "cee", e_hi=.6, t_yr=5.0)
    s = srcs.make(t, S)
    hr = s.harmonics_required(S["e"])
    seq = []
    for _ in range(int(rng.integers(2, 5))):
        inst = ["LISA", "TianQin", "DECIGO", "custom"][int(rng.integers(4))]
        a = {"instrument": inst}
        cust = None
        if inst == "custom":
            a["custom_psd"], cust = obs.custom_psd(rng)
        fixed = float(rng.choice([2.0, 6.0])) if rng.random() < .25 else None
        t_yr = fixed or obs.AUTO_T[inst]
        how = int(rng.integers(3))
        seq.append((inst, fixed, how))
        t.note(sequence=seq, f=S["f"], e=S["e"])
        if fixed:
            got = s.get_snr(t_obs=fixed * u.yr, **a)
            s.sc_params["t_obs"] = "auto"
        elif how == 0:
            got = s.get_snr(**a)
        elif how == 1:
            s.sc_params.update(a)
            got = s.get_snr()
        else:
            got = s.get_snr_stationary(**a)
        t.true("a mission left to the instrument stays so", isinstance(s.sc_params["t_obs"], str) and s.sc_params["t_obs"] == "auto", now=s.sc_params["t_obs"])
        stat, circ, close = classes(S, t_yr, 1e-2, srcs.ecc_tol(.05))
        noise = lambda x: ref.psd(np.asarray(x, float), inst, t_yr, None, False, "auto", cust)     # noqa: E731
        for i in range(n):
            if stat[i] and not close[i]:
                judge(t, S, i, got[i], s.max_snr_harmonic[i], t_yr, noise, 5, True, circ[i], hr[i], inst)
    t.seen(tuple(seq))


@case(quick=60, thorough=1200)
def specific_classes(t):
    """Collections declared stationary or evolving as a whole."""
    rng = t.rng
    kw, t_yr, noise, name, S, stat, circ, tols = setup(t, e_hi=.7)
    which = ["Stationary", "Evolving"][int(rng.integers(2))]
    if which == "Evolving":
        keep = ~stat
        if not keep.any():
            S["kind"][:] = "C"
            S["f"] = gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), 5 * t_yr * YR, ref.F(S["e"]))
            stat, circ, close = classes(S, t_yr, tols["stat_tol"], srcs.ecc_tol(tols["gw_lum_tol"]))
            keep = ~stat
        S, circ = srcs.take(S, keep), circ[keep]
    coll, call = split(rng, kw)
    for k in list(call):
        if k not in ("t_obs", "instrument", "custom_psd"):
            coll[k] = call.pop(k)
    n = len(S["f"])
    s = srcs.make(t, S, klass=which, sc_params=coll, **tols)
    k = int(rng.choice([2, 5, 12]))
    hr = s.harmonics_required(S["e"])
    t.note(klass=which, f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], coll=coll, call=call, t_yr=t_yr, sky="lon" in S, **tols)
    t.seen(which, name, n, tuple(circ))
    kk = {"n_step": k} if which == "Evolving" else {}
    got = ask(s.get_snr, True, t, **call, **kk)
    t.true("one value per source", got.shape == (n,))
    t.same("recorded SNR", np.asarray(s.snr), got)
    for i in range(n):
        judge(t, S, i, got[i], s.max_snr_harmonic[i], t_yr, noise, k, which == "Stationary", circ[i], hr[i], name[0])


@case(quick=80, thorough=2000)
def recorded_mergers(t):
    """Collections that know their merger times (computed, or carried over from an earlier evolution), some sources
    merging during the observation."""
    rng = t.rng
    kw, tq, t_yr, noise, name = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO", "custom"))
    kw["t_obs"] = tq
    n = int(rng.integers(2, 7))
    S = srcs.contents(rng, n, "CCCEc", e_hi=.6, t_yr=t_yr)
    S["e"] = np.where(S["kind"] == "C", 0.0, S["e"])
    mc = ref.chirp_mass(S["m1"], S["m2"])
    S["f"] = np.where(S["kind"] == "C", gen.f_for_tmerge(mc, t_yr * YR * gen.logu(rng, .05, 3, n)), S["f"])
    s = srcs.make(t, S, sc_params=kw)
    if rng.random() < .5:
        s.get_merger_time()
    else:
        s.evolve_sources(float(rng.uniform(0, .04)) * tq)
        if rng.random() < .3:
            s = s.evolve_sources(float(rng.uniform(0, .004)) * tq, create_new_class=True)
        S["f"], S["e"] = s.f_orb.to(u.Hz).value.copy(), s.ecc.copy()
    stat, circ, close = classes(S, t_yr, 1e-2, srcs.ecc_tol(.05))
    circ_rec = circ & (S["e"] == 0)
    k = int(rng.integers(2, 15))
    t.note(f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], d=S["d"], kw=kw, steps=k)
    order = rng.random() < .5
    fn = s.get_snr if order else s.get_snr_evolving
    m = np.ones(n, bool) if order else ~stat & ~s.merged
    if not m.any():
        m[0] = True
    kk = {} if m.all() else {"which_sources": m}
    got = ask(fn, True, t, n_step=k, **kk)
    full = np.zeros(n)
    full[m] = got[m] if order else got
    hr = s.harmonics_required(S["e"])
    t.seen(name, order, tuple(S["kind"]))
    for i in np.flatnonzero(m & ~close):
        if s.merged[i]:
            t.true("0 for sources merged", full[i] == 0, got=full)
        elif circ[i] and not circ_rec[i]:
            continue
        elif order or not stat[i]:
            judge(t, S, i, full[i], s.max_snr_harmonic[i], t_yr, noise, k, stat[i], circ[i], hr[i], name[0])
    t.true("one value per source", got.shape == (int(m.sum()),))


@case(quick=60, thorough=1500)
def last_moments(t):
    """Sources evolved to the brink of their merger still have an SNR: a number, 0 when no time is left."""
    rng = t.rng
    n = gen.size(rng, 6)
    kw, tq, t_yr, noise, name = obs.draw(rng)
    m1, m2 = gen.light(rng, n)
    e = np.where(rng.random(n) < .6, 0.0, rng.uniform(.02, .6, n))
    S = dict(m1=m1, m2=m2, e=e, d=gen.logu(rng, 1e-2, 1e4, n) * srcs.KPC,
             f=gen.f_for_tmerge(ref.chirp_mass(m1, m2), gen.logu(rng, 1e-3, 30, n) * YR, ref.F(e)))
    s = srcs.make(t, S, sc_params=dict(kw, t_obs=tq))
    tm = np.atleast_1d(s.get_merger_time().to(u.s).value)
    left = np.where(rng.random(n) < .6, gen.logu(rng, 1e-2, .9, n), gen.logu(rng, 1.5, 1e6, n))
    t.note(left=left, name=name, **S)
    t.seen(n, name, tuple(left < 1), tuple(e > 0))
    with contextlib.redirect_stdout(io.StringIO()):
        s.evolve_sources(np.maximum(tm - left, 0) * u.s)
    live = ~s.merged
    k = int(rng.integers(2, 30))
    got = np.asarray(ask(s.get_snr, True, t, n_step=k))
    t.true("an SNR up to the merger", np.isfinite(got) & (got >= 0), snr=got, left=left)
    t.true("none for a circular source in its last second", (got == 0) | ~((left < .9) & (e == 0) & (tm > left)), snr=got, left=left)
    t.count("sources in their last second", ((left < 1) & live).sum())
