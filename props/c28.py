"""The ready-made verification binaries against a copy of the catalogue and against ordinary collections of the same
content, through random settings, SNR calls, evolutions, merger times, files and deep copies; stationary and evolving
collections next to generic ones of the same content, every result of theirs against the generic one's call for all
sources at once, whatever class the sources really are in."""
import copy
import os
import shutil
import tempfile

import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

import gen
import obs
import ref
import srcs
from catalogue import BINARIES
from coll import contents
from harness import case, digest

LABEL, F, LON, LAT, D, M1, M2, INC, SNR = range(9)


def col(k):
    return np.array([b[k] for b in BINARIES])


def catalogue(t, psi, **kw):
    """An ordinary collection of the catalogue's binaries."""
    d = col(D) * u.pc
    return t.L.source.Source(m_1=col(M1) * u.Msun, m_2=col(M2) * u.Msun, dist=d, f_orb=col(F) / 2 * u.mHz, ecc=np.zeros(len(BINARIES)),
                             position=SkyCoord(l=col(LON) * u.deg, b=col(LAT) * u.deg, distance=d, frame="galactic"), inclination=col(INC) * u.deg,
                             polarisation=psi, interpolate_g=False, **kw)


@case(quick=8, thorough=60)
def content(t):
    s = t.L.source.VerificationBinaries()
    n = len(BINARIES)
    t.seen(t.index)
    t.note(n=n)
    t.true("number of binaries", s.n_sources == n and len(s) == n and isinstance(s, t.L.source.Source), got=s.n_sources)
    t.true("labels", list(s.labels) == [b[LABEL] for b in BINARIES], got=list(s.labels))
    for k, c, un in (("m_1", M1, u.Msun), ("m_2", M2, u.Msun), ("dist", D, u.pc), ("inclination", INC, u.deg)):
        t.eq(k, t.val(k, getattr(s, k), un), col(c), 1e-12)
    t.eq("half the gravitational-wave frequency", t.val("f_orb", s.f_orb, u.mHz), col(F) / 2, 1e-12)
    t.eq("circular", s.ecc, np.zeros(n))
    t.eq("published SNR", np.asarray(s.true_snr), col(SNR), 1e-12)
    t.true("strongest harmonic", np.array_equal(s.max_snr_harmonic, np.full(n, 2)) and s.max_snr_harmonic.dtype.kind in "iu", got=s.max_snr_harmonic)
    t.true("frame", s.position.frame.name == "barycentrictrueecliptic")
    want = SkyCoord(l=col(LON) * u.deg, b=col(LAT) * u.deg, distance=col(D) * u.pc, frame="galactic")
    g = s.position.transform_to("galactic")
    t.eq("galactic latitude", g.b.deg, want.b.deg, 0, atol=1e-6)
    dl = np.abs(g.l.deg - want.l.deg)
    t.le("galactic longitude", np.minimum(dl, 360 - dl) * np.cos(want.b.rad), 1e-6)
    t.eq("distance of the positions", s.position.distance.to_value(u.pc), col(D), 1e-9)
    psi = t.val("polarisation", s.polarisation, u.rad)
    t.true("polarisations drawn between 0 and pi, one each", psi.shape == (n,) and (psi >= 0).all() and (psi <= np.pi).all() and len(set(psi)) == n, got=psi)
    t.true("other polarisations next time", not np.array_equal(psi, t.L.source.VerificationBinaries().polarisation.to_value(u.rad)))
    t.true("no SNR calculated, none merged", s.snr is None and s.t_merge is None and not s.merged.any())
    t.true("settings", s.interpolate_sc is True and s.interpolate_g is False and s.gw_lum_tol == .05 and s.stat_tol == 1e-2
           and dict(s.sc_params) == {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"})
    for i in (0, -1, slice(None), [1, 2], np.ones(n, bool), 99):
        t.raises("no subsets", NotImplementedError, s.__getitem__, i)


def both(t, what, a, b, rtol=1e-9):
    a, b = (np.asarray(x.decompose().value if hasattr(x, "decompose") else x) for x in (a, b))
    t.eq(what, a, b, rtol, atol=1e-300) if a.dtype.kind == "f" else t.true(what, np.array_equal(a, b), got=a, want=b)


@case(quick=30, thorough=700)
def behaviour(t):
    """Same results as an ordinary collection with these contents, through any history."""
    rng = t.rng
    vb = t.L.source.VerificationBinaries()
    interp = bool(rng.random() < .6)
    if not interp:
        vb.interpolate_sc = False
        vb.set_sc()
    s = catalogue(t, vb.polarisation.copy(), interpolate_sc=interp)
    n = len(BINARIES)
    ops = []
    t.note(ops=ops, interp=interp)
    for _ in range(int(rng.integers(2, 6))):
        op = ["snr", "snr", "args", "merger", "evolve", "new", "strain", "masks", "deepcopy", "file", "tol", "params", "position"][int(rng.integers(13))]
        ops.append(op)
        if op == "snr":
            both(t, "SNR", vb.get_snr(n_step=5), s.get_snr(n_step=5))
        elif op == "args":
            par, tq, *_ = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO"))
            m = rng.random(n) < .6
            both(t, "SNR with settings", vb.get_snr(t_obs=tq, n_step=4, which_sources=m, **par), s.get_snr(t_obs=tq, n_step=4, which_sources=m, **par))
            both(t, "strongest harmonics", vb.max_snr_harmonic[m], s.max_snr_harmonic[m])
        elif op == "merger":
            both(t, "merger times", vb.get_merger_time(), s.get_merger_time())
        elif op == "evolve":
            q = gen.logu(rng, 1e-2, 3e6) * u.yr
            vb.evolve_sources(q)
            s.evolve_sources(q)
        elif op == "new":
            q = gen.logu(rng, 1e-2, 3e6) * u.yr
            a, b = vb.evolve_sources(q, create_new_class=True), s.evolve_sources(q, create_new_class=True)
            both(t, "evolved frequency", a.f_orb, b.f_orb)
            both(t, "evolved strain", a.get_h_0_n(2), b.get_h_0_n(2))
        elif op == "strain":
            hs = [int(x) for x in rng.integers(1, 6, 3)]
            both(t, "strain", vb.get_h_0_n(hs), s.get_h_0_n(hs))
            both(t, "characteristic strain", vb.get_h_c_n(hs), s.get_h_c_n(hs))
        elif op == "masks":
            for st in (True, False, None):
                both(t, "classes", vb.get_source_mask(circular=True, stationary=st), s.get_source_mask(circular=True, stationary=st))
        elif op == "deepcopy":
            o = copy.deepcopy(vb)
            t.true("a deep copy has the same contents", contents(o) == contents(vb) and list(o.labels) == list(vb.labels) and type(o) is type(vb))
            vb = o
        elif op == "file":
            d = tempfile.mkdtemp(prefix="c28-")
            try:
                f = os.path.join(d, "vb")
                vb.save(f)
                o = t.L.source.Source.from_file(f)
            finally:
                shutil.rmtree(d)
            a, b = contents(o), contents(vb)
            t.true("comes back from a file", a == b, changed=[k for k in a if a[k] != b[k]])
        elif op == "tol":
            vb.gw_lum_tol = s.gw_lum_tol = .02
            vb.stat_tol = s.stat_tol = float(rng.choice([1e-6, 1e-4, .1]))
        elif op == "params":
            par = {"instrument": ["LISA", "TianQin"][int(rng.integers(2))], "t_obs": float(rng.uniform(1, 8)) * u.yr, "confusion_noise": "huang20"}
            vb.sc_params.update(par)
            s.sc_params.update(par)
        else:
            both(t, "separation", vb.a, s.a)
            both(t, "chirp mass", vb.m_c, s.m_c)
        for k in ("f_orb", "ecc", "merged", "n_sources", "ecc_tol"):
            both(t, k, getattr(vb, k), getattr(s, k))
        t.true("labels stay", list(vb.labels) == [b[LABEL] for b in BINARIES] and np.array_equal(vb.true_snr, col(SNR)))
        t.count("steps")
    t.seen(tuple(ops), interp)


@case(quick=60, thorough=2000)
def subclasses(t):
    """What a stationary (evolving) collection calculates is what the generic one's stationary (evolving) call gives."""
    rng = t.rng
    which = ["Stationary", "Evolving"][int(rng.integers(2))]
    n = int(rng.integers(1, 7))
    sky = rng.random() < .3
    S = srcs.contents(rng, n, "cC" if sky else "cCeEs", e_hi=.5)
    if sky:
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    if rng.random() < .4:
        S["w"] = rng.uniform(.1, 3, n)
    par, tq, t_yr, *_ = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO", "custom"))
    if rng.random() < .6 or par.get("confusion_noise") == "thiele21":
        par["t_obs"] = tq
    kw = srcs.kwargs(rng, S)
    flags = dict(interpolate_g=False, interpolate_sc=bool(rng.random() < .25), gw_lum_tol=float(rng.choice([.05, .01])))
    K = getattr(t.L.source, which)
    s, o = K(**kw, **flags, sc_params=par), t.L.source.Source(**kw, **flags, sc_params=par)
    call = {}
    if rng.random() < .3:
        call["instrument"] = ["LISA", "TianQin", "DECIGO"][int(rng.integers(3))]
    if rng.random() < .3 and par.get("confusion_noise") != "thiele21":
        call["t_obs"] = float(rng.uniform(1, 8)) * u.yr
    if call.get("instrument") and par.get("instrument") != "custom" and rng.random() < .2:
        call["instrument"] = "custom"
        call["custom_psd"] = obs.custom_psd(rng)[0]
    if rng.random() < .5 and "custom" in (call.get("instrument", par.get("instrument")), "custom" if rng.random() < .2 else ""):
        call["custom_psd"] = obs.custom_psd(rng)[0]
    # names of models that do not fit another instrument or length
    if par.get("confusion_noise") in ("thiele21", "robson19"):
        call = {}
    if which == "Evolving":
        call["n_step"] = int(rng.choice([2, 5, 9]))
    t.note(which=which, n=n, par=par, call=call, sky=sky)
    t.seen(which, n, tuple(sorted(par)), tuple(sorted(call)), tuple(S["kind"]))
    t.true("a kind of source collection", isinstance(s, t.L.source.Source) and type(s) is K)
    t.true("text form", which in repr(s) and str(n) in repr(s), got=repr(s))
    if rng.random() < .3:
        s.get_merger_time()
        o.get_merger_time()
    if rng.random() < .3:
        q = gen.logu(rng, 1e-3, 1) * u.yr
        s.evolve_sources(q)
        o.evolve_sources(q)
    if s.merged.all():
        s.merged[:] = False
        o.merged[:] = False
    if rng.random() < .3:
        call["verbose"] = False
    a = s.get_snr(**call)
    b = getattr(o, "get_snr_stationary" if which == "Stationary" else "get_snr_evolving")(**call)
    t.same("SNR", np.asarray(a), np.asarray(b))
    t.same("recorded SNR", np.asarray(s.snr), np.asarray(b))
    t.same("strongest harmonics", np.asarray(s.max_snr_harmonic), np.asarray(o.max_snr_harmonic))
    t.same("settings recorded", dict(s.sc_params), dict(o.sc_params))
    for c in (True, False, None):
        for st in (True, False, None):
            t.same("classes", s.get_source_mask(circular=c, stationary=st), o.get_source_mask(circular=c, stationary=st))
    t.same("strain", np.asarray(s.get_h_0_n([1, 2, 3])), np.asarray(o.get_h_0_n([1, 2, 3])))
    t.same("characteristic strain", np.asarray(s.get_h_c_n(2)), np.asarray(o.get_h_c_n(2)))
    t.same("merger times", s.get_merger_time(), o.get_merger_time())
    if rng.random() < .5:
        sub = s[::2]
        t.true("subsets stay of this class", type(sub) is K and type(s.copy()) is K and type(copy.deepcopy(s)) is K)
        t.same("SNR of a subset", np.asarray(sub.snr), np.asarray(s.snr)[::2])
    ca, cb = contents(s), contents(o)
    t.true("the same contents", ca == cb, differ=[k for k in ca if ca[k] != cb[k]])
    t.count("subclass calls compared")
