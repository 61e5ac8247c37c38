"""A pool of collections put through random histories of evolutions (in place, into new collections), indexing, copies,
deep copies, saving and loading, assignments of whole arrays, single elements, settings and curve parameters, SNR and
merger-time calls with and without masks and settings, interpolation switched on and off, and refused operations.
After every step the results of the collection concerned (classes, strains, SNRs, merger times, evolution, harmonics,
noise curve, derived values) are compared with those of a twin built from scratch out of its public attributes, and
the contents of every other collection of the pool with what they were before; at the end all are compared, also with
a twin built in a process in which nothing has been calculated before."""
import copy
import os
import shutil
import tempfile

import astropy.units as u
import numpy as np

import fresh
import gen
import harness
import obs
import srcs
from coll import PUBLIC, contents
from harness import case

NEEDS_G = True
ASSUMPTIONS = ["merger times recorded in a collection count as part of what it contains",
               "arrays shared by an evolved collection and its original are not edited element by element"]
RTOL = 1e-9
SAFE_PAR = {"LISA": [None, "huang20", "karnesis21", "auto"], "TianQin": [None, "huang20", "karnesis21", "auto"],
            "DECIGO": [None, "huang20", "auto"]}


class M:
    """A collection of the pool: own = no array is shared with another member."""

    def __init__(self, s, own, how):
        self.s, self.own, self.how = s, own, how


def twin(t, s, times=True):
    K = type(s) if type(s).__name__ in ("Source", "Stationary", "Evolving") else t.L.source.Source

    def c(v):
        return None if v is None else v.copy()
    o = K(m_1=c(s.m_1), m_2=c(s.m_2), ecc=c(s.ecc), dist=c(s.dist), f_orb=c(s.f_orb), position=c(s.position), polarisation=c(s.polarisation),
          inclination=c(s.inclination), weights=None if s.weights is None else np.array(s.weights), n_proc=s.n_proc, gw_lum_tol=s.gw_lum_tol,
          stat_tol=s.stat_tol, interpolate_g=False, interpolate_sc=s.interpolate_sc, sc_params=dict(s.sc_params))
    o.t_merge, o.merged = c(s.t_merge) if times else None, s.merged.copy()
    if s.interpolate_g:
        srcs.with_g(t, o)
    return o


def recipe(s):
    """The public attributes of a collection as values that can be sent to another process."""
    def c(v):
        return None if v is None else (np.array(v.value), v.unit.to_string()) if hasattr(v, "unit") else np.array(v)
    d = {k: c(getattr(s, k)) for k in ("m_1", "m_2", "ecc", "dist", "f_orb", "polarisation", "inclination", "weights", "t_merge", "merged")}
    if s.position is not None:
        d["position"] = (s.position.lon.rad, s.position.lat.rad, s.position.distance.to_value(u.kpc))
    d["set"] = {k: getattr(s, k) for k in ("gw_lum_tol", "stat_tol", "interpolate_sc")}
    d["par"] = {k: c(v) if hasattr(v, "unit") else v for k, v in dict(s.sc_params).items()}
    d["class"] = type(s).__name__
    return d


def cook(L, d):
    def q(v):
        return v[0].copy() * u.Unit(v[1]) if isinstance(v, tuple) else v
    from astropy.coordinates import SkyCoord
    kw = {k: q(d[k]) for k in ("m_1", "m_2", "ecc", "dist", "f_orb", "polarisation", "inclination", "weights")}
    if "position" in d:
        lon, lat, r = d["position"]
        kw["position"] = SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=r * u.kpc, frame="barycentrictrueecliptic")
    K = getattr(L.source, d["class"] if d["class"] in ("Stationary", "Evolving") else "Source")
    o = K(interpolate_g=False, sc_params={k: q(v) for k, v in d["par"].items()}, **d["set"], **kw)
    o.t_merge, o.merged = q(d["t_merge"]), d["merged"].copy()
    return o


def results(s):
    """A fixed list of calculations."""
    r = {}
    e = np.linspace(0, .92, 20)
    r["harmonics required"], r["strongest strain harmonic"] = s.harmonics_required(e), s.max_strain_harmonic(e)
    r["transition eccentricity"] = s.ecc_tol
    for T in (None, 7 * u.yr):
        r["stationary {}".format(T)] = s.get_source_mask(stationary=True, t_obs=T)
        r["circular {}".format(T)] = s.get_source_mask(circular=True)
    r["strain"], r["characteristic strain"] = s.get_h_0_n([1, 2, 4]), s.get_h_c_n([1, 2, 4])
    if not s.merged.all():
        r["merger time"] = s.get_merger_time(save_in_class=False)
    if s.interpolate_sc and s.sc is not None:
        r["noise curve"] = s.sc(np.logspace(-5, 0.1, 30) * u.Hz)
    if not s.merged.all():
        s.get_snr(**({} if type(s).__name__ == "Stationary" else {"n_step": 3}))
        # (merged sources keep older records)
        r["SNR"], r["strongest harmonic"] = s.snr[~s.merged], s.max_snr_harmonic[~s.merged]
    return {k: si(v) for k, v in r.items()}


def answer(L, d):
    np.seterr(all="ignore")
    return results(cook(L, d))


def begin(run):
    run.fresh26 = fresh.Fresh(lambda d: answer(run.L, d))


harness.STARTERS.append(begin)


def alone(t, m):
    """The same calculations in a process that has calculated nothing else."""
    s = m.s
    if s.n_sources == 0:
        return
    if s.interpolate_g:
        s.set_g(False)
    if (s.f_orb.to_value(u.Hz)[~s.merged] > 1.0).any() or any(callable(v) for v in s.sc_params.values()):
        return
    want = t.run.fresh26.ask(recipe(s))
    got = results(s)
    t.true("the same results", sorted(got) == sorted(want))
    for k in got:
        close(t, k + " as in a process of its own", got[k], want[k])
    t.count("collections compared with a process of their own")


def si(x):
    return np.asarray(x.decompose().value if hasattr(x, "decompose") else x)


def close(t, what, a, b, **info):
    """Equal to rounding; a value that is not a number has to be so on both sides."""
    a, b = si(a), si(b)
    t.true(what + ": same shape", a.shape == b.shape, got=a.shape, want=b.shape, **info)
    if a.dtype.kind == "f":
        t.true(what + ": same undefined entries", np.array_equal(np.isnan(a), np.isnan(b)), got=a, want=b, **info)
        a, b = np.nan_to_num(a, nan=0.0, posinf=np.inf), np.nan_to_num(b, nan=0.0, posinf=np.inf)
        t.eq(what, a, b, RTOL, atol=1e-300, **info)
    else:
        t.true(what, np.array_equal(a, b), got=a, want=b, **info)


def snr_args(rng):
    k = {}
    if rng.random() < .35:
        k["instrument"] = ["LISA", "TianQin", "DECIGO"][int(rng.integers(3))]
        k["confusion_noise"] = ["huang20", "karnesis21", "auto"][int(rng.integers(3))]
    if rng.random() < .3:
        k["t_obs"] = float(rng.choice([1, 4, 5, 2.5])) * u.yr
    return k


def fresh_times(t, s):
    """Merger times are calculated from the sources as they are, whatever was recorded before."""
    if not s.merged.all():
        close(t, "merger time", s.get_merger_time(save_in_class=False), twin(t, s, times=False).get_merger_time(save_in_class=False))


def reclassed(t, s):
    """Classes, strains and merger times just after the sources were given other properties."""
    o = twin(t, s, times=False)
    for st in (True, False):
        for c in (None, True, False):
            t.same("classes after an assignment", s.get_source_mask(circular=c, stationary=st), o.get_source_mask(circular=c, stationary=st))
    close(t, "strain after an assignment", s.get_h_0_n([1, 2, 3]), o.get_h_0_n([1, 2, 3]))
    if not s.merged.all():
        kw = {"save_in_class": bool(t.rng.random() < .3)}
        close(t, "merger time after an assignment", s.get_merger_time(**kw), o.get_merger_time(**kw))
    s.t_merge = None


def compare(t, m, deep):
    """Everything calculated from m.s against a twin that has no past."""
    rng, s = t.rng, m.s
    if s.n_sources == 0:
        t.true("an empty collection", len(s) == 0)
        return
    o = twin(t, s)
    t.count("twins compared")
    for k in ("m_c", "a", "n_sources", "ecc_tol", "interpolate_g", "interpolate_sc", "f_orb"):
        close(t, k, getattr(s, k), getattr(o, k))
    e = np.linspace(0, .9, 10)
    t.same("harmonics required", s.harmonics_required(e), o.harmonics_required(e))
    t.same("strongest strain harmonic", s.max_strain_harmonic(e), o.max_strain_harmonic(e))
    T = [None, None, 1.5 * u.yr, 10 * u.yr][int(rng.integers(4))]
    for c in (None, True, False):
        for st in (None, True, False):
            t.same("classes", s.get_source_mask(circular=c, stationary=st, t_obs=T), o.get_source_mask(circular=c, stationary=st, t_obs=T))
    n = s.n_sources
    mask = None if rng.random() < .5 else rng.random(n) < .6
    hs = [[2], [1, 2, 3, 10], np.array([5, 2, 2])][int(rng.integers(3))]
    close(t, "strain", s.get_h_0_n(hs, which_sources=mask), o.get_h_0_n(hs, which_sources=mask))
    close(t, "characteristic strain", s.get_h_c_n(hs, which_sources=mask), o.get_h_c_n(hs, which_sources=mask))
    if s.interpolate_sc:
        f = np.logspace(-6, .2, 40) * u.Hz
        t.true("curve present", (s.sc is None) == (o.sc is None))
        if s.sc is not None:
            close(t, "noise curve", s.sc(f), o.sc(f))
    else:
        t.true("no curve", s.sc is None)
    if not s.merged.all() and (deep or rng.random() < .3):
        close(t, "merger time", s.get_merger_time(save_in_class=False, which_sources=mask), o.get_merger_time(save_in_class=False, which_sources=mask))
        fresh_times(t, s)
    if deep or rng.random() < .35:
        snr(t, s, o)
    if deep or rng.random() < .25:
        q = gen.logu(rng, 1e-3, 1e2) * u.yr
        a, b = s.evolve_sources(q, create_new_class=True), o.evolve_sources(q, create_new_class=True)
        for k in ("f_orb", "ecc", "merged", "t_merge", "m_1", "m_2", "dist"):
            close(t, "evolved " + k, getattr(a, k), getattr(b, k))
        for k in ("weights", "polarisation", "inclination"):
            t.true("evolved {} kept or not".format(k), (getattr(a, k) is None) == (getattr(b, k) is None))
        t.count("evolutions compared")
    if deep:
        i = rng.integers(0, n, int(rng.integers(1, n + 1)))
        a, b = s[i], o[i]
        close(t, "strain of a selection", a.get_h_0_n([1, 2, 3]), b.get_h_0_n([1, 2, 3]))


def snr(t, s, o):
    rng = t.rng
    kw = snr_args(rng)
    kl = type(s).__name__
    n = s.n_sources
    if kl != "Source":
        kw.pop("confusion_noise", None)
        if kl == "Evolving":
            kw["n_step"] = 4
        # the subclasses fall back to the collection's own confusion noise
        if s.sc_params["confusion_noise"] == "thiele21":
            kw.pop("t_obs", None)
        call = "get_snr"
    else:
        call = ["get_snr", "get_snr", "get_snr_stationary", "get_snr_evolving"][int(rng.integers(4))]
        if call != "get_snr_stationary":
            kw["n_step"] = int(rng.choice([3, 4, 6]))
        if rng.random() < .3:
            kw["which_sources"] = rng.random(n) < .6
    if call == "get_snr_stationary" or kl == "Stationary":
        mark = "stationary"
    else:
        mark = "evolving"
    if mark == "evolving" and (s.f_orb.to_value(u.Hz)[~s.merged] > 1.0).any():
        return          # at the edge of every band
    a, b = getattr(s, call)(**kw), getattr(o, call)(**kw)
    if kl != "Evolving":
        close(t, call, a, b, args=sorted(kw))
    # records: those of sources outside the call are older
    done = ~s.merged & kw.get("which_sources", np.ones(n, bool))
    for k in ("snr", "max_snr_harmonic") if done.any() else ():
        close(t, "recorded " + k, getattr(s, k)[done], getattr(o, k)[done], args=sorted(kw), call=call)
    t.same("parameters recorded by the SNR call", dict(s.sc_params), dict(o.sc_params))
    t.count("SNR calls compared")


def heavy_and_back(t, s):
    """Masses far larger at the same frequencies (so that stationary sources evolve), looked at, and back."""
    was = s.m_1, s.m_2
    live = ~s.merged
    f = np.clip(t.rng.uniform(1, 40, s.n_sources) * live, 1, None)
    s.m_1, s.m_2 = s.m_1 * f, s.m_2 * f
    tm = twin(t, s, times=False).get_merger_time(save_in_class=False).to_value(u.yr)[live] if live.any() else np.ones(1)
    if (tm > .05).all():
        reclassed(t, s)
        t.count("masses enlarged and restored")
    s.m_1, s.m_2 = was


def params(rng, s):
    k = int(rng.integers(6))
    inst = ["LISA", "TianQin", "DECIGO"][int(rng.integers(3))]
    conf = SAFE_PAR[inst][int(rng.integers(len(SAFE_PAR[inst])))]
    if k == 0:
        s.sc_params = {"instrument": inst, "confusion_noise": conf}
    elif k == 1:
        s.sc_params.update(instrument=inst, confusion_noise=conf, t_obs=float(rng.choice([1, 4, 5])) * u.yr)
    elif k == 2:
        s.sc_params |= {"confusion_noise": ["huang20", None, "karnesis21"][int(rng.integers(3))]}
    elif k == 3:
        if s.sc_params["confusion_noise"] != "thiele21":
            s.sc_params["t_obs"] = "auto" if rng.random() < .5 else gen.q(rng, float(rng.uniform(.5, 9)) * gen.YR, "time")
    elif k == 4:
        s.sc_params["L"] = "auto" if rng.random() < .4 else gen.q(rng, float(rng.uniform(1e9, 3e9)), "len")
    else:
        s.sc_params["approximate_R"] = bool(rng.random() < .5)
    return k


REFUSED = [
    ("mask of another length", lambda t, s, d: s[np.ones(s.n_sources + 1, bool)], ValueError),
    ("index out of range", lambda t, s, d: s[[s.n_sources]], IndexError),
    ("index of another type", lambda t, s, d: s["m_1"], ValueError),
    ("index of floats", lambda t, s, d: s[np.array([0.0])], ValueError),
    ("unknown parameter", lambda t, s, d: s.sc_params.update({"instrument": "TianQin", "t": 1}), KeyError),
    ("unknown parameter set", lambda t, s, d: s.sc_params.__setitem__("psd", None), KeyError),
    ("unknown parameters assigned", lambda t, s, d: setattr(s, "sc_params", {"instrument": "DECIGO", "R": 1}), KeyError),
    ("parameter removed", lambda t, s, d: s.sc_params.pop("t_obs"), TypeError),
    ("parameters cleared", lambda t, s, d: s.sc_params.clear(), TypeError),
    ("harmonic 0", lambda t, s, d: s.get_h_0_n([2, 0]), ValueError),
    ("harmonic -1", lambda t, s, d: s.get_h_c_n(-1), ValueError),
    ("class asked by name", lambda t, s, d: s.get_source_mask(circular="yes"), ValueError),
    ("stationary by name", lambda t, s, d: s.get_source_mask(stationary="no"), ValueError),
    ("chirp mass assigned", lambda t, s, d: setattr(s, "m_c", 1 * u.Msun), AttributeError),
    ("transition assigned", lambda t, s, d: setattr(s, "ecc_tol", .1), AttributeError),
    ("separation without unit", lambda t, s, d: setattr(s, "a", np.ones(s.n_sources)), AssertionError),
    ("no such plot", lambda t, s, d: s.plot_source_variables("mass", show=False), ValueError),
    ("saving over a file", lambda t, s, d: s.save(os.path.join(d, "there.h5")), FileExistsError),
    ("loading what is not there", lambda t, s, d: s.from_file(os.path.join(d, "absent")), FileNotFoundError),
]


def step(t, pool, d):
    """One random operation on one member; returns (name, member, the members it is allowed to change)."""
    rng = t.rng
    m = pool[int(rng.integers(len(pool)))]
    s, n = m.s, m.s.n_sources
    ops = ["evolve", "evolve", "evolve new", "evolve new", "index", "copy", "deepcopy", "reload", "masses", "f_orb", "a", "dist", "ecc", "weights",
           "stat_tol", "gw_lum_tol", "params", "params", "params", "snr", "snr", "merger", "g", "curve", "refused", "refused", "element", "times"]
    op = ops[int(rng.integers(len(ops)))]
    if n == 0:
        op = "copy"
    if op.startswith("evolve"):
        q = gen.logu(rng, 1e-4, 3e2)
        if not s.merged.all() and rng.random() < .4:
            tm = s.get_merger_time(save_in_class=False).to_value(u.yr)
            q = float(np.median(tm[~s.merged])) * 1.01     # some merge
        if rng.random() < .4:
            q = q * rng.uniform(0, 1.2, n)
        q = q * u.yr
        if op == "evolve":
            s.evolve_sources(q)
        else:
            if s.t_merge is None:
                s.get_merger_time()         # recorded by the evolution anyway
                pool_change(m)
            pool.append(M(s.evolve_sources(q, create_new_class=True), False, "evolved"))
            m.own = False
    elif op == "index":
        k = int(rng.integers(4))
        i = [slice(None, None, -1), rng.integers(0, n, n + 1), rng.random(n) < .7, int(rng.integers(n))][k]
        pool.append(M(s[i], True, "selected"))
    elif op == "copy":
        pool.append(M(s.copy(), True, "copied"))
    elif op == "deepcopy":
        pool.append(M(copy.deepcopy(s), True, "deep-copied"))
    elif op == "reload":
        f = os.path.join(d, "f{}.h5".format(int(rng.integers(3))))
        s.save(f, overwrite=True)
        pool.append(M(t.L.source.Source.from_file(f, interpolate_g=False), True, "loaded"))
    elif op == "masses":
        a, b = gen.light(rng, n)
        k = rng.random()
        if k < .3:
            s.m_1 = gen.q(rng, a, "mass")
        elif k < .6:
            s.m_1, s.m_2 = gen.q(rng, a, "mass"), gen.q(rng, b, "mass")
        else:
            heavy_and_back(t, s)
        reclassed(t, s)
    elif op == "f_orb":
        s.f_orb = np.where(s.merged, 100, gen.logu(rng, 2e-5, 8e-4, n)) * u.Hz
        reclassed(t, s)
    elif op == "a":
        s.a = s.a * rng.uniform(1, 2, n)
        s.merged = np.zeros(n, bool)
        s.t_merge = None
    elif op == "dist":
        s.dist = gen.q(rng, gen.logu(rng, .5, 50, n) * srcs.KPC, "dist")
    elif op == "ecc":
        if s.position is None and type(s).__name__ != "VerificationBinaries":
            s.ecc = np.where(s.merged, 0, np.where(rng.random(n) < .4, 0, rng.uniform(.01, .6, n)))
            reclassed(t, s)
    elif op == "weights":
        s.weights = None if rng.random() < .3 else rng.uniform(0, 2, n)
    elif op == "stat_tol":
        s.stat_tol = float(rng.choice([1e-2, 1e-3, 5e-2, .5]))
    elif op == "gw_lum_tol":
        s.gw_lum_tol = float(rng.choice([.05, .01, .1, .2, rng.uniform(.005, .2)]))
    elif op == "params":
        params(rng, s)
    elif op == "snr":
        if not s.merged.all():
            snr(t, s, twin(t, s))
    elif op == "merger":
        s.get_merger_time(save_in_class=bool(rng.random() < .7), exact=bool(rng.random() < .7))
    elif op == "times":
        s.t_merge = None
    elif op == "g":
        if s.interpolate_g:
            s.set_g(False)
        elif rng.random() < .5:
            srcs.with_g(t, s)
    elif op == "curve":
        s.interpolate_sc = not s.interpolate_sc
        s.set_sc()
    elif op == "element":
        if m.own:
            i = int(rng.integers(n))
            k = int(rng.integers(4))
            if k == 0:
                s.m_1[i] = float(rng.uniform(.3, 2)) * u.Msun
                s.t_merge = None
            elif k == 1:
                s.dist[i] = float(rng.uniform(1, 9)) * u.kpc
            elif k == 2 and not s.merged[i]:
                s.f_orb[i] = float(gen.logu(rng, 2e-5, 5e-4)) * u.Hz
                s.t_merge = None
            elif s.snr is not None:
                s.snr[i] = 3.0
        else:
            op = "nothing"
    elif op == "refused":
        what, fn, exc = REFUSED[int(rng.integers(len(REFUSED)))]
        before = contents(s)
        t.raises(what, exc, fn, t, s, d)
        after = contents(s)
        t.true("{} refused, and nothing changed".format(what), after == before, changed=[k for k in after if after[k] != before[k]])
        t.count("refusals")
        op += " " + what
    return op, m


def pool_change(m):
    m.seen = contents(m.s)


def start(t):
    rng = t.rng
    n = int(rng.integers(1, 6))
    klass = ["Source", "Source", "Source", "Stationary", "Evolving"][int(rng.integers(5))]
    sky = rng.random() < .3
    cl = {"Source": "cCeEs", "Stationary": "ces", "Evolving": "CE"}[klass]
    S = srcs.contents(rng, n, cl.replace("e", "").replace("E", "").replace("s", "") if sky else cl, e_hi=.55)
    if sky:
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    par, tq, *_ = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO"), t_yr=4.0)
    if par.get("confusion_noise") in ("thiele21", "robson19"):
        par.pop("confusion_noise")
    if rng.random() < .5:
        par["t_obs"] = tq
    s = srcs.make(t, S, klass=klass, interpolate_sc=bool(rng.random() < .35), sc_params=par, gw_lum_tol=float(rng.choice([.05, .01, .1])))
    return M(s, True, klass)


@case(quick=72, thorough=2500)
def histories(t):
    rng = t.rng
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        with open(os.path.join(d, "there.h5"), "w") as f:
            f.write("something")
        pool = [start(t) for _ in range(int(rng.choice([1, 1, 2])))]
        trail = []
        t.note(trail=trail)
        for m in pool:
            pool_change(m)
        for _ in range(int(rng.integers(3, 9))):
            known = list(pool)
            op, m = step(t, pool, d)
            trail.append(op)
            new = pool[len(known):]
            for x in known:
                if x is m and op.split()[0] not in ("index", "copy", "deepcopy", "reload", "refused", "evolve new") and op != "evolve new":
                    continue
                c = contents(x.s)
                t.true("{}: contents of a collection it is not about".format(op), c == x.seen, changed=[k for k in c if c[k] != x.seen[k]], how=x.how)
                t.count("bystanders watched")
            for x in [m] + new:
                compare(t, x, False)
                pool_change(x)
            # the comparison itself is part of the history, too
            for x in pool:
                if x is not m and x not in new:
                    c = contents(x.s)
                    t.true("calculations change no other collection", c == x.seen, changed=[k for k in c if c[k] != x.seen[k]], how=x.how)
            if len(pool) > 5:
                pool.pop(int(rng.integers(len(pool))))
        for x in pool:
            compare(t, x, True)
        for x in pool:
            alone(t, x)
        t.seen(tuple(trail))
        for op in trail:
            t.count("steps: " + op.split(" ")[0])
    finally:
        shutil.rmtree(d)


@case(quick=20, thorough=500)
def order_of_settings(t):
    """Settings made in any order, and made twice, end in the same collection."""
    rng = t.rng
    m = start(t)
    s = m.s
    n = s.n_sources
    acts = [lambda x: setattr(x, "gw_lum_tol", .02), lambda x: setattr(x, "stat_tol", .05), lambda x: x.sc_params.update(instrument="TianQin", confusion_noise="huang20"),
            lambda x: x.sc_params.update(t_obs=2 * u.yr), lambda x: setattr(x, "dist", np.full(n, 3.0) * u.kpc), lambda x: setattr(x, "weights", np.ones(n)),
            lambda x: x.get_merger_time()]
    A, B = s.copy(), s.copy()
    o1, o2 = rng.permutation(len(acts)), rng.permutation(len(acts))
    for i in o1:
        acts[i](A)
    for i in o2:
        acts[i](B)
        if rng.random() < .4:
            acts[i](B)
    t.seen(tuple(o1), tuple(o2))
    t.note(o1=[int(i) for i in o1], o2=[int(i) for i in o2])
    a, b = contents(A), contents(B)
    t.true("the same contents", a == b, differ=[k for k in PUBLIC + ["sc", "hr", "sc_params"] if a[k] != b[k]])
    kw = {} if type(s).__name__ == "Stationary" else {"n_step": 4}
    ra, rb = A.get_snr(**kw), B.get_snr(**kw)
    close(t, "SNR", A.snr, B.snr)
