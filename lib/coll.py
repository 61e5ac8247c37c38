"""Source collections in arbitrary states, and what they contain."""
import astropy.units as u
import numpy as np

import obs
import srcs
from harness import digest

PER_SOURCE = ["m_1", "m_2", "dist", "f_orb", "ecc", "position", "polarisation", "inclination", "weights", "t_merge", "snr",
              "max_snr_harmonic", "merged"]
SETTINGS = ["gw_lum_tol", "stat_tol", "n_proc", "interpolate_sc", "interpolate_g", "ecc_tol"]


def build(t, n=None, interp=None, p_g=.15):
    rng = t.rng
    n = n or int(rng.integers(1, 9))
    klass = ["Source", "Source", "Stationary", "Evolving"][int(rng.integers(4))]
    sky = rng.random() < .35
    cl = {"Source": "cCeEs", "Stationary": "ces", "Evolving": "CE"}[klass]
    if sky:
        cl = {"Source": "cC", "Stationary": "c", "Evolving": "C"}[klass]
    S = srcs.contents(rng, n, cl, e_hi=.6)
    if sky:
        S["e"] = np.zeros(n)
        S["f"] = np.where(S["kind"] == "C", S["f"] * .8, S["f"])
        srcs.orient(rng, S)
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    par, tq, *_ = obs.draw(rng, instruments=("LISA", "TianQin", "DECIGO"), t_yr=float(rng.choice([4, 5, 2])))
    if rng.random() < .6:
        par["t_obs"] = tq
    if par.get("confusion_noise") == "thiele21" and "t_obs" not in par and par.get("instrument") == "TianQin":
        par.pop("confusion_noise")
    interp = bool(rng.random() < .2) if interp is None else interp
    s = srcs.make(t, S, klass=klass, interpolate_sc=interp, sc_params=par, gw_lum_tol=float(rng.choice([.05, .01, .1])),
                  stat_tol=float(rng.choice([1e-2, 2e-2])), n_proc=1)
    if rng.random() < p_g:
        srcs.with_g(t, s)
    done = []
    for op in list(rng.permutation(["snr", "merger", "merge", "weights", "ecc"]))[:int(rng.integers(0, 5))]:
        if op == "snr" and not s.merged.all():
            if klass == "Evolving":
                s.get_snr(n_step=4)
            elif klass == "Stationary":
                s.get_snr()
            else:
                s.get_snr(n_step=4)
        elif op == "merger":
            s.get_merger_time()
        elif op == "merge" and klass == "Source":
            s.get_merger_time()
            gone = rng.random(n) < .4
            s.evolve_sources(np.where(gone, s.t_merge.to(u.yr).value * 1.3, 0) * u.yr)
            if rng.random() < .25:      # merger times dropped by the user
                s.t_merge = None
                done.append("times dropped")
        elif op == "weights":
            s.weights = [float(x) for x in rng.uniform(0, 2, n)]
        done.append(op)
    return s, done


def pick(name, v, idx):
    if v is None:
        return None
    if name == "position":
        return (v.lon.rad[idx], v.lat.rad[idx], v.distance.to_value("kpc")[idx], "barycentrictrueecliptic")
    return np.asarray(v)[idx] if isinstance(v, list) else v[idx]


def same_content(t, what, got, full, idx):
    t.true(what + ": same class", type(got) is type(full), got=type(got).__name__, want=type(full).__name__)
    t.true(what + ": number of sources", got.n_sources == len(idx) and len(got) == len(idx), got=got.n_sources, want=len(idx))
    for k in PER_SOURCE:
        a, b = getattr(got, k), pick(k, getattr(full, k), idx)
        t.true("{}: {} present or not".format(what, k), (a is None) == (b is None))
        if b is None:
            continue
        if k == "position":
            a = (a.lon.rad, a.lat.rad, a.distance.to_value("kpc"), a.frame.name)
            for x, y in zip(a, b):
                t.true("{}: position".format(what), np.array_equal(x, y) if not isinstance(x, str) else x == y, got=x, want=y)
        else:
            t.true("{}: unit of {}".format(what, k), str(getattr(a, "unit", "")) == str(getattr(b, "unit", "")))
            t.true("{}: {}".format(what, k), np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b)), got=a, want=b)
        t.count("attributes compared")
    for k in SETTINGS:
        t.true("{}: setting {}".format(what, k), getattr(got, k) == getattr(full, k), got=getattr(got, k), want=getattr(full, k))
    t.true(what + ": curve parameters", digest(dict(got.sc_params)) == digest(dict(full.sc_params)), got=dict(got.sc_params), want=dict(full.sc_params))
    t.true(what + ": interpolated curve kept", (got.sc is None) == (full.sc is None))
    if full.sc is not None:
        f = np.logspace(-4.5, -0.5, 12) * u.Hz
        t.same(what + ": interpolated curve", got.sc(f), full.sc(f))
    e = np.linspace(0, .95, 9)
    t.same(what + ": harmonics required", got.harmonics_required(e), full.harmonics_required(e))


PUBLIC = PER_SOURCE + ["n_sources", "stat_tol", "n_proc", "interpolate_sc", "interpolate_g", "gw_lum_tol", "ecc_tol"]


def contents(s):
    """Everything a collection shows of itself: per-source data, settings, curve, functions (by what they return)."""
    d = {k: digest(getattr(s, k)) for k in PUBLIC}
    d["sc_params"] = digest(dict(s.sc_params))
    try:
        d["sc"] = None if s.sc is None else digest(s.sc(np.logspace(-4.5, -.5, 9) * u.Hz))
    except Exception as e:
        d["sc"] = repr(e)
    d["g"] = s.g is None
    d["hr"] = digest([s.harmonics_required(np.linspace(0, .9, 7)), s.max_strain_harmonic(np.linspace(0, .9, 7))])
    return d
