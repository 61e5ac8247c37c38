"""A small population of collections (built, copied, indexed, evolved from one another, sharing dictionaries) put
through random histories of parameter changes of every kind, refused ones among them.  After every step the
parameters of every collection are compared with a model dictionary and its curve with the reference noise of
exactly these parameters; evaluations of the noise over a frequency grid are counted to see re-interpolations."""
import copy

import astropy.units as u
from astropy.units import imperial
import numpy as np

import gen
import obs
import ref
import srcs
from harness import case

DEFAULTS = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}
MODELS = {}         # user functions -> their models


class Plain:
    """A user's callable object; all of them print alike."""

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "Plain()"

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __deepcopy__(self, memo):       # like a function
        return self


def user_psd(rng):
    fn, m = obs.custom_psd(rng)
    fn = Plain(fn) if rng.random() < .5 else fn
    MODELS[id(fn)] = (m, fn)
    return fn


def user_confusion(rng):
    fn, m = gen.custom_confusion(rng)
    fn = Plain(fn) if rng.random() < .5 else fn
    MODELS[id(fn)] = (m, fn)
    return fn


def value(rng, key):
    if key == "instrument":
        return ["LISA", "TianQin", "DECIGO", "custom"][int(rng.choice(4, p=[.35, .3, .2, .15]))]
    if key == "custom_psd":
        return None if rng.random() < .2 else user_psd(rng)
    if key == "t_obs":
        return "auto" if rng.random() < .3 else gen.q(rng, float(rng.choice([1, 2, 4, 5, 8, rng.uniform(.3, 9)])) * ref.YR, "time")
    if key == "L":
        return "auto" if rng.random() < .35 else gen.q(rng, float(rng.uniform(1e8, 5e9)), "len")
    if key == "approximate_R":
        return bool(rng.random() < .5)
    return ["auto", None, "huang20", "karnesis21", user_confusion(rng)][int(rng.integers(5))]


def twisted(rng, old, k, v):
    """Sometimes the number the parameter has, in another unit."""
    o = old[k]
    if k in ("L", "t_obs") and isinstance(o, u.Quantity) and rng.random() < .4:
        lo, hi, units = ((1e7 * u.m, 5e9 * u.m, [u.m, u.km, u.cm, imperial.mile, imperial.ft]) if k == "L" else
                         (.02 * u.yr, 20 * u.yr, [u.yr, u.wk, u.fortnight]))
        for w in rng.permutation(len(units)):
            if units[w] != o.unit and lo < o.value * units[w] < hi:
                return o.value * units[w]
    return v


def changes(rng, lo=1):
    keys = list(rng.permutation(sorted(DEFAULTS))[:int(rng.integers(lo, 5))])
    return {str(k): value(rng, k) for k in keys}


def equal(a, b):
    if isinstance(a, u.Quantity) or isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and isinstance(b, u.Quantity) and bool(np.all(a == b))
    return (a is b) if callable(a) or callable(b) else (type(a) is type(b) and a == b)


def sample(rng, inst):
    lo, hi = {"DECIGO": (2e-3, 90)}.get(inst, (2e-6, 1.9))
    f = gen.logu(rng, lo, hi, 14)
    for edge in (1e-4, 1.0):        # confusion noise fits start and end there
        f = f[np.abs(f / edge - 1) > .01]
    return f


def expected(p, f):
    inst = str(p["instrument"])
    t_yr = obs.AUTO_T[inst] if isinstance(p["t_obs"], str) else p["t_obs"].to(u.yr).value
    L = None if isinstance(p["L"], str) else p["L"].to(u.m).value
    conf = MODELS[id(p["confusion_noise"])][0] if callable(p["confusion_noise"]) else p["confusion_noise"]
    cust = MODELS[id(p["custom_psd"])][0] if callable(p["custom_psd"]) else None
    return ref.psd(f, inst, t_yr, L, p["approximate_R"], conf, cust)


class Member:
    def __init__(self, s, p, interp):
        self.s, self.p, self.interp = s, p, interp


def check(t, m, what):
    p = m.s.sc_params
    t.true("exactly the six parameters", set(p) == set(DEFAULTS), got=sorted(p), op=what)
    for k in DEFAULTS:
        t.true("parameter {} is current".format(k), equal(p[k], m.p[k]), got=p[k], want=m.p[k], op=what)
    if not m.interp:
        t.true("no curve without interpolation", m.s.sc is None, op=what)
        return
    if m.p["instrument"] == "custom" and m.p["custom_psd"] is None:
        t.true("no curve before the custom noise is given", m.s.sc is None, op=what)
        return
    f = sample(t.rng, m.p["instrument"])
    t.true("there is a curve", m.s.sc is not None, op=what)
    un = [u.Hz, u.mHz, 1 / u.yr][int(t.rng.integers(3))]
    got = t.val("curve", m.s.sc((f * u.Hz).to(un)), 1 / u.Hz)
    want = expected(m.p, f)
    # the tabulated LISA response oscillates above c / (2 pi L): the interpolation is coarser there
    wiggly = (f * (2.5e9 if isinstance(m.p["L"], str) else m.p["L"].to(u.m).value) > 5e8) & (m.p["instrument"] == "LISA")
    t.eq("curve of the current parameters", got[~wiggly], want[~wiggly], 3e-3, op=what, f=f[~wiggly])
    # (between two of its frequencies it can miss a whole wiggle, so it only has to stay within those around it)
    around = expected(m.p, np.minimum(np.outer(f[wiggly], np.linspace(.97, 1.03, 61)), 2).ravel()).reshape(-1, 61)
    t.le("curve of the current parameters, highest frequencies", got[wiggly], around.max(axis=1) * 1.1, op=what, f=f[wiggly])
    t.le("curve of the current parameters, highest frequencies (at least)", around.min(axis=1) * .9, got[wiggly], op=what, f=f[wiggly])
    t.count("curves compared")


@case(quick=130, thorough=3000)
def histories(t):
    rng, L = t.rng, t.L
    evals = [0]
    orig = L.psd.power_spectral_density

    def counting(f, *a, **k):
        if np.size(f) > 1000:
            evals[0] += 1
        return orig(f, *a, **k)
    L.psd.power_spectral_density = counting
    try:
        run(t, rng, evals)
    finally:
        L.psd.power_spectral_density = orig


def new_member(t, rng):
    S = srcs.contents(rng, int(rng.integers(1, 4)), "c", f_lo=3e-4, f_hi=5e-3)
    interp = bool(rng.random() < .75)
    given = changes(rng, 0) if rng.random() < .6 else None
    kw = {} if given is None else {"sc_params": given}
    s = srcs.make(t, S, interpolate_sc=interp, **kw)
    m = Member(s, {**DEFAULTS, **(given or {})}, interp)
    if given:
        given["instrument"] = "LISA" if given.get("instrument") != "LISA" else "TianQin"      # the caller's dictionary is the caller's
        given["junk"] = 1
    return m


def usable(p):
    return not (p["instrument"] == "custom" and p["custom_psd"] is None)


def run(t, rng, evals):
    pop = [new_member(t, rng)]
    ops = []
    t.note(ops=ops)
    check(t, pop[0], "built")
    for _ in range(int(rng.integers(4, 11))):
        m = pop[int(rng.integers(len(pop)))]
        op = OPS[int(rng.integers(len(OPS)))]
        ops.append(op)
        before = evals[0]
        old = dict(m.p)
        most = 1
        if op == "setitem":
            k = sorted(DEFAULTS)[int(rng.integers(6))]
            v = twisted(rng, m.p, k, value(rng, k))
            m.s.sc_params[k] = v
            m.p[k] = v
        elif op == "update":
            c = {k: twisted(rng, m.p, k, v) for k, v in changes(rng).items()}
            how = int(rng.integers(4))
            if how == 0:
                m.s.sc_params.update(c)
            elif how == 1:
                m.s.sc_params.update(**c)
            elif how == 2:
                first = sorted(c)[:int(rng.integers(len(c) + 1))]
                m.s.sc_params.update({k: c[k] for k in first}, **{k: v for k, v in c.items() if k not in first})
            else:
                m.s.sc_params.update(list(c.items()))
            m.p.update(c)
        elif op == "union":
            c = changes(rng)
            p = m.s.sc_params
            p |= c
            m.p.update(c)
        elif op == "attribute union":
            c = changes(rng)
            m.s.sc_params |= c
            m.p.update(c)
            most = 2
        elif op == "assign":
            c = changes(rng, 0)
            m.s.sc_params = c
            m.p = {**DEFAULTS, **c}
            c["instrument"] = "DECIGO"
        elif op == "same":
            how = int(rng.integers(5))
            c = dict(m.s.sc_params)
            if how == 0:
                m.s.sc_params.update(c)
            elif how == 1:
                m.s.sc_params = c
            elif how == 2:
                for k in c:
                    m.s.sc_params[k] = c[k]
            elif how == 3:
                m.s.sc_params |= c
            else:
                m.s.sc_params = m.s.sc_params
            most = 0
        elif op == "setdefault":
            k = sorted(DEFAULTS)[int(rng.integers(6))]
            t.true("setdefault gives the current value", equal(m.s.sc_params.setdefault(k, 7), m.p[k]))
            most = 0
        elif op == "refused":
            refused(t, rng, m)
            most = 0
        elif op == "detached":
            for c in (dict(m.s.sc_params), m.s.sc_params.copy(), m.s.sc_params | {"instrument": "DECIGO"}):
                if type(c) is dict:
                    c["instrument"], c["L"] = "TianQin", 1 * u.m
            most = 0
        elif op == "snr":
            c = {k: v for k, v in changes(rng, 0).items() if v is not None}
            if not usable({**m.p, **c}):
                continue
            fn = [m.s.get_snr, m.s.get_snr_stationary][int(rng.integers(2))]
            fn(**c)
            m.p.update(c)
        elif op == "mask":
            if usable(m.p):
                m.s.get_source_mask(stationary=True, t_obs=3 * u.yr)
            most = 0
        elif op == "new":
            pop.append(new_member(t, rng))
            most = 9
        elif op == "spawn":
            how = int(rng.integers(5))
            if how == 0:
                s = m.s.copy()
            elif how == 1:
                s = m.s[[0, -1]]
            elif how == 2:
                s = copy.deepcopy(m.s)
            elif how == 3:
                s = m.s.evolve_sources(1 * u.yr, create_new_class=True)
            else:
                s = srcs.make(t, srcs.contents(rng, 1, "c"), interpolate_sc=m.interp, sc_params=m.s.sc_params)
                most = 9
            ops[-1] = "spawn {}".format(how)
            pop.append(Member(s, dict(m.p), m.interp))
        elif op == "share":
            o = pop[int(rng.integers(len(pop)))]
            o.s.sc_params = m.s.sc_params
            o.p = dict(m.p)
        changed = any(not equal(old[k], m.p[k]) for k in DEFAULTS)
        if not changed and op in ("setitem", "update", "union", "attribute union", "assign", "snr"):
            most = 0
        t.true("re-interpolated only when something changed", evals[0] - before <= most, evaluations=evals[0] - before, op=op)
        for x in pop:
            check(t, x, ops[-1])
        t.count("steps")
    t.seen(tuple(ops))


OPS = ["setitem", "setitem", "setitem", "update", "update", "union", "attribute union", "assign", "assign", "same", "setdefault", "refused",
       "refused", "detached", "snr", "snr", "mask", "new", "spawn", "spawn", "share"]


def refused(t, rng, m):
    p = m.s.sc_params
    good = changes(rng)
    bad = {**good, ["inst", "Instrument", "T_obs", "arm", 3][int(rng.integers(5))]: 1}
    bad = dict(sorted(bad.items(), key=lambda kv: rng.random()))
    k = int(rng.integers(9))
    if k == 0:
        t.raises("unknown key", KeyError, p.__setitem__, "t_ob", 3)
    elif k == 1:
        t.raises("unknown key in update", KeyError, p.update, bad)
    elif k == 2:
        t.raises("unknown key in assignment", KeyError, setattr, m.s, "sc_params", bad)
    elif k == 3:
        t.raises("unknown key in union", KeyError, p.__ior__, bad)
    elif k == 4:
        t.raises("unknown key in setdefault", KeyError, p.setdefault, "mission", 2)
    elif k == 5:
        t.raises("removal", TypeError, p.__delitem__, "L")
    elif k == 6:
        t.raises("removal", TypeError, p.pop, "instrument")
        t.raises("removal", TypeError, p.pop, "nothing", None)
    elif k == 7:
        t.raises("removal", TypeError, p.popitem)
    else:
        t.raises("removal", TypeError, p.clear)
    t.true("still the same parameters object", m.s.sc_params is p)


@case(quick=50, thorough=1500)
def one_by_one(t):
    """Every parameter changed on its own, in any order, on a collection that has a curve."""
    rng = t.rng
    given = {"instrument": ["LISA", "TianQin", "DECIGO"][t.index % 3], **{k: value(rng, k) for k in ("custom_psd", "t_obs", "L", "approximate_R")}}
    if given["custom_psd"] is None:
        del given["custom_psd"]
    if rng.random() < .5:
        given["confusion_noise"] = value(rng, "confusion_noise")
    m = Member(srcs.make(t, srcs.contents(rng, 1, "c"), interpolate_sc=True, sc_params=dict(given)), {**DEFAULTS, **given}, True)
    t.note(given=given)
    check(t, m, "built")
    for k in rng.permutation(sorted(DEFAULTS)):
        k = str(k)
        v = twisted(rng, m.p, k, value(rng, k))
        how = int(rng.integers(4))
        if how == 0:
            m.s.sc_params[k] = v
        elif how == 1:
            m.s.sc_params.update({k: v})
        elif how == 2:
            m.s.sc_params = {**m.s.sc_params, k: v}
        else:
            m.s.sc_params |= {k: v}
        m.p[k] = v
        t.seen(k, how, m.p["instrument"])
        check(t, m, "{} = {}".format(k, v))


@case(quick=40, thorough=600)
def construction(t):
    """Unknown parameters are refused when building; defaults are never shared."""
    rng = t.rng
    S = srcs.contents(rng, 1, "c")
    t.seen(t.index)
    t.raises("unknown key when building", KeyError, srcs.make, t, S, sc_params={"instrument": "LISA", "t_observation": 4 * u.yr})
    a = srcs.make(t, S)
    c = changes(rng)
    a.sc_params.update(c)
    t.note(changes=c)
    b = t.L.source.Source(m_1=1 * u.Msun, m_2=1 * u.Msun, ecc=0.0, dist=1 * u.kpc, f_orb=1e-3 * u.Hz, interpolate_g=False,
                          interpolate_sc=bool(rng.random() < .3))
    for k, v in DEFAULTS.items():
        t.true("a new collection has the default {}".format(k), equal(b.sc_params[k], v), got=b.sc_params[k])
    P = t.L.source.SensitivityCurveParams()
    P["instrument"] = "TianQin"
    t.true("parameters without a collection", dict(P)["instrument"] == "TianQin")
    for k, v in DEFAULTS.items():
        t.true("new parameters have the default {}".format(k), equal(t.L.source.SensitivityCurveParams()[k], v))


@case(quick=50, thorough=1000)
def follows_through(t):
    """SNRs after a history of changes are those of the current parameters, with and without interpolation."""
    rng = t.rng
    S = srcs.contents(rng, int(rng.integers(1, 4)), "c", f_lo=1.2e-3, f_hi=2e-2)
    S["e"] = np.zeros(len(S["f"]))
    interp = bool(rng.random() < .5)
    s = srcs.make(t, S, interpolate_sc=interp)
    p = dict(DEFAULTS)
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        c = changes(rng)
        how = ["update", "assign", "snr"][int(rng.integers(3))]
        ops.append((how, sorted(c)))
        if how == "update":
            s.sc_params.update(c)
            p.update(c)
        elif how == "assign":
            s.sc_params = c
            p = {**DEFAULTS, **c}
        else:
            c = {k: v for k, v in c.items() if v is not None}
            if usable({**p, **c}):
                s.get_snr(**c)
                p.update(c)
    if not usable(p):
        p["instrument"] = s.sc_params["instrument"] = "LISA"
    t.note(ops=ops, p=p, f=S["f"], interp=interp)
    t.seen(tuple(map(str, ops)), interp)
    t_yr = obs.AUTO_T[p["instrument"]] if isinstance(p["t_obs"], str) else p["t_obs"].to(u.yr).value
    got = t.plain("snr", s.get_snr_stationary())
    mc = ref.chirp_mass(S["m1"], S["m2"])
    want = np.sqrt(ref.snr2_stat(mc, S["f"], S["e"], S["d"], t_yr * ref.YR, [2], lambda x: expected(p, np.ravel(x)).reshape(np.shape(x))).sum(1))
    t.eq("SNR with the current parameters", got, want, 3e-3 if interp else 1e-8)
