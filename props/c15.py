"""Every public calculation called on recorded (and often read-only) arguments: their contents, the defaults of
every public function and the process state (random generators, floating-point error handling, plotting style,
working directory, environment) digested before and after.  Calls repeated with other calls in between and the
earlier results overwritten, sequences of calls compared with a process that makes one of them only, run in several threads at once with a tiny switch interval, and with 1 to 8 worker
processes, all results compared bit for bit.  Methods of a collection watched for changes to the collection."""
import inspect
import logging
import os
import random
import sys
import tempfile
import threading
import warnings

import astropy.units as u
import numpy as np

import calcs
import coll
import delays
import fresh
import gen
import harness
import ref
import srcs
from calcs import CALCS, prepare
from harness import case, digest

NEEDS_G = True


# ---------------------------------------------------------------- what must not change
def functions(L):
    import importlib
    for m in ("utils", "strain", "psd", "evol", "snr", "source", "visualisation"):
        mod = importlib.import_module("legwork." + m)
        for name in getattr(mod, "__all__", []):
            o = getattr(mod, name)
            if inspect.isclass(o):
                for k, v in vars(o).items():
                    if inspect.isfunction(v):
                        yield "{}.{}.{}".format(m, name, k), v
            else:
                f = inspect.unwrap(o)
                if inspect.isfunction(f):
                    yield m + "." + name, f
                # undecorated function inside a plain closure
                for c in (getattr(o, "__closure__", None) or ()):
                    try:
                        if inspect.isfunction(c.cell_contents):
                            yield m + "." + name + " (inner)", c.cell_contents
                    except ValueError:
                        pass


def logging_state():
    log = logging.getLogger("LEGWORK")
    return [(x.level, len(x.handlers), x.disabled, x.propagate) for x in (logging.root, log)] + [logging.root.manager.disable]


def world(L):
    import matplotlib as mpl
    import matplotlib.units
    st = np.random.get_state()
    w = {"numpy random state": digest([st[1], st[2], st[3], float(st[4])]), "python random state": hash(random.getstate()),
         "numpy error handling": np.geterr(), "error callback": id(np.geterrcall()) if np.geterrcall() else 0,
         "print options": repr(np.get_printoptions()), "working directory": os.getcwd(), "environment": dict(os.environ),
         "unit equivalencies": len(u.get_current_unit_registry().equivalencies), "logging": logging_state(),
         "warning filters": [repr(x) for x in warnings.filters], "plotting of units": sorted(map(repr, mpl.units.registry)),
         "recursion limit": sys.getrecursionlimit(), "plotting style": repr(dict(mpl.rcParams)), "backend": mpl.get_backend(),
         "default curve parameters": digest(dict(getattr(L.source, "DEFAULT_SC_PARAMS", {})))}
    for name, f in functions(L):
        w["defaults of " + name] = digest([list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {})])
    return w


def unchanged(t, before, after, what):
    for k in before:
        t.true("{} left the {} as it was".format(what, k), before[k] == after.get(k), before=before[k], after=after.get(k))


class Recorder:
    """Hands out arguments (in random layouts) and remembers what they contained."""

    def __init__(self, rng, layouts=True):
        self.rng, self.layouts, self.kept = rng, layouts, []

    def __call__(self, x):
        if hasattr(x, "frame"):             # positions
            nothing = np.zeros(0)
            self.kept.append((x, digest(x), nothing, digest(nothing)))
            return x
        if self.layouts and np.ndim(x) >= 1 and np.ndim(x) == 1 and self.rng.random() < .6:
            x = gen.layout(self.rng, x)
        elif isinstance(x, np.ndarray):
            x = x.copy()
        base = x
        while isinstance(getattr(base, "base", None), np.ndarray):
            base = base.base
        self.kept.append((x, digest(x), base, digest(np.asarray(base))))
        return x

    def check(self, t, what):
        t.count("arguments watched", len(self.kept))
        for x, d, base, b in self.kept:
            t.true(what + " left its argument as it was", digest(x) == d, now=x)
            t.true(what + " left the memory around its argument as it was", digest(np.asarray(base)) == b)


def bits(results):
    return [digest(np.asarray(r.value) if hasattr(r, "unit") else np.asarray(r)) for r in results]


def identical(t, what, got, want):
    t.true(what + ": same number of results", len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        t.true("{} [{}] is identical".format(what, k), a == b)


def copier(x):
    return x.copy() if isinstance(x, np.ndarray) else x


def other(t, rng):
    """Something else a user might run in between."""
    name = sorted(CALCS)[int(rng.integers(len(CALCS)))]
    if name in ("collection", "eccentric_evolving_snr"):
        name = "strains"
    cl, _, fn = CALCS[name]
    S = calcs.batch(rng, int(rng.integers(1, 6)), cl)
    S["gone"] = np.zeros(len(S["f"]))
    fn(t.L, copier, S, calcs.params(rng, name))
    return name


def start(run):
    """A process in which nothing has been computed yet, to fork from."""
    L = run.L

    def answer(req):
        name, S, P = req
        np.seterr(all="ignore")
        return bits(CALCS[name][2](L, copier, S, P))
    run.fresh = fresh.Fresh(answer)


harness.STARTERS.append(start)


# ---------------------------------------------------------------- cases
@case(quick=150, thorough=4000)
def arguments_and_state(t):
    name, rtol, fn, S, P = prepare(t)
    y = Recorder(t.rng)
    ns, nk = P["ns"].copy(), dict(P["noise"])
    S0 = {k: v.copy() for k, v in S.items()}
    before = world(t.L)
    fn(t.L, y, S, P)
    after = world(t.L)
    t.seen(name, len(y.kept), len(S["f"]))
    t.count("states compared")
    y.check(t, name)
    t.same(name + " harmonics argument", P["ns"], ns)
    t.true(name + " settings argument", P["noise"] == nk)
    for k in S0:
        t.same(name + " argument " + k, S[k], S0[k])
    unchanged(t, before, after, name)


@case(quick=60, thorough=1500)
def more_arguments(t):
    """Argument kinds the batches above do not reach: lists, tuples, 2-D timesteps, output lists, dictionaries."""
    rng, L = t.rng, t.L
    n = int(rng.integers(1, 5))
    S = srcs.contents(rng, n, "eE", e_hi=.7)
    y = Recorder(rng)
    m1, m2, f, e = y(S["m1"] * u.kg), y(S["m2"] * u.kg), y(S["f"] * u.Hz), y(S["e"])
    tm = ref.t_exact(S["e"], ref.a_of_f(S["f"], S["m1"], S["m2"]), ref.beta(S["m1"], S["m2"]))
    k = int(rng.integers(2, 7))
    ts = y((tm[:, None] * np.sort(rng.uniform(0, 1.3, (n, k)), axis=1)) * u.s)
    tmg = y((tm * u.s).to(u.Gyr))
    out = list(rng.permutation(["timesteps", "ecc", "a", "f_orb", "f_GW"])[:int(rng.integers(1, 6))])
    out0 = list(out)
    t.note(f=S["f"], e=S["e"], ts=ts, out=out)
    t.seen(n, k, tuple(out))
    harm = list(int(x) for x in rng.integers(1, 9, 3))
    harm0 = list(harm)
    hr = y(np.arange(1, 6))
    kw, *_ = __import__("obs").draw(rng, instruments=("LISA", "TianQin"), t_yr=4.0)
    kw = {a: (y(b) if isinstance(b, np.ndarray) else b) for a, b in kw.items()}
    kw0 = dict(kw)
    before = world(L)
    tb = y(np.full((), float(gen.logu(rng, 1e-3, 1))) * tm.min() * u.s)
    for avoid in (True, False):
        for tt in (None, tmg):
            L.evol.evol_ecc(ecc_i=e, timesteps=ts, m_1=m1, m_2=m2, f_orb_i=f, t_merge=tt, avoid_merger=avoid, t_before=tb, output_vars=out)
    nof = [o for o in out if o != "ecc"] or ["a"]
    L.evol.evol_circ(timesteps=ts, m_1=m1, m_2=m2, f_orb_i=f, output_vars=nof)
    ai = y(L.utils.get_a_from_f_orb(f, m1, m2))
    b = y(L.utils.beta(m1, m2))
    L.evol.evol_circ(timesteps=ts[0], beta=b, a_i=ai, output_vars=["timesteps", "a"])
    L.evol.get_t_merge_ecc(ecc_i=e, a_i=ai, beta=b)
    # in the units the calculation itself uses
    L.evol.evol_ecc(ecc_i=e, timesteps=ts, beta=b, a_i=y(ai.to(u.m)), output_vars=["ecc", "a"])
    L.evol.evol_ecc(ecc_i=e, t_evol=y((tm / 3) * u.s), n_step=3, beta=b, a_i=ai, output_vars="ecc", t_before=y(np.full((), 1e-3) * u.Gyr))
    L.evol.get_t_merge_circ(beta=b, a_i=ai)
    L.evol.create_timesteps_array(ai, b, ecc_i=e, timesteps=ts)
    L.evol.check_mass_freq_input(beta=b, a_i=ai, m_1=m1, m_2=m2, f_orb_i=f)
    L.evol.t_merge_mandel_fit(e)
    mc = y(L.utils.chirp_mass(m1, m2))
    d = y(S["d"] * u.m)
    L.strain.h_0_n(mc, f, e, harm, d)
    L.strain.h_c_n(mc, f, e, hr, d)
    L.utils.peters_g(hr[:, None], e)
    L.utils.ensure_array(m1, e, harm, None)
    two = y(np.stack([S["f"], S["f"] * 1.1], axis=1) * u.Hz)
    L.strain.h_0_n(mc, two, y(np.stack([S["e"], S["e"]], axis=1)), hr, d)
    L.psd.power_spectral_density(y(np.array([1e-8, 1e-3, 5.0]) * u.Hz), t_obs=y(4.0 * u.yr), **kw)
    L.psd.lisa_psd(y(np.array([1e-3, 1e-2]) * u.Hz))
    L.psd.decigo_psd(y(np.array([1e-2, 1.0, 200]) * u.Hz))
    fs = y(np.array([1e-4, 3.0]))
    L.psd.load_response_function(fs)
    L.psd.approximate_response_function(fs, 19e-3)
    L.psd.get_confusion_noise(f, "huang20", y(3.0 * u.yr))
    L.snr.snr_ecc_stationary(mc, f, e, d, 4 * u.yr, 5, **kw)
    if rng.random() < .3:
        L.snr.snr_ecc_evolving(m1, m2, f, d, e, 5, 4 * u.yr, 5, t_merge=tmg, ret_snr2_by_harmonic=True, **kw)
    L.snr.snr_circ_evolving(m1, m2, f, d, 4 * u.yr, 5, t_merge=tmg, **kw)
    L.evol.evolve_f_orb_circ(f, mc, y(np.full(n, 2.0) * u.yr), e)
    after = world(L)
    y.check(t, "call")
    t.true("lists and dictionaries as they were", out == out0 and harm == harm0 and kw == kw0)
    unchanged(t, before, after, "calls")


def custom(f, t_obs, L, approximate_R, confusion_noise):
    return 1e-40 * np.ones(len(f)) / u.Hz


def broken(f, *a, **k):
    raise ArithmeticError("broken")


def plotting(t, y, rng, n):
    """Random plotting calls as (name, function, settings dictionaries handed over)."""
    V_ = t.L.visualisation
    x, w = y(gen.logu(rng, 1e-4, 1e-1, n)), y(rng.uniform(.5, 2, n))
    z = y(rng.uniform(1, 2, n))
    f, snr = y(x * u.Hz), y(gen.logu(rng, .1, 100, n))
    d = [dict(linewidth=2), dict(), {"y_quantity": "h_c"}, {"color": "red", "fill": False}]
    sc = d[int(rng.integers(4))]
    sc = dict(sc)
    g = y(np.sort(gen.logu(rng, 1e-5, .5, 9)) * u.Hz)
    lim = y(np.array([1e-5, 1.0])) if rng.random() < .5 else (1e-5, 1.0)
    return [
        ("histogram", lambda: V_.plot_1D_dist(x, weights=w, show=False, xlim=lim, bins=y(np.linspace(0, .1, 5))), {}),
        ("density", lambda: V_.plot_1D_dist(z, weights=w, disttype=str(rng.choice(["kde", "ecdf"])), show=False), {}),
        ("points", lambda: V_.plot_2D_dist(f, z, weights=w if rng.random() < .5 else None, scatter_s=y(rng.uniform(1, 9, n)), log_scale=True, show=False), {}),
        ("curve", lambda: V_.plot_sensitivity_curve(g, show=False, **sc), sc),
        ("curve by default", lambda: V_.plot_sensitivity_curve(show=False), {}),
        ("sources", lambda: V_.plot_sources_on_sc(f, snr, weights=w, show=False, sc_vis_settings=sc), sc),
        ("sources, own cutoff", lambda: V_.plot_sources_on_sc(f, snr, snr_cutoff=float(rng.choice([1, 1e9])), show=False, sc_vis_settings=sc), sc),
        ("sources by default", lambda: V_.plot_sources_on_sc(f, snr, show=False), {}),
        ("bad quantity", lambda: V_.plot_sensitivity_curve(y_quantity="nonsense", show=False), {}),
        ("bad instrument", lambda: V_.plot_sensitivity_curve(g, instrument="Virgo", show=False), {}),
        ("broken noise", lambda: V_.plot_sources_on_sc(f, snr, confusion_noise=broken, show=False, sc_vis_settings=sc), sc),
        ("broken curve", lambda: V_.plot_sensitivity_curve(instrument="custom", custom_psd=broken, show=False), {}),
        ("lengths", lambda: V_.plot_2D_dist(x, y(rng.uniform(1, 2, n + 1)), show=False), {}),
        ("weights of another length", lambda: V_.plot_1D_dist(x, weights=y(rng.uniform(1, 2, n + 1)), show=False), {}),
        ("unknown argument", lambda: V_.plot_2D_dist(x, z, nonsense=3, show=False), {}),
    ]


@case(quick=40, thorough=800)
def plots(t):
    """Plotting calls, those that raise included."""
    import matplotlib.pyplot as plt
    rng = t.rng
    plt.close(plt.figure())             # loads the backend, which changes pyplot
    plt.rcParams["axes.grid"] = bool(rng.random() < .5)
    try:
        for i in rng.permutation(15)[:5]:
            y = Recorder(rng)
            name, fn, sc = plotting(t, y, rng, int(rng.integers(5, 30)))[i]
            held = dict(sc)
            before = world(t.L)
            raised = ""
            try:
                fn()
            except Exception as e:
                raised = type(e).__name__
            t.note(call=name, raised=raised, settings=held)
            t.seen(name, raised, tuple(held))
            t.count("plotting calls watched")
            if raised:
                t.count("of which raised")
            unchanged(t, before, world(t.L), "plotting " + name)
            y.check(t, "plotting " + name)
            t.true("settings of a plot as they were", sc == held, now=sc)
    finally:
        plt.rcParams["axes.grid"] = False
        plt.close("all")


@case(quick=30, thorough=600)
def refused(t):
    """Calls that raise leave their arguments and the process alone."""
    rng, L = t.rng, t.L
    n = int(rng.integers(2, 6))
    S = srcs.contents(rng, n, "eE", e_hi=.6)
    y = Recorder(rng)
    m1, m2, f, e, d = y(S["m1"] * u.kg), y(S["m2"] * u.kg), y(S["f"] * u.Hz), y(S["e"]), y(S["d"] * u.m)
    mc = y(L.utils.chirp_mass(m1, m2))
    M = dict(m_1=m1, m_2=m2)
    K = dict(interpolate_g=False, interpolate_sc=False)
    s = L.source.Source(ecc=e, f_orb=f, dist=d, **M, **K)
    yr = u.yr
    noise = dict(instrument="LISA", confusion_noise=broken)
    acts = [
        ("unknown confusion noise", lambda: L.psd.lisa_psd(f, confusion_noise="nonsense")),
        ("unknown instrument", lambda: L.psd.power_spectral_density(f, instrument="nonsense")),
        ("broken noise", lambda: L.psd.lisa_psd(f, confusion_noise=broken)),
        ("broken noise in an SNR", lambda: L.snr.snr_ecc_stationary(mc, f, e, d, 4 * yr, 5, **noise)),
        ("broken noise in an evolving SNR", lambda: L.snr.snr_ecc_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, ecc=e, harmonics_required=4, t_obs=4 * yr, n_step=3, **noise)),
        ("broken curve in an SNR", lambda: L.snr.snr_circ_stationary(mc, f, d, 4 * yr, instrument="custom", custom_psd=broken)),
        ("missing masses", lambda: L.evol.evol_ecc(ecc_i=e, t_evol=4 * yr, f_orb_i=f)),
        ("missing frequencies", lambda: L.evol.get_t_merge_ecc(ecc_i=e, **M)),
        ("harmonic zero", lambda: L.strain.h_0_n(mc, f, e, y(np.array([0, 1])), d)),
        ("harmonic zero in a chirp", lambda: L.utils.fn_dot(mc, f, e, 0)),
        ("plain masses", lambda: L.source.Source(m_1=y(S["m1"]), m_2=m2, ecc=e, f_orb=f, dist=d, **K)),
        ("lengths of a collection", lambda: L.source.Source(m_1=m1, m_2=m2, ecc=y(S["e"][:-1]), f_orb=f, dist=d, **K)),
        ("orientation of an eccentric collection", lambda: L.source.Source(m_1=m1, m_2=m2, ecc=e, f_orb=f, dist=d, polarisation=y(S["e"] * u.rad), **K)),
        ("eccentric Stationary SNR with broken noise", lambda: s.get_snr(confusion_noise=broken, instrument="LISA")),
        ("index out of range", lambda: s[n + 3]),
        ("strain of harmonic zero", lambda: s.get_h_0_n([0])),
        ("missing file", lambda: L.source.Source.load_from_file("/nonexistent/x.h5") if hasattr(L.source.Source, "load_from_file") else L.source.load("/nonexistent/x.h5")),
        ("plot of nothing", lambda: s.plot_source_variables("nonsense")),
    ]
    for i in rng.permutation(len(acts))[:8]:
        name, fn = acts[i]
        before, raised = world(L), ""
        try:
            fn()
        except Exception as e_:
            raised = type(e_).__name__
        t.note(call=name, raised=raised)
        t.seen(name, raised)
        t.count("calls that raised", bool(raised))
        y.check(t, name)
        unchanged(t, before, world(L), "call with " + name)


@case(quick=30, thorough=500)
def drawing(t):
    """Orientations that are drawn come from the caller's random generator, whose further numbers stay random."""
    from astropy.coordinates import SkyCoord
    rng, L = t.rng, t.L
    n = int(rng.integers(1, 8))
    S = srcs.contents(rng, n, "cC")
    S["e"] = np.zeros(n)
    srcs.orient(rng, S)
    K = dict(m_1=S["m1"] * u.kg, m_2=S["m2"] * u.kg, ecc=S["e"], f_orb=S["f"] * u.Hz, dist=S["d"] * u.m, interpolate_g=False, interpolate_sc=False,
             position=SkyCoord(lon=S["lon"] * u.rad, lat=S["lat"] * u.rad, distance=S["d"] * u.m, frame="barycentrictrueecliptic"))
    give = int(rng.integers(3))
    if give == 1:
        K["polarisation"] = S["psi"] * u.rad
    if give == 2:
        K["inclination"] = S["inc"] * u.rad
    kept = np.random.get_state()
    seeds = [int(v) for v in rng.choice(1 << 30, 2, replace=False)]
    t.note(seeds=seeds, given=give, n=n)
    t.seen(n, give)
    runs = []
    try:
        for seed in seeds + seeds[:1]:
            np.random.seed(seed)
            before = world(L)
            s = L.source.Source(**K)
            after = world(L)
            nxt = np.random.uniform(size=4)
            before.pop("numpy random state"), after.pop("numpy random state")
            unchanged(t, before, after, "drawing orientations")
            np.random.seed(seed)
            runs.append((s.polarisation.to(u.rad).value, s.inclination.to(u.rad).value, nxt))
    finally:
        np.random.set_state(kept)
    for k, what in ((0, "polarisations"), (1, "inclinations")):
        if give != k + 1:
            t.true("two seeds give other " + what, (runs[0][k] != runs[1][k]).all(), first=runs[0][k], second=runs[1][k])
    t.true("the caller's next random numbers depend on the caller's seed", (runs[0][2] != runs[1][2]).all(), first=runs[0][2], second=runs[1][2])


@case(quick=100, thorough=2500)
def repeats(t):
    """Same call again: after other calls, and after the first results have been overwritten by their owner."""
    rng = t.rng
    name, rtol, fn, S, P = prepare(t)
    first = fn(t.L, copier, S, P)
    want = bits(first)
    for r in first:
        v = r.value if hasattr(r, "unit") else r
        if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim:
            v[...] = 0 if v.dtype.kind == "b" else -12345
    between = [other(t, rng) for _ in range(int(rng.integers(1, 4)))]
    t.note(between=between)
    t.seen(name, tuple(between))
    identical(t, name + " repeated", bits(fn(t.L, copier, S, P)), want)
    # and the same arguments, not copies of them
    keep = []

    def same(x):
        if len(keep) < 200:
            keep.append(x)
        return x
    identical(t, name + " repeated with the same objects", bits(fn(t.L, same, S, P)), want)


def relative(rng, S, how):
    """Another batch that shares some of its contents with this one."""
    S = {k: v.copy() for k, v in S.items()}
    n = len(S["f"])
    if how == "permuted":
        return srcs.take(S, rng.permutation(n))
    if how == "reversed":
        return srcs.take(S, np.arange(n)[::-1])
    if how == "one changed":
        i = int(rng.integers(n))
        S["f"][i] *= .8
        S["d"][i] *= 2
    if how == "masses changed":
        S["m1"], S["m2"] = S["m1"] * .9, S["m2"] * .8
    if how == "frequencies changed":
        S["f"] = S["f"] * rng.uniform(.5, .95)
    return S


@case(quick=110, thorough=3000)
def history(t):
    """A sequence of calls, several of them nearly alike: every result as in a process that made no other call,
    and none of them changed by the calls after it."""
    rng = t.rng
    names = sorted(CALCS)
    n = int(rng.integers(2, 8))
    k = int(rng.integers(3, 7))
    held, hist = [], []
    for j in range(k):
        how = "new" if not held or rng.random() < .3 else str(rng.choice(["permuted", "reversed", "one changed", "masses changed", "frequencies changed", "same"]))
        if how == "new":
            name = names[(t.index + 5 * j) % len(names)] if rng.random() < .7 or not held else held[int(rng.integers(len(held)))][0]
            S, P = calcs.draw(rng, name, n)
        else:
            name, S, P = held[int(rng.integers(len(held)))][:3]
            S = relative(rng, S, how)
            if rng.random() < .5:
                P = dict(calcs.params(rng, name), **({"ns": P["ns"]} if rng.random() < .5 else {}))
        hist.append((name, how))
        t.note(history=hist)
        r = CALCS[name][2](t.L, copier, S, P)
        held.append((name, S, P, r, bits(r)))
    t.seen(tuple(hist), n)
    for j, (name, S, P, r, b) in enumerate(held):
        identical(t, "result {} ({}) after later calls".format(j, name), bits(r), b)
        identical(t, "result {} ({}) in a process of its own".format(j, name), t.run.fresh.ask((name, S, P)), b)
        t.count("results compared with a process of their own")


@case(quick=20, thorough=300)
def threads(t):
    rng = t.rng
    jobs = []
    names = [n for n in sorted(CALCS) if n not in ("collection", "eccentric_evolving_snr")]
    same = rng.random() < .4
    pick = names[int(rng.integers(len(names)))]
    for i in range(6):
        name = pick if same else names[int(rng.integers(len(names)))]
        cl, _, fn = CALCS[name]
        S = calcs.batch(rng, int(rng.integers(1, 5)), cl, merging=False)
        S["gone"] = np.zeros(len(S["f"]))
        jobs.append((name, fn, S, calcs.params(rng, name)))
    s = srcs.make(t, srcs.contents(rng, 4, "cCeEs", e_hi=.6))
    reads = [("shared mask", lambda: [s.get_source_mask(circular=True, stationary=True)]), ("shared strain", lambda: [s.get_h_0_n([1, 2, 3])]),
             ("shared subset", lambda: [s[1:].m_c, s[::-1].f_orb]), ("shared merger time", lambda: [s.get_merger_time(save_in_class=False)])]
    todo = [(n, (lambda fn=fn, S=S, P=P: fn(t.L, copier, S, P))) for n, fn, S, P in jobs] + reads
    want = [bits(fn()) for _, fn in todo]
    got = [None] * len(todo) * 2
    switches = []
    order = rng.permutation(len(got))
    lock, pos = threading.Lock(), [0]

    def work():
        while True:
            with lock:
                if pos[0] >= len(order):
                    return
                k = int(order[pos[0]])
                pos[0] += 1
            name, fn = todo[k % len(todo)]
            switches.append(threading.get_ident())
            try:
                got[k] = bits(fn())
            except BaseException as e:
                got[k] = e
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(gen.logu(rng, 1e-6, 1e-4)))
    try:
        ths = [threading.Thread(target=work) for _ in range(int(rng.integers(2, 7)))]
        [x.start() for x in ths]
        [x.join() for x in ths]
    finally:
        sys.setswitchinterval(old)
    t.note(jobs=[n for n, _ in todo], threads=len(ths))
    t.seen(tuple(n for n, _ in todo), len(ths))
    t.count("calls made in parallel", len(got))
    t.count("hand-overs between threads", sum(a != b for a, b in zip(switches, switches[1:])))
    for k, g in enumerate(got):
        if isinstance(g, BaseException):
            t.fail(todo[k % len(todo)][0] + " in several threads raised", exception=repr(g))
        identical(t, todo[k % len(todo)][0] + " in several threads", g, want[k % len(todo)])


@case(quick=10, thorough=120)
def processes(t):
    rng, L = t.rng, t.L
    n = int(rng.choice([int(rng.integers(1, 7)), 16]))
    S = srcs.contents(rng, n, "eE", e_hi=.6)
    M = dict(m_1=S["m1"] * u.kg, m_2=S["m2"] * u.kg, f_orb_i=S["f"] * u.Hz)
    k = int(rng.integers(2, 8))
    p = int(rng.integers(2, 9))
    tm = L.evol.get_t_merge_ecc(ecc_i=S["e"], **M)
    tev = tm * rng.uniform(.1, 1.2, n)
    t.note(f=S["f"], e=S["e"], processes=p, steps=k)
    t.seen(n, p, k)

    def run(n_proc):
        with delays.dawdling(L.evol, rng):
            return list(L.evol.evol_ecc(ecc_i=S["e"], t_evol=tev, n_step=k, avoid_merger=False, n_proc=n_proc,
                                        output_vars=["ecc", "a", "f_orb", "timesteps"], **M))
    identical(t, "eccentric evolution with {} processes".format(p), bits(run(p)), bits(run(1)))
    S = srcs.contents(rng, int(rng.integers(3, 9)), "E", e_hi=.5)
    M = dict(m_1=S["m1"] * u.kg, m_2=S["m2"] * u.kg, f_orb_i=S["f"] * u.Hz)

    def snr(n_proc):
        with delays.dawdling(L.evol, rng):
            return [L.snr.snr_ecc_evolving(dist=S["d"] * u.m, ecc=S["e"], harmonics_required=6, t_obs=4 * u.yr, n_step=k, n_proc=n_proc, **M)]
    identical(t, "SNR with {} processes".format(p), bits(snr(p)), bits(snr(1)))
    a, b = [srcs.make(t, S, si=True, n_proc=q) for q in (1, p)]
    identical(t, "collection SNR with {} processes".format(p), bits([b.get_snr(n_step=k), b.max_snr_harmonic]), bits([a.get_snr(n_step=k), a.max_snr_harmonic]))


def diff(a, b):
    return {k for k in set(a) | set(b) if a.get(k) != b.get(k)}


@case(quick=50, thorough=1200)
def collection_methods(t):
    """Methods leave the collection (and what it was built from) alone, except for what they say they record."""
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    n = int(rng.integers(2, 7))
    sky = rng.random() < .3
    S = srcs.contents(rng, n, "cC" if sky else "cCeEs", e_hi=.6)
    S["w"] = rng.uniform(.1, 2, n)
    if sky:
        S["e"] = np.zeros(n)
        S["f"] = np.where(S["kind"] == "C", gen.f_for_tmerge(ref.chirp_mass(S["m1"], S["m2"]), 40 * ref.YR), S["f"])
        srcs.orient(rng, S)
    y = Recorder(rng)
    k = srcs.kwargs(rng, S)
    k = {a: (y(v) if isinstance(v, np.ndarray) else v) for a, v in k.items()}
    pos = digest(k.get("position"))
    scp = {} if rng.random() < .4 else {"instrument": "TianQin", "t_obs": 3 * u.yr}
    scp0 = dict(scp)
    before = world(L)
    s = L.source.Source(interpolate_g=False, interpolate_sc=bool(rng.random() < .5), sc_params=scp, **k)
    if rng.random() < .2:
        srcs.with_g(t, s)
    calls = []
    mask = rng.random(n) < .6
    mask[int(rng.integers(n))] = True
    mask = y(mask)
    harm = y(np.array([3, 1, 2]))
    te = y(gen.logu(rng, 1e-4, 1, n) * u.yr)
    vis = {"y_quantity": "h_c"}
    tmp = tempfile.mkdtemp(prefix="c15_")

    def plot(fn, *a, **kw):
        fig, ax = plt.subplots()
        try:
            fn(*a, fig=fig, ax=ax, show=False, **kw)
        finally:
            plt.close("all")
    acts = {
        "get_source_mask": (lambda: s.get_source_mask(True, False), ()),
        "get_h_0_n": (lambda: s.get_h_0_n(harm, mask if rng.random() < .5 else None), ()),
        "get_h_c_n": (lambda: s.get_h_c_n([1, 2], mask if rng.random() < .5 else None), ()),
        "get_merger_time (not saved)": (lambda: s.get_merger_time(save_in_class=False, which_sources=mask), ()),
        "get_merger_time": (lambda: s.get_merger_time(), ("t_merge",)),
        "evolve_sources (new)": (lambda: s.evolve_sources(te, create_new_class=True), ("t_merge",) if s.t_merge is None else ()),
        "evolve_sources": (lambda: s.evolve_sources(te if rng.random() < .5 else te[0]), ("t_merge", "ecc", "f_orb", "merged")),
        "get_snr": (lambda: s.get_snr(n_step=4, which_sources=mask if rng.random() < .3 else None), ("snr", "max_snr_harmonic")),
        "get_snr_stationary": (lambda: s.get_snr_stationary(which_sources=s.get_source_mask(stationary=True)), ("snr", "max_snr_harmonic")),
        "get_snr elsewhere": (lambda: s.get_snr(instrument="LISA", t_obs=4 * u.yr, n_step=3), ("snr", "max_snr_harmonic", "sc_params", "sc")),
        "indexing": (lambda: s[mask], ()), "slicing": (lambda: s[::-2], ()), "copy": (lambda: s.copy(), ()),
        "save": (lambda: s.save(os.path.join(tmp, "x.h5"), overwrite=True), ()),
        "repr and len": (lambda: (repr(s), len(s)), ()),
        "derived values": (lambda: (s.m_c, s.a, s.n_sources, s.ecc_tol, s.gw_lum_tol, s.interpolate_g, s.harmonics_required(s.ecc), s.max_strain_harmonic(s.ecc)), ()),
        "histogram": (lambda: plot(s.plot_source_variables, "m_1", log_scale=bool(rng.random() < .5)), ()),
        "scatter": (lambda: plot(s.plot_source_variables, "f_orb", "dist", which_sources=mask, log_scale=True), ()),
        "on sensitivity curve": (lambda: plot(s.plot_sources_on_sc, sc_vis_settings=vis), ()),
        "curve": (lambda: plot(L.visualisation.plot_sensitivity_curve, frequency_range=y(np.logspace(-4, -1, 9) * u.Hz)), ()),
        "distribution": (lambda: plot(L.visualisation.plot_1D_dist, x=y(S["d"] / srcs.KPC), weights=y(S["w"])), ()),
        "points": (lambda: plot(L.visualisation.plot_2D_dist, x=y(S["d"] / srcs.KPC), y=y(S["m1"] * u.kg), weights=y(S["w"])), ()),
    }
    order = list(rng.permutation(sorted(acts)))[:int(rng.integers(5, 12))]
    try:
        for name in order:
            fn, may = acts[name]
            if name == "evolve_sources (new)" and s.t_merge is None:
                may = ("t_merge",)
            if name == "on sensitivity curve" and (s.snr is None or s.max_snr_harmonic is None):
                continue
            calls.append(name)
            t.note(calls=calls, f=S["f"], e=S["e"])
            a = coll.contents(s)
            fn()
            d = diff(a, coll.contents(s))
            t.true(name + " changed only what it records", d <= set(may), changed=sorted(d), allowed=may)
            t.count("method calls watched")
            y.check(t, name)
            unchanged(t, before, world(L), name)
    finally:
        plt.close("all")
        for fn_ in os.listdir(tmp):
            os.unlink(os.path.join(tmp, fn_))
        os.rmdir(tmp)
    t.seen(tuple(calls))
    t.true("the parameters given are the caller's own", scp == scp0 and vis == {"y_quantity": "h_c"})
    t.true("the position given is as it was", digest(k.get("position")) == pos)
