"""Random constructor calls, consistent or spoilt in one random way (a missing unit, no size of the orbit, one array
of another length, orientation without position, unknown parameters) with the required outcome known; then random
histories of assignments (whole arrays, elements, in place, to the separation, to read-only values), evolutions and
tolerance changes, with every derived value recomputed by the reference after each step; populations of collections
built with and without parameters watched for shared state while one of them changes."""
import astropy.units as u
import numpy as np
from astropy.coordinates import SkyCoord

import gen
import ref
import srcs
from coll import contents
from harness import case

ARRAYS = ["m_1", "m_2", "dist", "size", "ecc", "weights", "polarisation", "inclination"]


def good(rng, n, sky=None, give=None):
    S = srcs.contents(rng, n, "cCeE" if sky is False else "cC" if sky else "cCeE")
    sky = bool(rng.random() < .4) if sky is None else sky
    if sky:
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    kw = srcs.kwargs(rng, S, give=give)
    if sky:
        frame = int(rng.integers(3))
        if frame == 1:
            kw["position"] = kw["position"].transform_to("galactic")
        elif frame == 2:
            kw["position"] = kw["position"].transform_to("icrs")
    if "w" in S and rng.random() < .3:
        kw["weights"] = [float(x) for x in S["w"]]
    return S, kw


def size_of(kw):
    return "f_orb" if "f_orb" in kw else "a"


def other_length(rng, v, one):
    """v with another number of elements."""
    n = len(v)
    k = 1 if one and rng.random() < .5 else n - 1 if rng.random() < .5 else n + 1
    i = np.arange(k) % n
    return v[i] if hasattr(v, "unit") or isinstance(v, (np.ndarray, SkyCoord)) else [v[j] for j in i]


def spoil(rng, n, kw):
    """(what, allowed exceptions or None, arguments)."""
    kw = dict(kw)
    k = int(rng.integers(8))
    sz = size_of(kw)
    if k == 0:
        return "nothing", None, kw
    if k in (1, 2):
        name = ["m_1", "m_2", "dist", sz][int(rng.integers(4))]
        v = kw[name].value
        kw[name] = [v, [float(x) for x in v], v.astype(np.float32)][int(rng.integers(3))]
        if name == "dist" and "position" in kw:
            for key in ("position", "polarisation", "inclination"):
                kw.pop(key)
        return "no unit on " + name, AssertionError, kw
    if k == 3:
        kw.pop(sz)
        if rng.random() < .5:
            kw["f_orb"] = kw["a"] = None
        return "no size of the orbit", ValueError, kw
    if k in (4, 5):
        names = ["m_1", "m_2", "dist", sz, "ecc"] + [x for x in ("weights", "polarisation", "inclination", "weights") if x in kw]
        name = names[int(rng.integers(len(names)))]
        # (one separation or one mass for several is spread over them when the frequency is worked out)
        one = not (sz == "a" and name in ("a", "m_1", "m_2")) and not (name == "dist" and "position" in kw)
        kw[name] = other_length(rng, kw[name], one)
        return "length of " + name, ValueError, kw
    if k == 6:
        for key in ("position", "polarisation", "inclination"):
            kw.pop(key, None)
        which = int(rng.integers(1, 4))
        if which & 1:
            kw["polarisation"] = rng.uniform(0, 1, n) * u.rad
        if which & 2:
            kw["inclination"] = rng.uniform(0, 1, n) * u.rad
        return "orientation without position", ValueError, kw
    if "position" in kw and rng.random() < .5:
        e = np.zeros(n)
        e[int(rng.integers(n))] = float(rng.choice([1e-8, .01, .5]))
        kw["ecc"] = [e, list(e)][int(rng.integers(2))]
        return "one eccentric source among those with positions", ValueError, kw
    if "position" in kw and n > 2:
        p = kw["position"]
        kw["position"] = p[:-1] if rng.random() < .5 else p[np.arange(n + 1) % n]
        return "length of position", ValueError, kw
    kw["sc_params"] = {"instrumental": "LISA"}
    return "unknown parameter", KeyError, kw


@case(quick=400, thorough=12000)
def validation(t):
    rng = t.rng
    n = int(rng.integers(3, 8))
    S, kw = good(rng, n)
    what, exc, kw = spoil(rng, n, kw)
    klass = ["Source", "Stationary", "Evolving"][int(rng.integers(3))]
    t.note(what=what, args=sorted(kw), n=n, klass=klass)
    t.seen(what, tuple(sorted(kw)), klass)
    K = getattr(t.L.source, klass)
    flags = dict(interpolate_g=False, interpolate_sc=False)
    if exc is not None:
        t.raises(what, exc, K, **kw, **flags)
        return
    s = K(**kw, **flags)
    check_content(t, s, S)


def check_content(t, s, S):
    n = len(S["f"])
    t.true("class holds all sources", s.n_sources == n and len(s) == n)
    for k, v, un in (("m_1", S["m1"], u.kg), ("m_2", S["m2"], u.kg), ("dist", S["d"], u.m), ("f_orb", S["f"], u.Hz)):
        t.eq(k, t.val(k, getattr(s, k), un), v, 1e-9)
    t.eq("ecc", s.ecc, S["e"], 1e-15)
    if "w" in S:
        t.eq("weights", s.weights, S["w"], 1e-15)
    else:
        t.true("no weights", s.weights is None)
    if "lon" in S:
        t.true("frame", s.position.frame.name == "barycentrictrueecliptic")
        t.eq("latitude", s.position.lat.rad, S["lat"], 0, atol=1e-7)
        d = np.abs(s.position.lon.rad - S["lon"])
        t.le("longitude", np.minimum(d, 2 * np.pi - d) * np.cos(S["lat"]), 1e-7)
        t.eq("polarisation", t.val("psi", s.polarisation, u.rad), S["psi"], 1e-12)
        t.eq("inclination", t.val("inc", s.inclination, u.rad), S["inc"], 1e-12)
    else:
        t.true("no orientation", s.position is None and s.polarisation is None and s.inclination is None)
    t.true("nothing calculated yet", s.t_merge is None and s.snr is None and s.max_snr_harmonic is None and not s.merged.any()
           and s.merged.shape == (n,))


@case(quick=60, thorough=1500)
def scalars(t):
    """Scalars become collections of one; separation and frequency are interchangeable."""
    rng = t.rng
    S, kw = good(rng, 1)
    kw.pop("weights", None)
    one = {k: (v[0] if k != "ecc" else [float(v[0]), v[0]][int(rng.integers(2))]) for k, v in kw.items()}
    w = None
    if rng.random() < .5:
        w = one["weights"] = [2.5, 2, np.float64(.5)][int(rng.integers(3))]
        S["w"] = np.array([float(w)])
    else:
        S.pop("w", None)
    t.note(args=sorted(one))
    t.seen(t.index)
    s = t.L.source.Source(**one, interpolate_g=False, interpolate_sc=False)
    check_content(t, s, S)
    o = t.L.source.Source(**{**kw, **({"weights": [w]} if w is not None else {})},
                                                                   interpolate_g=False, interpolate_sc=False)
    if S["e"][0] < .6:
        t.eq("same SNR", s.get_snr(n_step=5), o.get_snr(n_step=5), 1e-12)
    t.same("same strain", np.asarray(s.get_h_0_n([1, 2, 3])), np.asarray(o.get_h_0_n([1, 2, 3])))


@case(quick=60, thorough=1500)
def separation_or_frequency(t):
    rng = t.rng
    n = int(rng.integers(1, 6))
    S, kw = good(rng, n, give="a")
    L = t.L.source.Source
    flags = dict(interpolate_g=False, interpolate_sc=False)
    byf = {k: v for k, v in kw.items() if k != "a"}
    byf["f_orb"] = gen.q(rng, S["f"], "freq")
    A, B = L(**kw, **flags), L(**byf, **flags)
    t.seen(t.index, n)
    t.note(f=S["f"], n=n)
    for x in (A, B):
        check_content(t, x, S)
    t.eq("same strain", np.asarray(A.get_h_0_n([1, 2])), np.asarray(B.get_h_0_n([1, 2])), 1e-9, atol=1e-60)
    if rng.random() < .3 and S["e"].max() < .5:
        t.eq("same SNR", A.get_snr(n_step=4), B.get_snr(n_step=4), 1e-5)
    both = dict(byf)
    both["a"] = kw["a"] * rng.uniform(2, 5)
    C = L(**both, **flags)
    t.eq("frequency takes precedence", t.val("f_orb", C.f_orb, u.Hz), S["f"], 1e-9)
    t.eq("also for the separation", t.val("a", C.a, u.m), ref.a_of_f(S["f"], S["m1"], S["m2"]), 1e-9)


class Model:
    def __init__(self, S, tol):
        self.__dict__.update({k: S[k].copy() for k in ("m1", "m2", "f", "e", "d")})
        self.tol = tol


def check_derived(t, s, m, op):
    n = len(m.f)
    t.true("number of sources", s.n_sources == n and len(s) == n, got=(s.n_sources, len(s)), want=n, op=op)
    t.true("number of sources in the text form", str(n) in repr(s), got=repr(s))
    t.eq("chirp mass", t.val("m_c", s.m_c, u.kg), ref.chirp_mass(m.m1, m.m2), 1e-9, op=op)
    t.eq("separation", t.val("a", s.a, u.m), ref.a_of_f(m.f, m.m1, m.m2), 1e-9, op=op)
    t.eq("frequency", t.val("f_orb", s.f_orb, u.Hz), m.f, 1e-9, op=op)
    w = srcs.ecc_tol(m.tol)
    t.true("transition eccentricity", w - 1e-9 <= s.ecc_tol <= w + 2.1e-5, got=s.ecc_tol, want=w, op=op)
    t.true("circular sources", np.array_equal(s.get_source_mask(circular=True), m.e <= s.ecc_tol), op=op)


@case(quick=150, thorough=4000)
def derived(t):
    rng = t.rng
    n = int(rng.integers(1, 6))
    S = srcs.contents(rng, n, "cCeE")
    tol = float(rng.choice([.05, .01, .1]))
    klass = ["Source", "Source", "Stationary", "Evolving"][int(rng.integers(4))]
    s = srcs.make(t, S, klass=klass, gw_lum_tol=tol)
    m = Model(S, tol)
    ops = []
    t.note(ops=ops, n=n, klass=klass)
    check_derived(t, s, m, "built")
    for _ in range(int(rng.integers(3, 9))):
        op = ["m_1", "m_2", "f_orb", "a", "a", "element m", "element f", "scale f", "scale a", "tol", "evolve", "subset", "read-only", "no unit",
              "all", "copy"][int(rng.integers(16))]
        ops.append(op)
        n = len(m.f)
        if op in ("m_1", "m_2"):
            v = gen.light(rng, n)[0]
            setattr(s, op, gen.q(rng, v, "mass"))
            setattr(m, "m1" if op == "m_1" else "m2", v)
        elif op == "f_orb":
            m.f = gen.logu(rng, 1e-5, 1e-3, n)
            s.f_orb = gen.q(rng, m.f, "freq")
        elif op == "a":
            f = gen.logu(rng, 1e-5, 1e-3, n)
            s.a = gen.q(rng, ref.a_of_f(f, m.m1, m.m2), "len")
            m.f = f
        elif op == "element m":
            i = int(rng.integers(n))
            v = float(gen.light(rng, 1)[0][0])
            s.m_2[i] = v * u.kg
            m.m2[i] = v
        elif op == "element f":
            i = int(rng.integers(n))
            s.f_orb[i] = 2.5e-4 * u.Hz
            m.f[i] = 2.5e-4
        elif op == "scale f":
            s.f_orb *= .5
            m.f = m.f * .5
        elif op == "scale a":
            s.a = s.a * 2 if rng.random() < .5 else 2 * s.a
            m.f = m.f / np.sqrt(8)
        elif op == "tol":
            m.tol = float(rng.choice([.05, .01, .1, .2, rng.uniform(.002, .2)]))
            s.gw_lum_tol = m.tol
        elif op == "evolve":
            q = float(rng.choice([1e-3, 1, 100])) * u.yr
            if rng.random() < .5:
                s.evolve_sources(q)
            else:
                s = s.evolve_sources(q, create_new_class=True)
            m.f, m.e = t.val("f", s.f_orb, u.Hz).copy(), np.array(s.ecc)
            t.true("finite", np.isfinite(m.f))
        elif op == "subset":
            i = rng.integers(0, n, int(rng.integers(1, n + 1)))
            s = s[i]
            for k in ("m1", "m2", "f", "e", "d"):
                setattr(m, k, getattr(m, k)[i])
        elif op == "copy":
            s = s.copy()
        elif op == "read-only":
            for k in ("m_c", "n_sources", "ecc_tol", "interpolate_g"):
                v = getattr(s, k)
                t.raises(k + " is read-only", AttributeError, setattr, s, k, v)
        elif op == "no unit":
            t.raises("separation without unit", AssertionError, setattr, s, "a", [s.a.value, 1.0, [2.0] * n][int(rng.integers(3))])
        else:
            # another population of another size
            k = int(rng.integers(1, 7))
            S = srcs.contents(rng, k, "cCeE")
            s.m_1, s.m_2 = gen.q(rng, S["m1"], "mass"), gen.q(rng, S["m2"], "mass")
            s.ecc, s.dist, s.merged = S["e"].copy(), S["d"] * u.m, np.zeros(k, bool)
            s.t_merge = None
            s.weights = None
            if rng.random() < .5:
                s.f_orb = gen.q(rng, S["f"], "freq")
            else:
                s.a = gen.q(rng, ref.a_of_f(S["f"], S["m1"], S["m2"]), "len")
            tl = m.tol
            m = Model(S, tl)
        if op != "evolve" and s.t_merge is not None:
            s.t_merge = None            # recorded values of what was replaced
        check_derived(t, s, m, op)
        t.count("steps")
    t.seen(tuple(ops), klass)


@case(quick=60, thorough=1500)
def independent(t):
    """Several collections, with and without parameters: changing one changes no other."""
    rng = t.rng
    pop = []
    shared = {"instrument": "TianQin", "t_obs": 3 * u.yr}
    for _ in range(int(rng.integers(2, 5))):
        S, kw = good(rng, int(rng.integers(1, 5)))
        k = int(rng.integers(4))
        extra = {} if k < 2 else {"sc_params": shared} if k == 2 else {"sc_params": {}}
        kl = ["Source", "Stationary", "Evolving"][int(rng.integers(3))]
        pop.append(getattr(t.L.source, kl)(**kw, **extra, interpolate_g=False, interpolate_sc=bool(rng.random() < .3)))
    before = [contents(s) for s in pop]
    i = int(rng.integers(len(pop)))
    s = pop[i]
    done = []
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(8))
        done.append(k)
        if k == 0:
            s.sc_params["instrument"] = "DECIGO"
        elif k == 1:
            s.sc_params.update(t_obs=2 * u.yr, approximate_R=True)
        elif k == 2:
            s.gw_lum_tol = .02
        elif k == 3:
            s.merged[:] = True
            s.ecc[:] = 0
            s.m_1[:] = 3 * u.Msun
        elif k == 4:
            s.snr = np.ones(s.n_sources)
            s.max_snr_harmonic = np.ones(s.n_sources)
            s.stat_tol = .5
        elif k == 5:
            s.evolve_sources(1 * u.yr)
        elif k == 6:
            s.sc_params = {"instrument": "LISA", "L": 1e9 * u.m}
        else:
            s.sc_params |= {"confusion_noise": None}
    t.note(done=done, n=len(pop), which=i)
    t.seen(tuple(done), i, len(pop))
    for j, (x, b) in enumerate(zip(pop, before)):
        if j != i:
            c = contents(x)
            t.true("other collections are untouched", c == b, changed=[k for k in c if c[k] != b[k]], which=j)
    t.true("the dictionary is the caller's", shared == {"instrument": "TianQin", "t_obs": 3 * u.yr}, got=shared)
    f = t.L.source.Source(m_1=1 * u.Msun, m_2=1 * u.Msun, ecc=0, dist=1 * u.kpc, f_orb=1 * u.mHz, interpolate_g=False, interpolate_sc=False)
    t.true("a new collection has the defaults", dict(f.sc_params) == {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto",
           "approximate_R": False, "confusion_noise": "auto"} and f.gw_lum_tol == .05 and f.stat_tol == 1e-2 and not f.merged.any(), got=dict(f.sc_params))


@case(quick=4, thorough=20)
def verification_binaries(t):
    """The ready-made collection obeys the same rules."""
    s, o = t.L.source.VerificationBinaries(), t.L.source.VerificationBinaries()
    n = s.n_sources
    t.seen(t.index)
    t.true("same length everywhere", all(len(x) == n for x in (s.m_1, s.m_2, s.dist, s.f_orb, s.ecc, s.position, s.polarisation, s.inclination,
                                                              s.labels, s.true_snr, s.max_snr_harmonic, s.merged)))
    m1, m2 = (t.val("m", x, u.kg) for x in (s.m_1, s.m_2))
    f = t.val("f", s.f_orb, u.Hz)
    t.eq("chirp mass", t.val("m_c", s.m_c, u.kg), ref.chirp_mass(m1, m2), 1e-9)
    t.eq("separation", t.val("a", s.a, u.m), ref.a_of_f(f, m1, m2), 1e-9)
    t.true("circular", s.ecc == 0)
    b = contents(o)
    s.m_1[:] = 1 * u.Msun
    s.dist[:] = 1 * u.kpc
    s.labels[0] = "x"
    s.max_snr_harmonic[:] = 7
    s.sc_params["instrument"] = "TianQin"
    t.true("two of them share nothing", contents(o) == b)
    t.raises("no subsets", NotImplementedError, s.__getitem__, 0)
