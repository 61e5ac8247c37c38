"""Random frequencies and mission lengths (every tabulated length, values around the midpoints, all time units
and the default) through each confusion model, directly and via get_confusion_noise, against the published
formulas; users' noise functions added to every detector with a recording stub."""
import astropy.units as u
import numpy as np

import gen
import ref
from harness import case

MODELS = ["robson19", "huang20", "karnesis21"]
MID = {"robson19": (0.75, 1.5, 3.0), "huang20": (0.75, 1.5, 3.0, 4.5), "karnesis21": ()}


def freqs(rng, shape):
    n = int(np.prod(shape)) if shape else 1
    f = np.where(rng.random(n) < .7, gen.logu(rng, 8e-5, 2e-2, n), gen.logu(rng, 1e-6, 2.2, n))
    f = np.where(rng.random(n) < .1, rng.choice([1e-4, 1.0, 1e-3, np.nextafter(1e-4, 0), np.nextafter(1.0, 2)], n), f)
    return f.reshape(shape) if shape else f[0]


def mission(rng, model):
    k = int(rng.integers(4))
    if k == 0:
        return float(rng.choice([0.5, 1.0, 2.0, 4.0, 5.0, 10.0]))
    if k == 1 and MID[model]:
        return float(rng.choice(MID[model])) + float(rng.choice([-1, 1])) * float(gen.logu(rng, 1e-5, .1))
    t = float(gen.logu(rng, 0.01, 20))
    return t + 1e-3 if any(abs(t - m) < 1e-5 for m in MID[model]) else t


def judge(t, name, got, want, shape):
    v = t.val(name, got, 1 / u.Hz)
    t.true(name + " one value per frequency", np.shape(v) == shape, got=np.shape(v), want=shape)
    t.true(name + " never negative", v >= 0)
    t.eq(name, v, want, 1e-8, 1e-70)


@case(quick=2250, thorough=30000)
def models(t):
    rng, P = t.rng, t.L.psd
    m = MODELS[t.index % 3]
    shape = gen.shapes(rng)
    f, ty = freqs(rng, shape), mission(rng, m)
    qf, qt = gen.q(rng, f, "freq"), gen.q(rng, ty * ref.YR, "time")
    f = qf.to(u.Hz).value
    qf = gen.layout(rng, qf) if qf.ndim == 1 else qf
    t.note(model=m, f=qf, t_obs=qt)
    t.seen(m, shape[:1], str(qf.unit), str(qt.unit), round(ty, 1))
    want = ref.confusion(f, m, ty)
    judge(t, m, P.get_confusion_noise(f=qf, model=m, t_obs=qt), want, shape)
    judge(t, m + " (own function)", getattr(P, "get_confusion_noise_" + m)(f=qf, t_obs=qt), want, shape)
    d = {"huang20": 5.0}.get(m, 4.0)
    judge(t, m + " default mission", P.get_confusion_noise(f=qf, model=m), ref.confusion(f, m, d), shape)
    judge(t, m + " auto mission", P.get_confusion_noise(f=qf, model=m, t_obs="auto"), ref.confusion(f, m, d), shape)
    judge(t, m + " own default", getattr(P, "get_confusion_noise_" + m)(qf), ref.confusion(f, m, d), shape)


@case(quick=500, thorough=5000)
def thiele_and_none(t):
    rng, P = t.rng, t.L.psd
    shape = gen.shapes(rng)
    f = freqs(rng, shape)
    qf = gen.q(rng, f, "freq")
    t.note(f=qf)
    t.seen(shape, str(qf.unit))
    want = ref.confusion(f, "thiele21", 4)
    for name, got in (("default", P.get_confusion_noise(qf, "thiele21")), ("own", P.get_confusion_noise_thiele21(qf)),
                      ("auto", P.get_confusion_noise(qf, "thiele21", "auto")),
                      ("4 yr", P.get_confusion_noise(qf, model="thiele21", t_obs=4 * u.yr))):
        judge(t, "thiele21 " + name, got, want, shape)
    four = (4 * u.yr).to(gen.UNITS["time"][int(rng.integers(len(gen.UNITS["time"])))])
    if four == 4 * u.yr:                    # (not where converting rounds)
        judge(t, "thiele21 4 yr in {}".format(four.unit), P.get_confusion_noise(qf, "thiele21", four), want, shape)
    bad = float(rng.choice([0.5, 1, 2, 5, 10, 3.9, 4.1, 4.001])) * u.yr
    if rng.random() < .3:
        bad = bad.to(u.d) if rng.random() < .5 else float(rng.choice([4, 1461, 48])) * [u.d, u.s, u.kyr, u.wk][int(rng.integers(4))]
        bad = bad if bad != 4 * u.yr else 2 * u.yr
    t.raises("thiele21 for another mission length", ValueError, P.get_confusion_noise, qf, "thiele21", bad)
    t.raises("thiele21 for another mission length (psd)", ValueError, P.power_spectral_density, qf,
             t_obs=bad, confusion_noise="thiele21")
    zero = t.val("none", P.get_confusion_noise(qf, None, bad), 1 / u.Hz)
    t.eq("no model is exactly zero", zero, np.zeros(shape), 0)
    name = ["robson", "Robson19", "karnesis2021", "", "auto", 5][int(rng.integers(6))]
    t.raises("unknown model", ValueError, P.get_confusion_noise, qf, name)


@case(quick=1000, thorough=10000)
def users_noise(t):
    """A custom function sees the frequencies and mission length and is added on top of the bare noise."""
    rng, P = t.rng, t.L.psd
    inst = ["LISA", "TianQin", "DECIGO"][t.index % 3]
    n = int(rng.integers(1, 30))
    f = gen.logu(rng, 1.1e-3, 1.9, n)
    ty = float(gen.logu(rng, 0.1, 10))
    noise, model = gen.custom_confusion(rng)
    calls = []

    def spy(f, t_obs):
        calls.append((f, t_obs))
        return noise(f, t_obs)
    qt = gen.q(rng, ty * ref.YR, "time")
    approx = bool(rng.random() < .5)
    t.note(instrument=inst, f=f, t_obs=qt, unit=str(noise(f, qt).unit))
    t.seen(inst, str(qt.unit), str(noise(f, qt).unit), n)
    kw = dict(instrument=inst, t_obs=qt, approximate_R=approx)
    got = t.val("psd", P.power_spectral_density(f * u.Hz, confusion_noise=spy, **kw), 1 / u.Hz)
    bare = ref.psd(f, inst, ty, None, approx, None)
    t.eq("bare noise plus the user's noise", got, bare + model(f, ty), 1e-8)
    t.true("the user's function was called", len(calls) >= 1)
    for cf, ct in calls:
        x = cf.to(u.Hz).value if isinstance(cf, u.Quantity) else np.asarray(cf, float)
        t.eq("called with the frequencies", x, f, 1e-12)
        t.eq("called with the mission length", t.val("t", ct, u.yr), ty, 1e-12)
    for other, fn in (("LISA", P.lisa_psd), ("TianQin", P.tianqin_psd), ("DECIGO", P.decigo_psd)):
        if other == inst:
            got = t.val("psd", fn(f * u.Hz, t_obs=qt, approximate_R=approx, confusion_noise=spy), 1 / u.Hz)
            t.eq("same through the instrument's function", got, bare + model(f, ty), 1e-8)
    # the noise is additive for the named models as well
    m = MODELS[int(rng.integers(3))]
    a = t.val("psd", P.power_spectral_density(f * u.Hz, confusion_noise=m, **kw), 1 / u.Hz)
    t.eq("bare noise plus named model", a, bare + ref.confusion(f, m, ty), 1e-8)
