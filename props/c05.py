"""Random frequencies (log-uniform over and beyond the band, exact band edges, all shapes, units and memory
layouts), mission lengths, arm lengths, response options and confusion choices for LISA, TianQin, DECIGO and
custom instruments through the instrument functions and the generic one; every element against the
published formulas in SI."""
import astropy.units as u
import numpy as np

import gen
import ref
from harness import case

BAND = {"LISA": (1e-7, 2.0), "DECIGO": (1e-3, 1e2), "TianQin": (0, np.inf)}
MODELS = ["robson19", "huang20", "karnesis21", None]
RT = 1e-8


def freqs(rng, instrument, shape):
    n = int(np.prod(shape)) if shape else 1
    lo, hi = {"LISA": (1e-9, 50.0), "TianQin": (1e-6, 50.0), "DECIGO": (1e-5, 1e4)}[instrument]
    f = gen.logu(rng, lo, hi, n)
    f = np.where(rng.random(n) < .5, gen.logu(rng, 1e-4, 2.0, n), f)
    edges = [1e-7, 2.0, 1e-4, 1.0, 1e-3, 1e2, np.nextafter(2.0, 3), np.nextafter(1e-7, 0), np.nextafter(1e2, 1e3)]
    f = np.where(rng.random(n) < .1, rng.choice(edges, n), f)
    return f.reshape(shape) if shape else f[0]


def tobs(rng):
    t = [0.5, 1.0, 2.0, 4.0, 5.0, 10.0][int(rng.integers(6))] if rng.random() < .4 else float(gen.logu(rng, 0.05, 15))
    # stay away from the midpoints of the tabulated lengths (which of the two is closer is then rounding)
    for mid in (0.75, 1.5, 3.0, 4.5):
        if abs(t - mid) < 1e-6:
            t += 1e-3
    return t


def arm(rng, instrument):
    if instrument == "TianQin":
        return float(np.sqrt(3) * 1e8 * rng.uniform(0.3, 3))
    return float([2.5e9, 5e9, 1e9, 2.5e9 * rng.uniform(.3, 3)][int(rng.integers(4))])


def close(t, name, got, want, f, instrument):
    v = t.val(name, got, 1 / u.Hz)
    t.eq(name, v, want, RT, f=f)
    lo, hi = BAND[instrument]
    inside = (np.asarray(f) >= lo) & (np.asarray(f) <= hi)
    t.true(name + " finite and positive inside the band", np.isfinite(v[inside]) & (v[inside] > 0), f=f)
    t.true(name + " infinite outside the band", np.isinf(v[~inside]) & (v[~inside] > 0), f=f)


@case(quick=2250, thorough=30000)
def instruments(t):
    rng, P = t.rng, t.L.psd
    instrument = ["LISA", "LISA", "TianQin", "DECIGO"][int(rng.integers(4))]
    shape = gen.shapes(rng) if rng.random() < .96 else (int(rng.integers(2000, 20000)),)
    f = freqs(rng, instrument, shape)
    ty, L, approx = tobs(rng), arm(rng, instrument), bool(rng.random() < .4)
    k = int(rng.integers(7))
    custom = k >= 5
    if custom:
        conf, mconf = gen.custom_confusion(rng)
    elif k == 4:
        ty, conf, mconf = 4.0, "thiele21", "thiele21"
    else:
        conf = mconf = MODELS[k]
    if mconf == "robson19" and instrument != "LISA":
        f = np.minimum(f, 2.0)        # the fit overflows beyond the LISA band
    un = u.Hz if custom or rng.random() < .5 else gen.unit(rng, "freq", 0)
    qf = (f * u.Hz).to(un)
    f = qf.to(u.Hz).value           # what the requested unit really says (edges may move by rounding)
    qf = gen.layout(rng, qf) if qf.ndim == 1 else qf
    qt = (4.0 * u.yr if ty == 4.0 else gen.q(rng, ty * ref.YR, "time"))
    qL = gen.q(rng, L, "len")
    t.note(instrument=instrument, f=qf, t_obs=qt, L=qL, approximate_R=approx, confusion=k)
    t.seen(instrument, len(shape), str(un), k, approx, str(qt.unit), str(qL.unit))
    x = f if instrument != "TianQin" else f
    want = ref.psd(x, instrument, ty, L, approx, mconf)
    kw = dict(t_obs=qt, L=qL, approximate_R=approx, confusion_noise=conf)
    fn = {"LISA": P.lisa_psd, "TianQin": P.tianqin_psd, "DECIGO": P.decigo_psd}[instrument]
    if t.index % 2:
        close(t, "power_spectral_density", P.power_spectral_density(f=qf, instrument=instrument, **kw), want, f, instrument)
        close(t, instrument + " function", fn(f=qf, **kw), want, f, instrument)
    else:
        close(t, instrument + " function", fn(f=qf, **kw), want, f, instrument)
        close(t, "power_spectral_density", P.power_spectral_density(f=qf, instrument=instrument, **kw), want, f, instrument)


@case(quick=750, thorough=8000)
def defaults(t):
    """'auto' and omitted arguments: per-instrument mission length, arm length and confusion model."""
    rng, P = t.rng, t.L.psd
    instrument = ["LISA", "TianQin", "DECIGO"][t.index % 3]
    f = np.sort(np.concatenate([freqs(rng, instrument, (30,)), gen.logu(rng, 1e-4, 1e-2, 20)]))
    given = {}
    spec = {}
    if rng.random() < .5:
        spec["t_yr"] = tobs(rng)
        given["t_obs"] = gen.q(rng, spec["t_yr"] * ref.YR, "time")
    if rng.random() < .5 and instrument != "DECIGO":
        spec["L"] = arm(rng, instrument)
        given["L"] = gen.q(rng, spec["L"], "len")
    if rng.random() < .5:
        spec["conf"] = given["confusion_noise"] = MODELS[int(rng.integers(4))]
    if rng.random() < .5:
        spec["approx"] = given["approximate_R"] = bool(rng.random() < .5)
    for k in ("t_obs", "L", "confusion_noise"):
        if k not in given and rng.random() < .5:
            given[k] = "auto"
    if spec.get("conf") == "robson19" and instrument != "LISA":
        f = np.minimum(f, 2.0)
    t.note(instrument=instrument, given=given)
    t.seen(instrument, tuple(sorted((k, str(v) == "auto") for k, v in given.items())))
    want = ref.psd(f, instrument, **spec)
    close(t, "power_spectral_density", P.power_spectral_density(f * u.Hz, instrument=instrument, **given), want, f, instrument)
    if instrument == "LISA":
        close(t, "LISA is the default", P.power_spectral_density(f * u.Hz, **given), want, f, instrument)
    fn = {"LISA": P.lisa_psd, "TianQin": P.tianqin_psd, "DECIGO": P.decigo_psd}[instrument]
    kw = {k: v for k, v in given.items() if not (isinstance(v, str) and v == "auto")}
    close(t, "instrument function", fn(f * u.Hz, **kw), want, f, instrument)
    for model, value in ((None, 0.0),):
        base = t.val("bare", fn(f * u.Hz, **{**kw, "confusion_noise": None}), 1 / u.Hz)
        spec0 = dict(spec, conf=None)
        close(t, "noise without confusion", base / u.Hz, ref.psd(f, instrument, **spec0), f, instrument)


@case(quick=200, thorough=2000)
def decigo_limits(t):
    rng, P = t.rng, t.L.psd
    lo, hi = float(gen.logu(rng, 1e-5, 1e-1)), float(gen.logu(rng, 1, 1e4))
    f = gen.logu(rng, 1e-6, 1e5, 60)
    f[:4] = lo, hi, lo * .999, hi * 1.001
    ql, qh = gen.q(rng, lo, "freq"), gen.q(rng, hi, "freq")
    lo, hi = ql.to(u.Hz).value, qh.to(u.Hz).value
    f[:2] = lo, hi
    t.note(f_low=ql, f_high=qh)
    t.seen(str(ql.unit), str(qh.unit), t.index)
    got = t.val("decigo", P.decigo_psd(f * u.Hz, f_low=ql, f_high=qh), 1 / u.Hz)
    t.eq("DECIGO with its own limits", got, ref.decigo_psd(f, f_low=lo, f_high=hi), RT)


@case(quick=375, thorough=3000)
def custom_instrument(t):
    """The user's PSD gets every argument unchanged and its result is returned."""
    rng, P = t.rng, t.L.psd
    f = freqs(rng, "LISA", gen.shapes(rng)) * u.Hz
    args = dict(t_obs=tobs(rng) * u.yr, L=arm(rng, "LISA") * u.m, approximate_R=bool(rng.random() < .5),
                confusion_noise=[None, "robson19", "auto", lambda f, t: 0][int(rng.integers(4))])
    if rng.random() < .3:
        args["t_obs"], args["L"] = "auto", "auto"
    calls = []
    out = object()

    def mine(f, t_obs, L, approximate_R, confusion_noise):
        calls.append(dict(f=f, t_obs=t_obs, L=L, approximate_R=approximate_R, confusion_noise=confusion_noise))
        return out
    t.note(**args)
    t.seen(str(args["confusion_noise"])[:9], isinstance(args["L"], str), args["approximate_R"], f.ndim)
    got = P.power_spectral_density(f, instrument="custom", custom_psd=mine, **args)
    t.true("result of the custom PSD returned", got is out)
    t.true("custom PSD called once", len(calls) == 1, calls=len(calls))
    c = calls[0]
    t.same("frequencies handed over", c.pop("f"), f)
    for k, v in args.items():
        t.true("{} handed over unchanged".format(k), c[k] is v or c[k] == v, got=c[k], want=v)


@case(quick=150, thorough=800)
def refusals(t):
    rng, P = t.rng, t.L.psd
    name = ["lisa", "Lisa", "TIANQIN", "ET", "", None, "Custom", "decigo"][int(rng.integers(8))]
    t.note(instrument=name)
    t.seen(repr(name))
    t.raises("unknown instrument", ValueError, P.power_spectral_density, [1, 2] * u.mHz, instrument=name)
    t.raises("unknown confusion model", ValueError, P.power_spectral_density, [1, 2] * u.mHz,
             instrument=["LISA", "TianQin", "DECIGO"][int(rng.integers(3))], confusion_noise="nonsense")


@case(quick=375, thorough=4000)
def response(t):
    rng, P = t.rng, t.L.psd
    fs = float(gen.logu(rng, 5e-3, 0.1))
    f = gen.logu(rng, 1e-6, min(2.0, 100 * fs), 50)
    t.note(fstar=fs)
    t.seen(t.index)
    t.eq("response function", np.asarray(P.load_response_function(f, fs)), ref.response(f, fs), 1e-8)
    t.eq("approximate response", np.asarray(P.approximate_response_function(f, fs)), ref.response_approx(f, fs), 1e-12)
    t.eq("default f* (response)", np.asarray(P.load_response_function(f)), ref.response(f, 19.09e-3), 1e-8)
