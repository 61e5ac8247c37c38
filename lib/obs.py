"""Observing conditions: keyword arguments for LEGWORK and the reference noise curve they stand for."""
import astropy.units as u
import numpy as np

import gen
import ref

AUTO_T = {"LISA": 4.0, "TianQin": 5.0, "DECIGO": 4.0, "custom": 5.0}


def custom_psd(rng):
    """A user's noise curve: any inverse-frequency unit, arguments as documented."""
    un = [1 / u.Hz, u.s, 1 / u.mHz, u.day][int(rng.integers(4))]
    amp = float(gen.logu(rng, 1e-41, 1e-38))

    def model(x):
        x = np.asarray(x, float)
        return amp * (1 + (2e-3 / x)**2 + (x / 2e-2)**2)

    def fn(f, t_obs, L, approximate_R, confusion_noise):
        return (model(f.to(u.Hz).value) / u.Hz).to(un)
    return fn, model


def draw(rng, instruments=("LISA", "LISA", "LISA", "TianQin", "DECIGO", "custom"), simple=0.3, t_yr=None):
    """(kwargs, mission length Quantity, in yr, noise(Hz) -> 1/Hz, name)."""
    inst = instruments[int(rng.integers(len(instruments)))]
    kw = {}
    if inst != "LISA" or rng.random() < .5:
        kw["instrument"] = inst
    if t_yr is None:
        t_yr = float([4.0, 5.0, 1.0, rng.uniform(.3, 10.0)][int(rng.integers(4))])
    tq = (t_yr * u.yr).to([u.yr, u.s, u.day, u.Myr][int(rng.choice(4, p=[.6, .15, .15, .1]))])
    L = None
    conf, cm = "auto", "auto"
    approx = False
    cust = None
    if inst == "custom":
        kw["custom_psd"], cust = custom_psd(rng)
    if rng.random() > simple:
        if inst in ("LISA", "TianQin") and rng.random() < .4:
            L = float({"LISA": rng.uniform(1e9, 5e9), "TianQin": rng.uniform(1e8, 4e8)}[inst])
            kw["L"] = gen.q(rng, L, "len")
        if inst == "LISA" and rng.random() < .4:
            kw["approximate_R"] = approx = True
        if rng.random() < .6:
            # Thiele+21 only for 4 years; the Robson+19 fit only below 2 Hz (LISA's band)
            names = ["auto", None, "huang20", "karnesis21", "user"]
            names += ["robson19"] if inst == "LISA" else []
            names += ["thiele21"] if abs(t_yr - 4) < 1e-12 and tq.unit == u.yr else []
            conf = cm = names[int(rng.integers(len(names)))]
            if conf == "user":
                conf, cm = gen.custom_confusion(rng)
            kw["confusion_noise"] = conf

    def noise(x):
        return ref.psd(np.asarray(x, float), inst, t_yr, L, approx, cm, cust)
    return kw, tq, t_yr, noise, (inst, "L" in kw, approx, conf if not callable(conf) else "user")
