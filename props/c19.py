"""Random collections in random states (units, positions, weights, SNRs, merger times, merged sources, curve
parameters with and without functions, subclasses, selections) saved in a scratch directory under random names and
loaded with and without overrides; every attribute, setting and later result compared, the directory and the saved
collection watched for anything that should not change."""
import hashlib
import os
import shutil
import tempfile

import astropy.units as u
import numpy as np

import gen
import obs
import srcs
from coll import PER_SOURCE, SETTINGS, build, contents
from harness import case, digest

NEEDS_G = True
DEFAULTS = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}
NAMES = ["sources", "sources.h5", "sources.hdf5", "my sources.v1", "a.h5.bak", "data.txt", "sub/x", "h5", "ünï.h5", ".hidden"]


def scratch():
    return tempfile.mkdtemp(prefix="c19_")


def name_of(rng, d):
    n = NAMES[int(rng.integers(len(NAMES)))]
    p = os.path.join(d, n)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p, p if n.endswith((".h5", ".hdf5")) else p + ".h5"


def files(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def compare(t, got, want, over=None, params=None):
    over = over or {}
    t.true("number of sources", got.n_sources == want.n_sources)
    for k in PER_SOURCE:
        a, b = getattr(got, k), getattr(want, k)
        t.true("{} present or not".format(k), (a is None) == (b is None), got=a, want=b)
        if b is None:
            continue
        if k == "position":
            t.true("frame", a.frame.name == b.frame.name)
            t.eq("longitude", a.lon.rad, b.lon.rad, 1e-14, 1e-14)
            t.eq("latitude", a.lat.rad, b.lat.rad, 1e-14, 1e-14)
            t.eq("distance of the position", a.distance.to_value("kpc"), b.distance.to_value("kpc"), 1e-14)
            continue
        ua, ub = getattr(a, "unit", None), getattr(b, "unit", None)
        t.true("unit of " + k, (ua is None) == (ub is None) and (ua is None or ua == ub), got=str(ua), want=str(ub))
        va, vb = np.asarray(getattr(a, "value", a)), np.asarray(getattr(b, "value", b))
        t.true("type of " + k, va.dtype.kind == vb.dtype.kind, got=str(va.dtype), want=str(vb.dtype))
        t.true("values of " + k, va.shape == vb.shape and np.array_equal(va, vb), got=va, want=vb)
        t.count("attributes compared")
    for k in SETTINGS:
        t.true("setting " + k, getattr(got, k) == over.get(k, getattr(want, k)), got=getattr(got, k), want=over.get(k, getattr(want, k)))
    want_p = {k: (DEFAULTS[k] if callable(v) else v) for k, v in want.sc_params.items()} if params is None else params
    for k in want_p:
        a, b = got.sc_params[k], want_p[k]
        if isinstance(b, u.Quantity):
            t.true("parameter " + k, isinstance(a, u.Quantity) and a.unit == b.unit and np.all(a.value == b.value), got=a, want=b)
        else:
            t.true("parameter " + k, type(a) is type(b) and a == b, got=a, want=b)
    t.true("no other parameters", set(got.sc_params) == set(want_p))
    e = np.linspace(0, .9, 7)
    t.same("harmonics required", got.harmonics_required(e), want.harmonics_required(e))


@case(quick=240, thorough=8000)
def round_trip(t):
    rng, d = t.rng, scratch()
    try:
        s, done = build(t, p_g=.04)
        if rng.random() < .25:
            i = [slice(None, None, -1), slice(0, 1), rng.random(s.n_sources) < .7][int(rng.integers(3))]
            if len(np.arange(s.n_sources)[i]):
                s = s[i]
                done.append("selected")
        if rng.random() < .2:
            s.m_1, s.dist = s.m_1.to(u.g), s.dist.to(u.lyr)
            s.ecc = gen.layout(rng, np.asarray(s.ecc))
            done.append("other units and layouts")
        if rng.random() < .3:
            s.n_proc = int(rng.choice([2, 5]))
        path, real = name_of(rng, d)
        over = {}
        for k in ("interpolate_g", "interpolate_sc", "n_proc"):
            if rng.random() < (.25 if k != "interpolate_g" else .03):
                over[k] = int(rng.choice([1, 3])) if k == "n_proc" else bool(rng.random() < .5)
        t.note(path=os.path.basename(path), klass=type(s).__name__, n=s.n_sources, done=done, over=over, params=dict(s.sc_params))
        t.seen(os.path.basename(path), type(s).__name__, tuple(done), tuple(sorted(over)), s.sc is None)
        before, world = contents(s), files(d)
        s.save(path) if rng.random() < .7 else s.save(file_name=path, overwrite=bool(rng.random() < .5))
        t.true("saving changes nothing in the collection", contents(s) == before, changed=[k for k in before if contents(s)[k] != before[k]])
        t.true("one file, with an HDF5 extension", set(files(d)) - set(world) == {os.path.relpath(real, d)}, files=sorted(files(d)))
        saved = files(d)
        klass = type(s) if rng.random() < .3 else t.L.source.Source
        got = klass.from_file(path if rng.random() < .7 else real, **over)
        t.true("class", type(got) is type(s), got=type(got).__name__, want=type(s).__name__)
        t.true("loading leaves the file alone", files(d) == saved)
        compare(t, got, s, over)
        # the interpolated curve belongs to the parameters that came back
        f = np.logspace(-4.5, -.5, 9) * u.Hz
        want_sc = over.get("interpolate_sc", s.interpolate_sc)
        has = want_sc and not (got.sc_params["instrument"] == "custom" and got.sc_params["custom_psd"] is None)
        t.true("interpolates as stored or as asked", (got.sc is not None) == has, sc=got.sc)
        if got.sc is not None and s.sc is not None and not any(callable(v) for v in s.sc_params.values()):
            t.eq("interpolated curve", got.sc(f).value, s.sc(f).value, 1e-12)
        later(t, got, s)
    finally:
        shutil.rmtree(d)


def later(t, got, s):
    """Later calculations give the same results (with functions set again)."""
    rng = t.rng
    for k, v in s.sc_params.items():
        if callable(v):
            got.sc_params[k] = v
    a, b = got.get_h_0_n([1, 2, 3]), s.get_h_0_n([1, 2, 3])
    if bool(got.interpolate_g) == bool(s.interpolate_g):
        t.eq("strain", a, b, 1e-13)
    else:
        t.eq("strain (other choice of interpolation)", a, b, 0, .05 * b.max(axis=1, keepdims=True, initial=0) * np.ones_like(b))
    t.same("classes", got.get_source_mask(circular=True, stationary=True), s.get_source_mask(circular=True, stationary=True))
    interp = bool(s.interpolate_g) == bool(got.interpolate_g) and s.interpolate_sc == got.interpolate_sc
    if rng.random() < .4 and type(s).__name__ == "Source" and interp:
        a, b = s.copy(), got.copy()
        a.n_proc = b.n_proc = 1
        t.eq("SNR", b.get_snr(n_step=4), a.get_snr(n_step=4), 1e-9)
        t.true("strongest harmonic", np.array_equal(a.max_snr_harmonic, b.max_snr_harmonic) if a.max_snr_harmonic is not None else b.max_snr_harmonic is None)
    if rng.random() < .3:
        a, b = s.copy(), got.copy()
        dt = float(gen.logu(rng, 1e-3, 1e4)) * u.yr
        a.evolve_sources(dt)
        b.n_proc = 1
        b.evolve_sources(dt)
        t.eq("frequency after evolving", b.f_orb.si.value, a.f_orb.si.value, 1e-9)
        t.same("merged after evolving", b.merged, a.merged)


@case(quick=90, thorough=3000)
def existing_files(t):
    rng, d = t.rng, scratch()
    try:
        s, done = build(t, interp=False, p_g=.02)
        o, done2 = build(t, interp=False, p_g=.02)
        path, real = name_of(rng, d)
        junk = rng.random() < .3
        if junk:
            open(real, "wb").write(b"something else entirely")
        else:
            o.save(path)
        by = os.path.join(d, "bystander.h5")
        open(by, "wb").write(b"keep me")
        if rng.random() < .3 and real != path:
            open(path, "wb").write(b"same name without extension")
        t.note(path=os.path.basename(path), junk=junk, done=done, done2=done2)
        t.seen(os.path.basename(path), junk, tuple(done), tuple(done2))
        before = files(d)
        b0 = contents(s)
        alias = path if rng.random() < .5 else real
        t.raises("existing file", FileExistsError, s.save, alias)
        t.raises("existing file", FileExistsError, s.save, alias, overwrite=False)
        t.true("refused save leaves every file alone", files(d) == before, before=before, after=files(d))
        s.save(alias, overwrite=True)
        after = files(d)
        rel = os.path.relpath(real, d)
        t.true("overwriting replaces that file only", {k: v for k, v in after.items() if k != rel} == {k: v for k, v in before.items() if k != rel} and set(after) == set(before))
        t.true("saving changes nothing in the collection", contents(s) == b0)
        got = t.L.source.Source.from_file(alias)
        t.true("class", type(got) is type(s))
        compare(t, got, s)
    finally:
        shutil.rmtree(d)


@case(quick=40, thorough=800)
def missing_files(t):
    rng, d = t.rng, scratch()
    try:
        p = os.path.join(d, NAMES[int(rng.integers(len(NAMES)))])
        t.note(path=os.path.basename(p))
        t.seen(os.path.basename(p), t.index % 3)
        if rng.random() < .4 and not p.endswith((".h5", ".hdf5")):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("not what is asked for")
        before = files(d)
        K = getattr(t.L.source, ["Source", "Stationary", "Evolving"][int(rng.integers(3))])
        t.raises("missing file", FileNotFoundError, K.from_file, p)
        t.true("nothing created", files(d) == before)
    finally:
        shutil.rmtree(d)


@case(quick=60, thorough=1200)
def functions(t):
    """Parameters that are functions come back as defaults; setting them again restores everything."""
    rng, d = t.rng, scratch()
    try:
        S = srcs.contents(rng, int(rng.integers(1, 5)), "ce", e_hi=.5)
        par = {"t_obs": 4 * u.yr}
        which = int(rng.integers(1, 4))
        model = None
        if which & 1:
            par["instrument"] = "custom"
            par["custom_psd"], model = obs.custom_psd(rng)
        if which & 2:
            par["confusion_noise"], _ = gen.custom_confusion(rng)
        if rng.random() < .5:
            par["L"] = 1e9 * u.m
        interp = bool(rng.random() < .5)
        s = srcs.make(t, S, interpolate_sc=interp, sc_params=par)
        want = s.get_snr().copy()
        t.note(par=sorted(par), interp=interp)
        t.seen(which, interp, "L" in par, len(want))
        p = os.path.join(d, "f")
        before = contents(s)
        s.save(p)
        t.true("saving changes nothing in the collection", contents(s) == before)
        got = t.L.source.Source.from_file(p)
        compare(t, got, s)
        for k, v in par.items():
            if callable(v):
                t.true(k + " comes back as its default", got.sc_params[k] == DEFAULTS[k], got=got.sc_params[k])
                got.sc_params[k] = v
        t.eq("SNR once the functions are given again", got.get_snr(), want, 1e-12)
        t.true("parameters once given again", digest(dict(got.sc_params)) == digest(dict(s.sc_params)))
        t.true("curve as before", (got.sc is None) == (s.sc is None))
    finally:
        shutil.rmtree(d)


@case(quick=3, thorough=12)
def verification_binaries(t):
    rng, d = t.rng, scratch()
    try:
        v = t.L.source.VerificationBinaries()
        if t.index % 2:
            v.get_snr()
        t.seen(t.index)
        before = contents(v)
        p = os.path.join(d, "vb")
        v.save(p)
        t.true("saving changes nothing in the collection", contents(v) == before)
        got = t.L.source.Source.from_file(p)
        compare(t, got, v)
        t.eq("SNR", got.get_snr(), v.get_snr(), 1e-9)
    finally:
        shutil.rmtree(d)
