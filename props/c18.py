"""Random collections in random states indexed with every kind of index (and indices of indices), copied and
deep-copied: all attributes against numpy's own selection, all settings equal, results of the selection against the
rows of the full collection's results; then either side is changed in random ways (attributes, elements in place,
parameters, tolerance, evolution, SNR calls) while the other side's contents are watched."""
import copy

import astropy.units as u
import numpy as np

import gen
import srcs
from coll import PER_SOURCE, build, contents, same_content
from harness import case

NEEDS_G = True


def index(rng, n):
    """(index, positions it selects)."""
    all_ = np.arange(n)
    k = int(rng.integers(9))
    if k == 0:
        i = int(rng.integers(-n, n))
        i = [i, np.int64(i), np.int32(i)][int(rng.integers(3))]
        return i, all_[[i]]
    if k == 1:
        r = [None] + list(range(-n - 2, n + 3))
        i = slice(r[int(rng.integers(len(r)))], r[int(rng.integers(len(r)))], [None, 1, 2, -1, -2, 3, 5, -6][int(rng.integers(8))])
        return i, all_[i]
    if k == 2:
        i = [int(x) for x in rng.integers(-n, n, int(rng.integers(1, 2 * n + 1)))]
        return i, all_[i]
    if k == 3:
        i = rng.integers(-n, n, int(rng.integers(0, 2 * n + 1))).astype([int, np.int32, np.int8][int(rng.integers(3))])
        return i, all_[i]
    if k == 4:
        i = rng.random(n) < .5
        return i, all_[i]
    if k == 5:
        i = rng.random(n) < .5
        return [bool(x) for x in i], all_[i]
    if k == 6:
        i = rng.permutation(n)
        return i, i
    if k == 7:
        i = tuple(int(x) for x in rng.integers(0, n, int(rng.integers(1, 5))))
        return i, all_[list(i)]
    return slice(None), all_


@case(quick=300, thorough=12000)
def selections(t):
    rng = t.rng
    s, done = build(t)
    n = s.n_sources
    idx = np.arange(n)
    got, trail = s, []
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        if got.n_sources == 0:
            break
        i, sel = index(rng, got.n_sources)
        got, idx = got[i], idx[sel]
        trail.append(i)
    t.note(indices=[str(i) for i in trail], n=n, klass=type(s).__name__, done=done)
    t.seen(tuple(type(i).__name__ for i in trail), n, len(idx), type(s).__name__, tuple(done))
    same_content(t, "selection", got, s, idx)
    if len(idx) == 0:
        return
    for name, fn in (("strain", lambda x: x.get_h_0_n([1, 2, 4])), ("characteristic strain", lambda x: x.get_h_c_n([2, 3])),
                     ("classes", lambda x: x.get_source_mask(circular=True, stationary=False)), ("chirp mass", lambda x: x.m_c.si.value),
                     ("separation", lambda x: x.a.si.value)):
        a, b = np.asarray(fn(got)), np.asarray(fn(s))[idx]
        t.eq("{} of a selection".format(name), a, b, 1e-12)
    if rng.random() < .35 and not s.merged.all():
        t.eq("merger time of a selection", got.get_merger_time(save_in_class=False).si.value, s.get_merger_time(save_in_class=False).si.value[idx], 1e-9)
    if rng.random() < .35 and type(s).__name__ == "Source":
        a, b = got.copy(), s.copy()
        t.eq("SNR of a selection", a.get_snr(n_step=4), b.get_snr(n_step=4)[idx], 1e-6)
    if rng.random() < .2 and n < 6:
        ones = list(s)
        t.true("iterating gives every source once", len(ones) == n)
        for i, o in enumerate(ones):
            same_content(t, "iteration", o, s, np.array([i]))


@case(quick=60, thorough=1500)
def ranges(t):
    """Every kind of slice of larger collections."""
    rng = t.rng
    n = int(rng.integers(9, 60))
    S = srcs.contents(rng, n, "cCeE")
    s = srcs.make(t, S, interpolate_sc=False)
    s.weights = rng.random(n)
    t.seen(n)
    all_ = np.arange(n)
    for _ in range(25):
        a, b = [None if rng.random() < .3 else int(rng.integers(-n - 3, n + 4)) for _ in range(2)]
        step = [None, 1, 2, 3, -1, -2, int(rng.integers(1, n + 3)), -int(rng.integers(1, n + 3))][int(rng.integers(8))]
        i = slice(a, b, step)
        t.note(n=n, index=str(i))
        same_content(t, "slice", s[i], s, all_[i])
        t.count("slices")


def change(t, s, op):
    rng = t.rng
    n = s.n_sources
    if op == "in place":
        for k in PER_SOURCE:
            v = getattr(s, k)
            if isinstance(v, np.ndarray) and v.dtype != bool:
                v[int(rng.integers(n))] *= 0
            elif isinstance(v, np.ndarray):
                v[:] = ~v
            elif isinstance(v, list):
                v[0] = -1.0
    elif op == "attributes":
        s.ecc = rng.uniform(0, .5, n)
        s.m_1 = s.m_1 * 2
        s.weights = np.ones(n)
        s.snr = np.ones(n)
    elif op == "parameter":
        s.sc_params["instrument"] = {"LISA": "TianQin"}.get(s.sc_params["instrument"], "LISA")
    elif op == "parameters":
        s.sc_params.update({"t_obs": 3.3 * u.yr, "confusion_noise": None})
    elif op == "new parameters":
        s.sc_params = {"instrument": "LISA", "L": 1.7e9 * u.m, "confusion_noise": "huang20"}
    elif op == "union":
        s.sc_params |= {"approximate_R": True, "confusion_noise": None, "instrument": "LISA"}
    elif op == "tolerance":
        s.gw_lum_tol = .2 if s.gw_lum_tol != .2 else .03
        s.stat_tol = .5
    elif op == "separation":
        s.a = s.a * 1.5
    elif op == "evolve":
        s.evolve_sources(gen.logu(rng, 1e-3, 1e3) * u.yr)
    elif op == "merger":
        s.get_merger_time()
    elif op == "snr":
        if type(s).__name__ == "Source":
            s.get_snr(instrument="TianQin", t_obs=2 * u.yr, confusion_noise="huang20", n_step=3)
        else:
            s.sc_params["confusion_noise"] = "karnesis21"
            s.get_snr(instrument="TianQin", t_obs=2 * u.yr)
    elif op == "interpolation":
        s.interpolate_sc = not s.interpolate_sc
        s.set_sc()
        s.set_g(False)


@case(quick=160, thorough=6000)
def independence(t):
    rng = t.rng
    interp = bool(rng.random() < .35)
    s, done = build(t, interp=interp)
    n = s.n_sources
    how = ["copy", "deepcopy", "index", "slice", "deepcopy of index"][int(rng.integers(5))]
    if how == "copy":
        o, idx = s.copy(), np.arange(n)
    elif how == "deepcopy":
        o, idx = copy.deepcopy(s), np.arange(n)
    else:
        i, idx = index(rng, n) if how != "slice" else (slice(None), np.arange(n))
        if len(idx) == 0:
            i, idx = [0, 0], np.array([0, 0])
        o = s[i]
        if how.startswith("deep"):
            o = copy.deepcopy(o)
    same_content(t, how, o, s, idx)
    ops = list(rng.permutation(["in place", "attributes", "parameter", "parameters", "new parameters", "union", "tolerance", "separation",
                                "evolve", "merger", "snr", "interpolation"]))[:int(rng.integers(1, 4))]
    if "in place" in ops:       # leaves nonsense behind: last
        ops.remove("in place")
        ops.append("in place")
    t.note(how=how, n=n, klass=type(s).__name__, done=done, interp=interp)
    t.seen(how, tuple(ops), n, interp, tuple(done))
    for op in ops:
        a, b = (s, o) if rng.random() < .5 or op == "in place" else (o, s)
        t.note(op=op, changed="original" if a is s else "new", ops=ops)
        before = contents(b)
        change(t, a, op)
        after = contents(b)
        t.true("the other collection is as it was", before == after, what=sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
        t.count("changes watched")
        if "in place" == op:
            break
    if s.sc is not None and "in place" not in ops:
        # and each curve still follows its own parameters
        for x in (s, o):
            x.sc_params.update({"instrument": "LISA", "t_obs": 4 * u.yr, "L": "auto", "approximate_R": False, "confusion_noise": None})
        f = np.array([1e-3, 3e-3, 1e-2]) * u.Hz
        if s.interpolate_sc and o.interpolate_sc:
            t.eq("curves of both after the same settings", s.sc(f).value, o.sc(f).value, 1e-12)


@case(quick=90, thorough=2500)
def refusals(t):
    rng = t.rng
    s, done = build(t, interp=False)
    n = s.n_sources
    k = int(rng.integers(6))
    bad, exc = [(n + int(rng.integers(0, 5)), IndexError), (-n - 1 - int(rng.integers(0, 4)), IndexError),
                (rng.random(n + int(rng.integers(1, 4))) < .5, ValueError), ([0, n], IndexError),
                ([0.0, 1.0][int(rng.integers(2))] if rng.random() < .3 else rng.random(3), ValueError), (["m_1", "a", None][int(rng.integers(3))], ValueError)][k]
    if k == 2 and rng.random() < .5 and n > 1:
        bad = np.ones(n - 1, bool)
    if k == 2 and rng.random() < .5:
        bad = [bool(v) for v in bad]
    t.note(bad=bad, n=n)
    t.seen(k, n)
    before = contents(s)
    t.raises("index refused", (exc, IndexError, TypeError) if exc is not IndexError else IndexError, lambda: s[bad])
    t.true("a refusal changes nothing", contents(s) == before)
