"""Random eccentric binaries (0.01 <= e <= 0.95) evolved with every way of giving the binary and the times
(duration for all or per binary, default, 1D or 2D timesteps, any unit), with and without merger avoidance, any
t_before, fitted, exact or caller's merger times, every order of outputs; each returned eccentricity is turned
back into a time with Peters' integral and compared with the time returned for it, the other outputs against
the binary's own c_0 track."""
import astropy.units as u
import numpy as np

import delays
import gen
import ref
from harness import case
from tracks import times, unpack, way

OUT = ["timesteps", "ecc", "a", "f_orb", "f_GW"]


def binaries(rng, n, hi=0.95):
    m1, m2 = gen.masses(rng, n)
    f = gen.logu(rng, 1e-7, 1e-2, n)
    e = gen.ecc(rng, n, 0.01, hi, circ=0, edges=(0.01, 0.1, 0.15, 0.5, 0.95 if hi >= .95 else .6))
    if n > 1 and rng.random() < .2:     # some of them identical, or in all but one respect
        i = rng.integers(0, n, n)
        keep = rng.integers(6)
        m1, m2, f, e = [v if k == keep else v[i] for k, v in enumerate((m1, m2, f, e))]
    return m1, m2, f, e, ref.a_of_f(f, m1, m2), ref.beta(m1, m2)


def outputs(rng):
    k = int(rng.integers(0, 6))
    if k == 0:
        return None, ["ecc", "f_orb"]
    out = [OUT[i] for i in rng.permutation(5)[:k]]
    if k == 1 and rng.random() < .6:
        return out[0], out
    return (out if rng.random() < .7 else np.array(out)), out


def judge_e(t, e, ts, e0, c_0, b, tm, merged_mask=None, tag=""):
    """Each eccentricity (n, m) must be the one reached at its time (n, m), away from the very merger."""
    e0, c_0, b = e0[:, None], c_0[:, None], b[:, None]
    ok = (ts <= 0.97 * tm[:, None]) & (e > 1e-5)
    low = (ts <= 0.97 * tm[:, None]) & (e <= 1e-5)
    want_low = np.broadcast_to(e0, e.shape) > 1e-3      # a tiny e before 0.97 t_merge needs a tiny e0
    t.true("eccentricity vanishes before the merger" + tag, ~(low & want_low), e0=e0, e=e)
    dt = ref.time_to(e0, e, c_0, b) - ts
    with np.errstate(all="ignore"):
        de = np.abs(dt * ref.de_dt(np.maximum(e, 1e-300), c_0, b))
    t.le("eccentricity solves Peters' equation" + tag, np.where(ok, de, 0.0), 3e-5 * (e + e0) + 3e-6, e0=e0[:, 0], t=ts[0], tm=tm)
    t.count("timesteps judged", ok.sum())


def judge_track(t, r, e, c_0, m1, m2):
    """Separation and frequencies on the track of the eccentricities returned with them."""
    live = e > 0
    a = ref.a_of_e(np.where(live, e, .5), c_0[:, None])
    f = ref.f_of_a(a, m1[:, None], m2[:, None])
    if "a" in r:
        t.eq("separation on the c_0 track", r["a"], np.where(live, a, 0.0), 1e-9)
    for k, mult in (("f_orb", 1), ("f_GW", 2)):
        if k in r:
            t.eq(k + " is the Kepler frequency", r[k], np.where(live, mult * f, mult * 100.0), 2e-9)


def as_e(names, r, m1, m2, c_0):
    """Eccentricity from whichever output was asked for (inverting the monotonic a(e))."""
    if "ecc" in names:
        return r["ecc"]
    if "a" in names:
        a = r["a"]
    elif "f_orb" in names or "f_GW" in names:
        f = r["f_orb"] if "f_orb" in names else r["f_GW"] / 2
        a = np.where(np.abs(f - 100) < 1e-9, 0.0, ref.a_of_f(f, m1[:, None], m2[:, None]))
    else:
        return None
    lo, hi = np.full(a.shape, 1e-9), np.full(a.shape, 0.99)
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        big = ref.a_of_e(mid, c_0[:, None]) > a
        lo, hi = np.where(big, lo, mid), np.where(big, mid, hi)
    return np.where(a > 0, 0.5 * (lo + hi), 0.0)


@case(quick=420, thorough=14000)
def avoiding(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 8)
    scalar = n == 1 and rng.random() < .6
    m1, m2, f, e, a, b = binaries(rng, n)
    ov, names = outputs(rng)
    kw = dict(way(rng, m1, m2, f, a, b, "f_orb" in names or "f_GW" in names), ecc_i=e)
    if scalar:
        kw = {k: v[0] for k, v in kw.items()}
        kw["ecc_i"] = float(e[0])
    true = ref.t_exact(e, a, b)
    exact = bool(rng.random() < .5)
    used = ref.t_code(e, a, b, exact)
    tk, grid, own = times(rng, ref.t_code(e, a, b, True), scalar, top=1.3)
    default = "t_evol" not in tk and not own or tk.get("t_evol", 0) is None
    if default and not own:
        grid = ref.t_code(e, a, b, True)[:, None] * np.linspace(0, 1, grid.shape[1])
    if rng.random() < .5:
        tk["exact_t_merge"] = exact
    else:
        exact = False
        used = ref.t_code(e, a, b, False)
    if rng.random() < .25:                      # the caller's own merger times decide the cutoff
        used = true * rng.uniform(.3, 1.0, n)
        tk["t_merge"] = gen.q(rng, used, "time")
    # the cutoff: from "barely" to "everything but the first is too close"
    tb = float(np.max(true) * gen.logu(rng, .04, 1.0))
    tk["t_before"] = gen.q(rng, tb, "time")
    if ov is not None:
        tk["output_vars"] = ov
    t.note(e=e, scalar=scalar, **kw, **tk)
    t.seen(tuple(kw), tuple(tk), tuple(names), n, scalar)
    want, sure = np.empty_like(grid), np.ones(n, bool)
    for i in range(n):
        want[i], margin = ref.freeze(grid[i], used[i], tb)
        sure[i] = margin > 1e-5
    r = unpack(t, E.evol_ecc(**kw, **tk), names, n, grid.shape[1], scalar)
    if "timesteps" in r:
        t.eq("times used", r["timesteps"][sure], want[sure], 5e-6 if default else 1e-11, 1e-12 * grid.max())
        want = r["timesteps"]
        sure[:] = True
    t.count("frozen timesteps", (want[sure] < grid[sure] * (1 - 1e-9)).sum())
    c_0 = ref.c0(a, e)
    ee = as_e(names, r, m1, m2, c_0)
    if ee is not None:
        t.eq("starts at the initial state", ee[:, 0], e, 1e-9)
        t.true("eccentricity never increases", np.diff(ee, axis=1) <= 1e-7, e=ee)
        judge_e(t, ee[sure], want[sure], e[sure], c_0[sure], b[sure], true[sure])
        t.true("equal times have equal states", (np.abs(np.diff(ee, axis=1)) <= 1e-12) | (np.diff(want, axis=1) > 0) | ~sure[:, None])
        if "ecc" in r:
            judge_track(t, r, ee, c_0, m1, m2)
        elif "a" in r:
            for k, mult in (("f_orb", 1), ("f_GW", 2)):
                if k in r:
                    t.eq(k + " is the Kepler frequency", r[k], mult * ref.f_of_a(r["a"], m1[:, None], m2[:, None]), 1e-9)
    if "f_orb" in r and "f_GW" in r:
        t.eq("f_GW is twice f_orb", r["f_GW"], 2 * r["f_orb"], 1e-12)


@case(quick=60, thorough=2000)
def default_cutoff(t):
    """Nothing said about the merger: within 1 Myr of it the last permitted time repeats."""
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 6)
    m1, m2 = gen.light(rng, n)
    e = gen.ecc(rng, n, 0.01, .9, circ=0)
    b = ref.beta(m1, m2)
    tm = gen.logu(rng, 0.3, 300, n) * 1e6 * ref.YR
    if n > 1 and rng.random() < .3:     # twins with timesteps of their own
        e[1], b[1], tm[1] = e[0], b[0], tm[0]
    a = (tm / ref.t_code(e, np.ones(n), b, False))**.25
    top = 1 - .03 * rng.random()
    ts = np.sort(rng.uniform(0, top, (n, 9)), axis=1) * tm[:, None]
    ts[:, 0] = 0
    t.note(e=e, tm=tm / ref.YR, ts=ts)
    t.seen(t.index)
    got_t, ecc = E.evol_ecc(ecc_i=e, a_i=a * u.m, beta=b * u.m**4 / u.s, timesteps=ts * u.s, output_vars=["timesteps", "ecc"])
    got_t = t.val("timesteps", got_t, u.s)
    for i in range(n):
        want, margin = ref.freeze(ts[i], tm[i], 1e6 * ref.YR)
        if margin > 1e-6:
            t.eq("times used", got_t[i], want, 1e-11)
    true = ref.t_exact(e, a, b)
    judge_e(t, ecc, got_t, e, ref.c0(a, e), b, true)
    t.count("frozen timesteps", (got_t < ts * (1 - 1e-9)).sum())


@case(quick=160, thorough=5000)
def through_the_merger(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 6)
    m1, m2, f, e, a, b = binaries(rng, n)
    tm = ref.t_exact(e, a, b)
    tk, grid, own = times(rng, tm, False, allow_none=False, top=1.8)
    kw = dict(way(rng, m1, m2, f, a, b, True), ecc_i=gen.layout(rng, e))
    names = [OUT[i] for i in rng.permutation(5)]
    t.note(e=e, **kw, **tk)
    t.seen(tuple(kw), tuple(tk), tuple(names), n)
    if rng.random() < .3:
        tk["t_merge"] = tm * .5 * u.s           # only used when the merger is avoided
    r = unpack(t, E.evol_ecc(output_vars=names, avoid_merger=False, **kw, **tk), names, n, grid.shape[1], False)
    t.eq("times used", r["timesteps"], grid, 1e-11, 1e-12 * grid.max())
    past = grid > 1.002 * tm[:, None]
    t.true("e = 0 past the merger", r["ecc"][past] == 0, e=r["ecc"][past])
    t.true("a = 0 past the merger", r["a"][past] == 0, a=r["a"][past])
    t.true("f_orb = 100 Hz past the merger", np.abs(r["f_orb"][past] - 100) < 1e-9, f=r["f_orb"][past])
    alive = grid < .97 * tm[:, None]
    t.true("not merged before the merger", (r["ecc"] > 0) | ~alive, e=r["ecc"])
    c_0 = ref.c0(a, e)
    judge_e(t, r["ecc"], grid, e, c_0, b, tm)
    judge_track(t, r, r["ecc"], c_0, m1, m2)
    t.count("steps past the merger", past.sum())


@case(quick=24, thorough=300)
def shared_out(t):
    """Several worker processes, finishing in any order: every binary keeps its own track."""
    rng, E = t.rng, t.L.evol
    n = int(rng.choice([2, 7, 16, 33]))
    m1, m2, f, e, a, b = binaries(rng, n)
    if rng.random() < .5:       # all of them short-lived, a few orders of magnitude apart
        f = f * (ref.t_exact(e, a, b) / (gen.logu(rng, 3, 1e4) * ref.YR * gen.logu(rng, .03, 1, n)))**(3 / 8)
        a = ref.a_of_f(f, m1, m2)
    p = int(rng.integers(2, 7))
    avoid = bool(rng.random() < .5)
    tm = ref.t_exact(e, a, b)
    ts = tm[:, None] * rng.uniform(.3, .95, n)[:, None] * np.linspace(0, 1, int(rng.integers(2, 9)))
    K = dict(avoid_merger=avoid)
    if avoid:
        K["t_before"] = tm.min() * 1e-6 * u.s
    t.note(e=e, f=f, processes=p, **K)
    t.seen(n, p, avoid, t.index)
    with delays.dawdling(E, rng):
        got_t, ecc, got_a = E.evol_ecc(ecc_i=e, timesteps=ts * u.s, m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, n_proc=p,
                                       output_vars=["timesteps", "ecc", "a"], **K)
    t.eq("times used", t.val("timesteps", got_t, u.s), ts, 1e-9)
    t.eq("starts at the initial state", ecc[:, 0], e, 1e-9)
    judge_e(t, ecc, ts, e, ref.c0(a, e), b, tm)
    judge_track(t, {"a": t.val("a", got_a, u.m)}, ecc, ref.c0(a, e), m1, m2)
    # some of them past the merger: the same as with a single process
    ts = tm[:, None] * rng.choice([.5, .99, 1.2, 3, 30], n)[:, None] * np.linspace(0, 1, int(rng.integers(2, 6)))
    K = dict(ecc_i=e, timesteps=ts * u.s, m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, avoid_merger=False,
             output_vars=["ecc", "f_orb", "a"])
    with delays.dawdling(E, rng):
        many = E.evol_ecc(n_proc=p, **K)
    for name, x, y in zip(K["output_vars"], many, E.evol_ecc(**K)):
        t.same("{} past the merger with several processes".format(name), np.asarray(getattr(x, "value", x)), np.asarray(getattr(y, "value", y)))


@case(quick=50, thorough=1500)
def pieces(t):
    """Consecutive evolutions and finer sampling reach the same states."""
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 5)
    m1, m2, f, e, a, b = binaries(rng, n)
    tm = ref.t_exact(e, a, b)
    t1, t2 = tm * rng.uniform(0.01, .5, n), tm * rng.uniform(0.01, .39, n)
    M = dict(m_1=m1 * u.kg, m_2=m2 * u.kg)
    avoid = bool(rng.random() < .5)
    K = dict(avoid_merger=avoid)
    if avoid:
        K["t_before"] = tm.min() * 1e-6 * u.s
    t.note(e=e, f=f, first=t1 / tm, second=t2 / tm, **K)
    t.seen(n, avoid, t.index)
    k1, k2, k3 = [int(v) for v in rng.integers(2, 20, 3)]
    ew, fw = E.evol_ecc(ecc_i=e, t_evol=(t1 + t2) * u.s, n_step=k1, f_orb_i=f * u.Hz, **M, **K)
    eh, fh = E.evol_ecc(ecc_i=e, t_evol=t1 * u.s, n_step=k2, f_orb_i=f * u.Hz, **M, **K)
    er, fr = E.evol_ecc(ecc_i=eh[:, -1], t_evol=t2 * u.s, n_step=k3, f_orb_i=fh[:, -1], **M, **K)
    t.eq("two pieces reach the same eccentricity", er[:, -1], ew[:, -1], 1e-5, 1e-5)
    t.eq("two pieces reach the same frequency", t.val("f", fr, u.Hz)[:, -1], t.val("f", fw, u.Hz)[:, -1], 1e-3)
    ef, ff = E.evol_ecc(ecc_i=e, t_evol=(t1 + t2) * u.s, n_step=2 * k1 - 1, f_orb_i=f * u.Hz, **M, **K)
    t.eq("finer sampling passes through the same states", ef[:, ::2], ew, 1e-5, 1e-5)
    t.true("eccentricity never increases", np.diff(ef, axis=1) <= 1e-7)
    t.true("separation never increases", np.diff(t.val("f", ff, u.Hz), axis=1) >= -1e-6 * t.val("f", ff, u.Hz)[:, 1:])
    t.eq("starts at the initial state", ew[:, 0], e, 1e-12)
    t.eq("starts at the initial frequency", t.val("f", fw, u.Hz)[:, 0], f, 1e-9)


@case(quick=40, thorough=400)
def missing(t):
    rng, E = t.rng, t.L.evol
    n = int(rng.integers(1, 4))
    m1, m2, f, e, a, b = binaries(rng, n)
    Q = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, a_i=a * u.m, beta=b * u.m**4 / u.s)
    bad, ov = [(("beta", "a_i"), ["ecc", "f_orb"]), (("beta", "a_i"), ["a", "f_GW"]), (("m_1", "f_orb_i"), "a"), (("m_1", "m_2"), "ecc"),
               (("beta", "f_orb_i"), "a"), (("beta", "a_i", "m_1"), ["f_orb"]), ((), "timesteps"), (("a_i",), "a")][t.index % 8]
    t.note(given=bad, output_vars=ov)
    t.seen(bad, str(ov))
    t.raises("evol_ecc without enough input", ValueError, E.evol_ecc, ecc_i=e, t_evol=1 * u.Myr, output_vars=ov, **{k: Q[k] for k in bad})
