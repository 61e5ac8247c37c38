"""Random collections (circular, slightly and strongly eccentric, stationary, evolving and merging sources, with and
without positions, weights, interpolation, known merger times) put through random histories of evolution steps
(one duration for all or one per source, in place or into new collections, exactly at, just before and just after
merger times, zero, far past the merger) interleaved with merger-time requests, SNRs and copies.  After every step
the state of every source is judged against Peters' equations from the previous state and from its initial
state with the accumulated time, and the merger clock and the merged flags against a model."""
import astropy.units as u
import numpy as np

import gen
import ref
import srcs
from coll import PER_SOURCE, SETTINGS, contents
from harness import case, digest
from ref import YR

KEEP = ["m_1", "m_2", "dist", "position", "polarisation", "inclination", "weights"]


def content(rng, n=None):
    n = n or int(rng.integers(1, 8))
    if rng.random() < .3:
        S = srcs.contents(rng, n, "cC", merging=True)
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    else:
        S = srcs.contents(rng, n, ["cCeEs", "CE", "CEs", "E", "C"][int(rng.integers(5))], e_hi=.9, merging=True)
        S["e"] = np.where((S["e"] > 0) & (S["e"] < .01), 0.01 + S["e"], S["e"])
        if rng.random() < .3:                          # some merge soon
            soon = rng.random(n) < .5
            mc = ref.chirp_mass(S["m1"], S["m2"])
            S["f"] = np.where(soon, gen.f_for_tmerge(mc, gen.logu(rng, .01, 3, n) * YR, ref.F(S["e"])), S["f"])
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    return S


def state(t, s):
    return dict(f=t.val("f_orb", s.f_orb, u.Hz), e=t.plain("ecc", s.ecc), merged=np.array(s.merged),
                tm=None if s.t_merge is None else t.val("t_merge", s.t_merge, u.s), a=t.val("a", s.a, u.m))


class Model:
    """Initial state, accumulated time since, merger time at the start of the clock and accumulated time at that start."""

    def __init__(self, S):
        self.S, self.T, self.steps = S, np.zeros(len(S["f"])), 0
        self.rec, self.since = None, None
        self.merged = np.zeros(len(S["f"]), bool)
        self.a0 = ref.a_of_f(S["f"], S["m1"], S["m2"])
        self.b = ref.beta(S["m1"], S["m2"])
        e = np.where(S["e"] > 0, S["e"], .5)
        self.c0 = ref.c0(self.a0, e)
        self.true = np.where(S["e"] > 0, 12 / 19 * self.c0**4 / self.b * ref.I_fast(e), ref.t_circ(self.a0, self.b))

    def copy(self):
        m = object.__new__(Model)
        m.__dict__.update({k: v.copy() if isinstance(v, np.ndarray) else v for k, v in self.__dict__.items()})
        return m


def codes(m, st):
    """Merger times of the current state, 0 for merged."""
    a = ref.a_of_f(st["f"], m.S["m1"], m.S["m2"])
    return np.where(st["merged"], 0.0, ref.t_code(st["e"], a, m.b))


def judge(t, m, before, after, dt, what):
    """One step of dt (array, s) from state before to state after."""
    S = m.S
    n = len(S["f"])
    dt = np.broadcast_to(dt, (n,))
    # the clock
    left = before["tm"] if before["tm"] is not None else codes(m, before)
    rtol = 1e-12 if before["tm"] is not None else 1e-5
    edge = np.abs(dt - left) <= rtol * np.maximum(left, dt)
    gone = dt >= left
    t.true("merged exactly when the merger time is reached", (after["merged"] == gone) | edge, left=left, dt=dt, got=after["merged"], op=what)
    t.true("merged stays merged", after["merged"] | ~before["merged"], op=what)
    if after["tm"] is not None:
        t.eq("merger time decreases by the time evolved", after["tm"], np.maximum(0.0, left - dt), 1e-9 if rtol < 1e-9 else 1e-5,
             atol=rtol * 10 * np.maximum(left, dt), op=what)
        t.true("merger time never negative", after["tm"] >= 0)
    else:
        t.fail("merger times known after evolving", op=what)
    g = after["merged"]
    t.true("merged: circular", after["e"][g] == 0, got=after["e"][g])
    t.true("merged: at 100 Hz", after["f"][g] == 100.0, got=after["f"][g])
    # the state, from the state before
    live = ~g & ~before["merged"]
    if not live.any():
        return
    a_b = ref.a_of_f(before["f"], S["m1"], S["m2"])
    circ = live & (before["e"] == 0)
    if circ.any():
        t.true("circular stays circular", after["e"][circ] == 0)
        tm = ref.t_circ(a_b, m.b)
        ok = circ & (dt <= tm * .999)
        a = ref.a_circ(a_b, m.b, dt)
        want = ref.f_of_a(np.where(ok, a, 1.0), S["m1"], S["m2"])
        t.eq("circular frequency", np.where(ok, after["f"], 0), np.where(ok, want, 0), 1e-9 / (1 - .999) * 1e-2, op=what)
    ecc = live & (before["e"] > 0)
    if ecc.any():
        e0 = before["e"][ecc]
        e1 = after["e"][ecc]
        t.true("eccentricity falls and stays in range", (e1 >= 0) & (e1 <= e0 + 1e-12), e0=e0, e1=e1, op=what)
        c_0, b, d = ref.c0(a_b[ecc], e0), m.b[ecc], dt[ecc]
        tm = 12 / 19 * c_0**4 / b * ref.I_fast(e0)
        ok = (d <= .97 * tm) & (e1 > 1e-5)
        t.true("eccentricity vanishes before the merger", ~((d <= .97 * tm) & (e1 <= 1e-5) & (e0 > 1e-3)), e0=e0, e1=e1, op=what)
        with np.errstate(all="ignore"):
            de = np.abs((ref.time_to(e0, np.where(ok, e1, e0), c_0, b) - d) * ref.de_dt(np.maximum(e1, 1e-300), c_0, b))
        t.le("eccentricity solves Peters' equation", np.where(ok, de, 0.0), 3e-5 * (e1 + e0) + 3e-6, e0=e0, op=what)
        f = ref.f_of_a(ref.a_of_e(np.where(e1 > 0, e1, .5), c_0), S["m1"][ecc], S["m2"][ecc])
        t.eq("frequency on the track", after["f"][ecc], np.where(e1 > 0, f, 100.0), 2e-9, op=what)
    t.true("frequency finite, rising and positive", np.isfinite(after["f"]) & (after["f"] >= before["f"] * (1 - 1e-9)), op=what,
           got=after["f"], before=before["f"])
    # and from the very beginning with the accumulated time
    T = m.T + dt
    ok = ~g & (T <= .97 * m.true)
    c = ok & (S["e"] == 0)
    if c.any():
        a = ref.a_circ(m.a0, m.b, T)
        t.eq("circular state after the accumulated time", np.where(c, after["f"], 0), np.where(c, ref.f_of_a(np.where(c, a, 1.), S["m1"], S["m2"]), 0),
             1e-7, op=what)
    c = ok & (S["e"] > 0) & (after["e"] > 1e-3)
    if c.any():
        e0, e1 = S["e"][c], after["e"][c]
        de = np.abs((ref.time_to(e0, e1, m.c0[c], m.b[c]) - T[c]) * ref.de_dt(e1, m.c0[c], m.b[c]))
        t.le("eccentricity after the accumulated time", de, (m.steps + 1) * 2 * (3e-5 * (e1 + e0) + 3e-6), op=what)
        t.count("eccentric tracks judged", c.sum())
    t.count("source steps", n)


def duration(t, rng, s, m):
    """Argument and array of seconds."""
    st_tm = s.t_merge
    n = s.n_sources
    if st_tm is not None:
        tm = st_tm.to_value(u.s)
    else:
        tm = np.where(s.merged, 0, np.maximum(m.true - m.T, 0))
    alive = tm[tm > 0]
    k = int(rng.integers(7))
    unit = [u.yr, u.Myr, u.s, u.day, u.Gyr][int(rng.integers(5))]
    if k <= 2 or len(alive) == 0:
        base = np.median(alive) if len(alive) else YR
        x = float(base * rng.choice([rng.uniform(.01, .5), rng.uniform(0, .97), rng.uniform(1.03, 2)]))
    elif k == 3:
        x = float(rng.choice([0.0, 1.0, YR, 4 * YR, 1e20]))
    elif k == 4 and st_tm is not None:
        # exactly at, or a hair beside, the merger time of one source
        i = int(rng.integers(n))
        x = float(st_tm[i].value) * float(rng.choice([1, 1 - 1e-9, 1 + 1e-9]))
        return x * st_tm.unit, np.full(n, (x * st_tm.unit).to_value(u.s))
    else:
        x = tm * rng.choice([0, .1, .5, .9, .96, 1.05, 3], n) + np.where(rng.random(n) < .2, YR, 0)
        q = (x * u.s).to(unit)
        if rng.random() < .3:
            q = gen.layout(rng, q)
        return q, x
    q = (x * u.s).to(unit)
    if rng.random() < .15:
        q = [x] * u.s if n == 1 else np.full(n, q.value) * q.unit
    return q, np.full(n, x)


def frozen(s):
    d = contents(s)
    return {k: v for k, v in d.items() if k != "t_merge"}


@case(quick=150, thorough=4000)
def histories(t):
    rng = t.rng
    S = content(rng)
    n = len(S["f"])
    sc = {"instrument": ["LISA", "DECIGO", "TianQin"][int(rng.integers(3))]} if rng.random() < .5 else {}
    s = srcs.make(t, S, interpolate_sc=bool(rng.random() < .2), sc_params=sc, gw_lum_tol=float(rng.choice([.05, .01, .1])),
                  stat_tol=float(rng.choice([1e-2, 3e-2])), n_proc=int(rng.choice([1, 1, 1, 1, 2]) if t.index % 5 == 0 else 1))
    if rng.random() < .08:
        srcs.with_g(t, s)
    m = Model(S)
    ops = []
    t.note(ops=ops, f=S["f"], e=S["e"], n=n)
    for _ in range(int(rng.integers(2, 8))):
        op = ["evolve", "evolve", "new", "new stay", "merger", "merger ask", "snr", "copy"][int(rng.integers(8))]
        before = state(t, s)
        if op in ("evolve", "new", "new stay"):
            q, dt = duration(t, rng, s, m)
            what = "{} {}".format(op, str(q)[:60])
            ops.append(what)
            q0 = digest(q)
            keep = frozen(s) if op != "evolve" else None
            if op == "evolve":
                twin = s.copy().evolve_sources(q, create_new_class=True) if rng.random() < .3 else None
                t.true("nothing returned when evolving in place", s.evolve_sources(q) is None)
                o = s
                if twin is not None:
                    other = state(t, twin)
                    for k, v in state(t, s).items():
                        t.true("new collection has the same {} as in place".format(k), np.array_equal(v, other[k]), got=other[k], want=v)
            else:
                o = s.evolve_sources(q, create_new_class=True)
                now = frozen(s)
                t.true("original untouched", now == keep, changed=[k for k in keep if now[k] != keep[k]], op=what)
                if before["tm"] is not None:
                    t.true("merger times of the original untouched", np.array_equal(t.val("t", s.t_merge, u.s), before["tm"]))
                for k in KEEP:
                    x, y = getattr(o, k), getattr(s, k)
                    t.true("keeps " + k, digest(x) == digest(y) if k != "position" else (x is None) == (y is None), got=x, want=y, op=what)
                if s.position is not None:
                    t.true("keeps position", np.array_equal(o.position.lon.rad, s.position.lon.rad) and np.array_equal(o.position.lat.rad, s.position.lat.rad))
                for k in SETTINGS:
                    t.true("keeps setting " + k, getattr(o, k) == getattr(s, k), got=getattr(o, k), want=getattr(s, k))
                t.true("keeps curve parameters", dict(o.sc_params) == dict(s.sc_params), got=dict(o.sc_params), want=dict(s.sc_params))
            t.true("time argument untouched", digest(q) == q0)
            after = state(t, o)
            judge(t, m, before, after, dt, what)
            if op != "new stay":
                s = o
                m.T = m.T + dt
                m.steps += 1
        elif op == "merger":
            ops.append(op)
            exact = bool(rng.random() < .8)
            got = t.val("merger time", s.get_merger_time(exact=exact), u.s)
            a = ref.a_of_f(before["f"], S["m1"], S["m2"])
            want = np.where(before["merged"], 0.0, ref.t_code(before["e"], a, m.b, exact))
            t.eq("merger times", got, want, 2e-6, op=op)
            t.true("recorded", np.array_equal(t.val("t_merge", s.t_merge, u.s), got))
        elif op == "merger ask":
            sel = rng.random(n) < .6
            ops.append("ask {}".format(sel.astype(int)))
            keep = contents(s)
            how = int(rng.integers(3))
            if how == 0:
                sel = np.ones(n, bool)
                got = s.get_merger_time(save_in_class=False)
            else:
                got = s.get_merger_time(save_in_class=False, which_sources=sel)
            got = t.val("merger time", got, u.s)
            a = ref.a_of_f(before["f"], S["m1"], S["m2"])
            t.eq("merger times of a subset", got, np.where(before["merged"], 0.0, ref.t_code(before["e"], a, m.b))[sel], 2e-6)
            t.true("only recorded when asked for", contents(s) == keep)
        elif op == "snr":
            ops.append(op)
            if before["e"][~before["merged"]].max(initial=0) > .6:
                continue
            v = s.get_snr(n_step=4)
            h = s.get_h_0_n([1, 2, 3])
            t.true("merged: no signal-to-noise", v[s.merged] == 0)
            t.true("merged: no strain", h.value[s.merged] == 0 if hasattr(h, "value") else h[s.merged] == 0)
            v2 = s.get_h_c_n([2])
            t.true("merged: no characteristic strain", v2[s.merged] == 0)
        else:
            ops.append(op)
            s = s.copy() if rng.random() < .5 else s[np.arange(n)]
        t.count("steps")
    t.seen(tuple(ops))


@case(quick=60, thorough=1500)
def splitting(t):
    """The same accumulated time in one step or in pieces, in place or not, alone or in company."""
    rng = t.rng
    S = content(rng)
    n = len(S["f"])
    m = Model(S)
    frac = rng.uniform(.02, .9, n)
    T = m.true * frac
    if rng.random() < .5:
        T = np.full(n, np.median(T))
    k = int(rng.integers(2, 6))
    w = rng.dirichlet(np.ones(k))
    t.note(f=S["f"], e=S["e"], T=T, w=w)
    t.seen(k, n)
    one = srcs.make(t, S)
    one.evolve_sources(T * u.s)
    many = srcs.make(t, S)
    for i, x in enumerate(w):
        if rng.random() < .3:
            many.get_merger_time()
        r = many.evolve_sources((T * x * u.s).to([u.yr, u.s, u.Myr][i % 3]), create_new_class=bool(i % 2))
        many = many if r is None else r
    a, b = state(t, one), state(t, many)
    ok = T < .97 * m.true
    t.true("merged flags", (a["merged"] == b["merged"]) | ~ok, one=a["merged"], pieces=b["merged"])
    both = ok & ~a["merged"]
    t.le("eccentricity", np.abs(a["e"] - b["e"])[both], (k + 1) * 2 * (3e-5 * (a["e"] + S["e"]) + 3e-6)[both])
    c = both & (S["e"] == 0)
    t.eq("frequency (circular)", b["f"][c], a["f"][c], 1e-8)
    i = int(rng.integers(n))
    alone = srcs.make(t, srcs.take(S, slice(i, i + 1)))
    alone.evolve_sources(T[i] * u.s)
    z = state(t, alone)
    for key in ("f", "e", "tm"):
        t.eq("alone or in company: " + key, z[key], a[key][i:i + 1], 1e-9, atol=1e-12 if key == "e" else 0)


@case(quick=40, thorough=800)
def scalar_collections(t):
    """Collections of one built from scalars."""
    rng = t.rng
    S = content(rng, 1)
    S.pop("w", None)
    m = Model(S)
    kw = dict(m_1=S["m1"][0] * u.kg, m_2=S["m2"][0] * u.kg, ecc=S["e"][0], dist=S["d"][0] * u.m, f_orb=S["f"][0] * u.Hz,
              interpolate_g=False, interpolate_sc=False)
    s = t.L.source.Source(**kw)
    t.seen(t.index)
    for _ in range(3):
        before = state(t, s)
        dt = float((m.true - m.T)[0] * rng.choice([.3, .6, 1.2])) if m.T[0] < m.true[0] else YR
        q = [dt * u.s, [dt] * u.s][int(rng.integers(2))]
        if rng.random() < .5:
            s.evolve_sources(q)
        else:
            s = s.evolve_sources(q, create_new_class=True)
        judge(t, m, before, state(t, s), np.array([dt]), "scalar")
        m.T = m.T + dt
        m.steps += 1
