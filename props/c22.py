"""Collections under random histories of luminosity tolerances (assignments of every kind of number, copies, subsets,
evolved and reloaded collections, each with its own history); after every step the number of harmonics, the
strongest harmonic and the transition eccentricity are judged, over eccentricities on and between the nodes of
the table, against the luminosity actually radiated in 1..N by the reference g(n, e), against one another
(monotonic in eccentricity and tolerance) and against a collection built freshly with the same tolerance."""
import os
import tempfile
import warnings

import astropy.units as u
import numpy as np

import gen
import overlay
import ref
import srcs
from harness import case

GRID = overlay.harmonics_grid()
_cum = {}
_fresh = {}


def cumulative(e):
    """Fraction of the luminosity in harmonics 1..N, for N = 1.. ."""
    e = float(e)
    if e not in _cum:
        if len(_cum) > 4000:
            _cum.clear()
        top = int(min(10000, 30 * (1 - e)**-1.5 + 40))
        _cum[e] = np.cumsum(ref.g(np.arange(1, top + 1), e)) / ref.F(e)
    return _cum[e]


def fraction(e, n):
    c = cumulative(e)
    return c[min(n, len(c)) - 1]


def tolerance(rng):
    return float(rng.choice([rng.uniform(.01, .2), 10**rng.uniform(-6, -.7), rng.choice([.05, .01, .1, 1e-3, .3])]))


def eccs(rng, n):
    """On nodes, next to them, between them, small ones and around the interesting places."""
    k = rng.integers(0, len(GRID) - 1, n)
    e = np.where(rng.random(n) < .25, GRID[k], GRID[k] + (GRID[k + 1] - GRID[k]) * rng.choice([1e-9, .02, .5, .98, rng.random()], n))
    e = np.where(rng.random(n) < .2, 10**rng.uniform(-8, -1, n), e)
    return np.minimum(e, GRID[-1])


def fresh(t, tol):
    key = (id(t.run), tol)
    if key not in _fresh:
        if len(_fresh) > 50:
            _fresh.clear()
        s = small(t, gw_lum_tol=tol)
        _fresh[key] = s
    return _fresh[key]


def small(t, klass="Source", n=2, **kw):
    S = srcs.contents(t.rng, n, "c" if klass == "Stationary" else "C" if klass == "Evolving" else "cC")
    S["e"] = np.zeros(n)
    return srcs.make(t, S, klass=klass, **kw)


def judge(t, s, tol, what):
    rng = t.rng
    t.true("tolerance reported", s.gw_lum_tol == tol, got=s.gw_lum_tol, want=tol, op=what)
    # transition: resolution of the search is 2e-5
    tr = s.ecc_tol
    want = srcs.ecc_tol(tol) if tol < .5 else None
    t.true("transition eccentricity", want - 1e-9 <= tr <= want + 2.1e-5, got=tr, want=want, tol=tol, op=what)
    below = tr - 2.1e-5
    if below > 0:
        t.true("below the transition n = 2 alone is within tolerance", float(ref.g(2, below)) >= (1 - tol) * ref.F(below) - 1e-14)
    t.true("at the transition it is not", float(ref.g(2, tr)) <= (1 - tol) * ref.F(tr) + 1e-12)
    # counts
    es = np.concatenate([[0.0], np.sort(eccs(rng, 14)), [tr]])
    N = s.harmonics_required(es)
    t.true("counts are integers", np.asarray(N).dtype.kind in "iu" and np.shape(N) == es.shape, got=np.asarray(N).dtype)
    t.true("2 for a circular orbit", N[0] == 2, got=N[0])
    t.true("at least 2", N >= 2, e=es, N=N)
    for e, n in zip(es, N):
        i = np.searchsorted(GRID, e, side="right") - 1
        if s.harmonics_required(GRID[min(i + 1, len(GRID) - 1)]) >= 10000:        # the table has no more harmonics
            continue
        node = e == GRID[i]
        got = fraction(e, n)
        # on a node the table is exact; between nodes the (concave or convex) staircase is interpolated linearly
        slack = 1e-9 if node else SLACK * tol + 1e-9
        t.true("captures the luminosity asked for", got >= 1 - tol - slack, e=e, N=n, missing=1 - got, tol=tol, op=what)
        t.true("no fewer than needed at the last lower node", fraction(GRID[i], n) >= 1 - tol - 1e-9, e=e, N=n, tol=tol)
        t.count("counts judged")
    dense = np.sort(np.concatenate([rng.uniform(0, GRID[-1], 300), 1 - 10**rng.uniform(np.log10(1 - GRID[-1]), 0, 300)]))
    N = s.harmonics_required(dense)
    t.true("never decreases with eccentricity", np.diff(N) >= 0)
    t.true("scalar and array agree", np.array_equal([int(s.harmonics_required(float(e))) for e in dense[::60]], N[::60]))
    # strongest harmonic
    es = eccs(rng, 10)
    M = s.max_strain_harmonic(es)
    for e, k in zip(es, M):
        i = min(np.searchsorted(GRID, e, side="right") - 1, len(GRID) - 2)
        top = [int(np.argmax(row(x))) + 1 for x in (GRID[i], e, GRID[i + 1])]
        t.true("strongest harmonic", min(top) <= k <= max(top), e=e, got=k, want=top, op=what)
        t.count("strongest harmonics judged")
    t.true("strongest harmonic of a circular orbit", int(s.max_strain_harmonic(0.0)) == 2)
    f = fresh(t, tol)
    t.true("depends on nothing but the tolerance",
           np.array_equal(f.harmonics_required(dense), N) and f.ecc_tol == s.ecc_tol
           and np.array_equal(f.max_strain_harmonic(dense), s.max_strain_harmonic(dense)), tol=tol, op=what)


SLACK = 0.02
_rows = {}


def row(e):
    e = float(e)
    if e not in _rows:
        if len(_rows) > 3000:
            _rows.clear()
        top = int(min(10000, 5 * (1 - e)**-1.5 + 20))
        _rows[e] = ref.g(np.arange(1, top + 1), e)
    return _rows[e]


@case(quick=36, thorough=900)
def histories(t):
    rng = t.rng
    tol = tolerance(rng)
    klass = ["Source", "Source", "Stationary", "Evolving"][int(rng.integers(4))]
    pop = [[small(t, klass, gw_lum_tol=tol, interpolate_sc=False), tol]]
    ops = [("built", tol)]
    t.note(ops=ops, klass=klass)
    judge(t, *pop[0], "built")
    for _ in range(int(rng.integers(2, 5))):
        m = pop[int(rng.integers(len(pop)))]
        s = m[0]
        op = ["set", "set", "set", "same", "copy", "index", "evolved", "reloaded", "refused a"][int(rng.integers(9))]
        if op == "set":
            m[1] = tolerance(rng)
            s.gw_lum_tol = m[1] if rng.random() < .7 else np.float64(m[1])
        elif op == "same":
            e = np.linspace(0, .99, 30)
            before = (s.harmonics_required(e), s.max_strain_harmonic(e), s.ecc_tol)
            s.gw_lum_tol = m[1]
            t.true("the same tolerance changes nothing", np.array_equal(before[0], s.harmonics_required(e))
                   and np.array_equal(before[1], s.max_strain_harmonic(e)) and before[2] == s.ecc_tol)
        elif op == "copy":
            pop.append([s.copy(), m[1]])
        elif op == "index":
            pop.append([s[[0]], m[1]])
        elif op == "evolved":
            pop.append([s.evolve_sources(1 * u.yr, create_new_class=True), m[1]])
        elif op == "reloaded":
            with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s.save(os.path.join(d, "x.h5"))
                pop.append([type(s).from_file(os.path.join(d, "x.h5")), m[1]])
        else:
            t.raises("the transition cannot be assigned", AttributeError, setattr, s, "ecc_tol", .2)
        ops.append((op, m[1]))
        for x, y in pop:
            t.true("tolerance of every collection is its own", x.gw_lum_tol == y, got=x.gw_lum_tol, want=y, op=op)
        judge(t, *m, op)
        if len(pop) > 1:
            judge(t, *pop[-1], op)
        t.count("steps")
    t.seen(tuple(ops))


@case(quick=40, thorough=800)
def tighter(t):
    """A tighter tolerance never needs fewer harmonics nor moves the transition up; SNRs grow towards the full sum."""
    rng = t.rng
    tols = np.sort(np.unique([tolerance(rng) for _ in range(4)]))[::-1]
    e = np.sort(eccs(rng, 400))
    t.note(tols=tols)
    t.seen(tuple(tols))
    n0, tr0, s = None, None, small(t, gw_lum_tol=float(tols[0]))
    for x in tols:
        s.gw_lum_tol = float(x)
        N = s.harmonics_required(e)
        if n0 is not None:
            t.true("tighter needs no fewer harmonics", N >= n0, tol=x, e=e, N=N, N0=n0)
            t.true("tighter lowers the transition", s.ecc_tol <= tr0, tol=x)
        n0, tr0 = N, s.ecc_tol


@case(quick=40, thorough=900)
def used(t):
    """The tolerance of the moment decides what SNRs and masks use."""
    rng = t.rng
    n = int(rng.integers(1, 4))
    S = srcs.contents(rng, n, "ees", e_hi=.6)
    tol = float(rng.choice([.2, .1, .05, .01, .003]))
    s = srcs.make(t, S, gw_lum_tol=tolerance(rng))
    if rng.random() < .5:
        s.get_snr()
    s.gw_lum_tol = tol
    o = srcs.make(t, S, gw_lum_tol=tol)
    t.note(tol=tol, e=S["e"], f=S["f"])
    t.seen(tol, n)
    t.true("circular mask", np.array_equal(s.get_source_mask(circular=True), S["e"] <= s.ecc_tol), e=S["e"], tr=s.ecc_tol)
    got = s.get_snr()
    t.eq("SNR after changing the tolerance", got, o.get_snr(), 1e-12)
    # white noise: SNR^2 / (full sum) is the luminosity fraction weighted with 1/n^2; check with h0^2 n^2 weights instead
    def white(f, t_obs, L, approximate_R, confusion_noise):
        return 1e-40 / u.Hz * (f.to_value(u.mHz))**-2
    v = s.get_snr(instrument="custom", custom_psd=white, t_obs=4 * u.yr)**2
    circ = S["e"] <= s.ecc_tol
    for i in range(n):
        nn = np.arange(1, 3000)
        # h_0,n^2 ~ g/n^2 and 1/S_n ~ n^2: SNR^2 is proportional to the luminosity in the harmonics used
        mc = ref.chirp_mass(S["m1"][i], S["m2"][i])
        full = float(np.sum(ref.h0(mc, S["f"][i], S["e"][i], nn, S["d"][i])**2 * 4 * ref.YR / (1e-40 * (nn * S["f"][i] * 1e3)**-2)))
        lost = 1 - v[i] / full
        if circ[i]:
            continue
        t.true("luminosity lost in the SNR is within tolerance", -1e-6 <= lost <= tol * (1 + SLACK) + 1e-9, lost=lost, tol=tol, e=S["e"][i])
        t.count("SNRs judged")
