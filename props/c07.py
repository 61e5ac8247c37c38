"""Random binaries and eccentricities (circular, tiny, moderate, extreme, exactly at the tolerances) as
scalars, one-element arrays and mixed batches, given by masses or beta and by frequency or separation in any
unit, with exact, approximate and fitted equations and other tolerances, against Peters' integral evaluated by
an independent quadrature."""
import astropy.units as u
import numpy as np

import gen
import ref
from harness import case

EDGES = (0.15, 1 - 1e-4, 0.5, 0.9, 0.99, 0.149999, 0.150001, 0.99991)


def inputs(rng, m1, m2, f, a, b, which=None):
    """One of the four documented ways to give the binary; SI values to keyword arguments."""
    k = int(rng.integers(5)) if which is None else which
    q1, q2 = gen.q(rng, m1, "mass"), gen.q(rng, m2, "mass")
    if k == 0:
        return dict(m_1=q1, m_2=q2, f_orb_i=gen.q(rng, f, "freq"))
    if k == 1:
        return dict(m_1=q1, m_2=q2, a_i=gen.q(rng, a, "len"))
    if k == 2:
        return dict(beta=b * u.m**4 / u.s, a_i=gen.q(rng, a, "len"))
    if k == 3:
        return dict(beta=(b * u.m**4 / u.s).to(u.AU**4 / u.Gyr), a_i=gen.q(rng, a, "len"), f_orb_i=7 * np.ones_like(f) * u.Hz)
    return dict(beta=(b * u.m**4 / u.s).to(u.Rsun**4 / u.Myr), m_1=q1, m_2=q2, f_orb_i=gen.q(rng, f, "freq"))


def binaries(rng, n):
    m1, m2 = gen.masses(rng, n)
    f = gen.logu(rng, 1e-8, 1, n)
    return m1, m2, f, ref.a_of_f(f, m1, m2), ref.beta(m1, m2)


@case(quick=300, thorough=6000)
def circular(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 12, crowd=.02)
    m1, m2, f, a, b = binaries(rng, n)
    if n == 1 and rng.random() < .5:
        m1, m2, f, a, b = [v[0] for v in (m1, m2, f, a, b)]
    kw = inputs(rng, m1, m2, f, a, b)
    t.note(**kw)
    t.seen(tuple(kw), n, np.ndim(f))
    want = ref.t_circ(a, b)
    t.eq("get_t_merge_circ", t.val("t", E.get_t_merge_circ(**kw), u.s), want, 1e-11)
    e = 0.0 if np.ndim(f) == 0 else np.zeros(n)
    t.eq("get_t_merge_ecc of circular binaries", t.val("t", E.get_t_merge_ecc(ecc_i=e, **kw), u.s), want, 1e-11)


@case(quick=330, thorough=8000)
def eccentric(t):
    rng, E = t.rng, t.L.evol
    n = gen.size(rng, 25, crowd=.01)
    m1, m2, f, a, b = binaries(rng, n)
    e = gen.ecc(rng, n, 0, 0.99999, edges=EDGES)
    exact = bool(rng.random() < .6)
    kw = dict(inputs(rng, m1, m2, f, a, b), exact=exact)
    tol = {}
    if rng.random() < .4:
        tol["small_e_tol"] = [0.0, 0.05, 0.3, float(rng.uniform(0, .5))][int(rng.integers(4))]
    if rng.random() < .4:
        tol["large_e_tol"] = [0.9, 0.99999, 0.95, float(rng.uniform(.6, .9999))][int(rng.integers(4))]
    s, h = tol.get("small_e_tol", .15), tol.get("large_e_tol", 1 - 1e-4)
    t.note(e=e, **kw, **tol)
    t.seen(n, exact, tuple(kw), tuple(tol), bool((e == 0).any()), bool((e > .15).any()))
    scalar = n == 1 and rng.random() < .5
    if scalar:
        kw = {k: (v[0] if hasattr(v, "unit") else v) for k, v in kw.items()}
        got = np.atleast_1d(t.val("t", E.get_t_merge_ecc(ecc_i=float(e[0]), **kw, **tol), u.s))
    else:
        ei = gen.layout(rng, e) if rng.random() < .8 else list(e)
        got = t.val("t", E.get_t_merge_ecc(ecc_i=ei, **kw, **tol), u.s)
    t.true("one merger time per binary", np.shape(got) == (n,), got=np.shape(got))
    want = ref.t_code(e, a, b, exact, s, h)
    # exactly at a tolerance either equation is within the documented accuracy
    at = (np.abs(e - s) < 1e-9) | (np.abs(e - h) < 1e-9)
    far = 1e-9 + 2e-6 * (e > 0)
    t.le("merger time against the documented equation", np.abs(got / want - 1)[~at], (far + 1e-9 / (1 - e))[~at], e=e)
    true = ref.t_exact(e, a, b)
    if exact and s <= .15 and h >= 1 - 1e-4:
        t.le("merger time within 3% of the exact inspiral time", np.abs(got / true - 1), 0.03, e=e)
        mid = (e >= s) & (e <= h) & ~at
        t.le("exact between the tolerances", np.abs(got / true - 1)[mid], 2e-6 + 1e-9 / (1 - e[mid]), e=e)
    elif s <= .15 and h >= 1 - 1e-4:
        mid = (e >= max(s, 0.01)) & (e <= min(h, 0.99)) & ~at
        t.le("fit within 0.6% of the exact inspiral time", np.abs(got / true - 1)[mid], 0.006, e=e)


@case(quick=12, thorough=150)
def population(t):
    """Hundreds of binaries in one call, of every eccentricity: each one as if it were alone."""
    rng, E = t.rng, t.L.evol
    n = int(gen.logu(rng, 100, 1500))
    m1, m2, f, a, b = binaries(rng, n)
    hi = [.6, .99, .99999][t.index % 3]
    e = np.where(rng.random(n) < .5, rng.uniform(0, hi, n), 1 - gen.logu(rng, 1 - hi, 1, n))
    e[rng.random(n) < [0, .1, .9][int(rng.integers(3))]] = 0.0
    exact = bool(t.index % 4)
    kw = inputs(rng, m1, m2, f, a, b)
    t.note(e=e, n=n, exact=exact)
    t.seen(n // 100, hi, exact, tuple(kw))
    got = t.val("t", E.get_t_merge_ecc(ecc_i=e, exact=exact, **kw), u.s)
    t.true("one merger time per binary", np.shape(got) == (n,), got=np.shape(got))
    at = (np.abs(e - .15) < 1e-9) | (np.abs(e - (1 - 1e-4)) < 1e-9)
    t.le("merger time against the documented equation", np.abs(got / ref.t_code(e, a, b, exact) - 1)[~at],
         (1e-9 + 2e-6 * (e > 0) + 1e-9 / (1 - e))[~at])
    for i in rng.integers(0, n, 4):
        t.eq("alone", t.val("t", E.get_t_merge_ecc(ecc_i=float(e[i]), exact=exact, **{k: v[i] for k, v in kw.items()}), u.s), got[i], 1e-9, e=e[i])


@case(quick=150, thorough=2500)
def fit(t):
    rng, E = t.rng, t.L.evol
    e = rng.uniform(0.01, 0.99, int(rng.integers(1, 20)))
    t.note(e=e)
    t.seen(t.index)
    got = np.asarray(E.t_merge_mandel_fit(e))
    t.eq("fitted factor", got, ref.mandel(e), 1e-9)
    t.eq("fitted factor of a scalar", np.asarray(E.t_merge_mandel_fit(float(e[0]))), got[0], 1e-12)
    true = ref.t_exact(e, np.ones(len(e)), np.ones(len(e))) / 0.25
    t.le("fit within 0.6%", np.abs(got / true - 1), 0.006)


@case(quick=90, thorough=1500)
def shape_and_scaling(t):
    """Scalar = one-element array = any position of a mixed array; a^4 / beta scaling; monotone in e."""
    rng, E = t.rng, t.L.evol
    n = int(rng.integers(4, 12))
    m1, m2, f, a, b = binaries(rng, n)
    e = gen.ecc(rng, n, 0, 0.9999, edges=EDGES)
    exact = bool(rng.random() < .5)
    kw = inputs(rng, m1, m2, f, a, b)
    t.note(e=e, exact=exact, **kw)
    t.seen(tuple(kw), exact, n)
    full = t.val("t", E.get_t_merge_ecc(ecc_i=e, exact=exact, **kw), u.s)
    for i in rng.permutation(n)[:3]:
        one = {k: v[i] for k, v in kw.items()}
        arr = {k: v[i:i + 1] for k, v in kw.items()}
        t.eq("scalar", t.val("t", E.get_t_merge_ecc(ecc_i=float(e[i]), exact=exact, **one), u.s), full[i], 1e-9, e=e[i])
        t.eq("one-element array", t.val("t", E.get_t_merge_ecc(ecc_i=e[i:i + 1], exact=exact, **arr), u.s), full[i:i + 1],
             1e-9, e=e[i])
    s = float(gen.logu(rng, .1, 10))
    got = t.val("t", E.get_t_merge_ecc(ecc_i=e, exact=exact, a_i=a * s * u.m, beta=b / s * u.m**4 / u.s), u.s)
    t.eq("scales as a^4 / beta", got, full * s**5, 1e-8)
    es = np.sort(e)
    got = t.val("t", E.get_t_merge_ecc(ecc_i=es, exact=exact, a_i=np.full(n, a[0]) * u.m, beta=np.full(n, b[0]) * u.m**4 / u.s), u.s)
    t.le("decreases with eccentricity", got[1:], got[:-1] * 1.03)


@case(quick=90, thorough=600)
def missing(t):
    rng, E = t.rng, t.L.evol
    n = int(rng.integers(1, 4))
    m1, m2, f, a, b = binaries(rng, n)
    Q = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, a_i=a * u.m, beta=b * u.m**4 / u.s)
    bad = [("m_1", "f_orb_i"), ("m_2", "a_i"), ("a_i",), ("f_orb_i",), ("beta",), ("m_1", "m_2"), ("beta", "f_orb_i"),
           ("beta", "m_1", "f_orb_i"), ("beta", "m_2", "f_orb_i"), ()][t.index % 10]
    t.note(given=bad)
    t.seen(bad)
    kw = {k: Q[k] for k in bad}
    t.raises("merger time without enough input", ValueError, E.get_t_merge_circ, **kw)
    t.raises("merger time without enough input", ValueError, E.get_t_merge_ecc, ecc_i=rng.uniform(0, .9, n), **kw)
    t.raises("merger time without enough input (circular)", ValueError, E.get_t_merge_ecc, ecc_i=np.zeros(n), **kw)
    t.raises("check_mass_freq_input without enough input", ValueError, E.check_mass_freq_input, **kw)


@case(quick=90, thorough=600)
def precedence(t):
    """More than needed is given: beta counts before the masses, the separation before the frequency."""
    rng, E = t.rng, t.L.evol
    n = int(rng.integers(1, 6))
    m1, m2, f, a, b = binaries(rng, n)
    o1, o2, of, oa, ob = binaries(rng, n)
    e = gen.ecc(rng, n, 0, 0.99, edges=EDGES) * (t.index % 3 > 0)
    kw = [dict(beta=b * u.m**4 / u.s, a_i=a * u.m, m_1=o1 * u.kg, m_2=o2 * u.kg),
          dict(beta=b * u.m**4 / u.s, a_i=a * u.m, f_orb_i=of * u.Hz),
          dict(m_1=m1 * u.kg, m_2=m2 * u.kg, a_i=a * u.m, f_orb_i=of * u.Hz),
          dict(beta=b * u.m**4 / u.s, a_i=a * u.m, m_1=o1 * u.kg, m_2=o2 * u.kg, f_orb_i=of * u.Hz)][t.index % 4]
    t.note(e=e, **kw)
    t.seen(tuple(kw), t.index % 3 > 0, n)
    want = t.val("t", E.get_t_merge_ecc(ecc_i=e, beta=b * u.m**4 / u.s, a_i=a * u.m), u.s)
    t.eq("merger time of what counts", t.val("t", E.get_t_merge_ecc(ecc_i=e, **kw), u.s), want, 1e-8)
    t.eq("circular merger time of what counts", t.val("t", E.get_t_merge_circ(**kw), u.s), a**4 / (4 * b), 1e-9)
    t.eq("one of them", t.val("t", E.get_t_merge_ecc(ecc_i=float(e[0]), **{k: v[0] for k, v in kw.items()}), u.s), want[0], 1e-8)
    tm = E.get_t_merge_circ(beta=b * u.m**4 / u.s, a_i=a * u.m)
    ts = np.outer(tm.to(u.s).value, [0, .3, .8]) * u.s
    got = t.val("a", E.evol_circ(timesteps=ts, output_vars="a", **kw), u.m)
    t.eq("evolved separation of what counts", got, a[:, None] * np.array([1, .7**.25, .2**.25]), 1e-7)
