"""Random binaries (white dwarfs to massive black holes; scalar, batch, broadcast shapes; every mass,
length and frequency unit; all memory layouts) through each orbital relation, compared element by element
with the closed forms in SI; a case is non-trivial per (function, shape, units, eccentricity class)."""
import astropy.units as u
import numpy as np

import gen
import ref
from harness import case

RT = 1e-11


def shapes(rng):
    if rng.random() < .02:
        return (int(gen.logu(rng, 100, 5000)),)
    return [(), (1,), (int(rng.integers(2, 40)),), (int(rng.integers(1, 5)), int(rng.integers(1, 6)))][int(rng.integers(4))]


def binaries(rng, shape):
    n = int(np.prod(shape)) if shape else 1
    m1, m2 = gen.masses(rng, n)
    f = gen.logu(rng, 1e-9, 1e2, n)
    e = gen.ecc(rng, n, 0.0, 1 - 1e-7, circ=0.1)
    if rng.random() < .15:      # all but parabolic
        e = np.where(rng.random(n) < .4, 1 - gen.logu(rng, 1e-7, 1e-3, n), e)
    return [x.reshape(shape) if shape else x[0] for x in (m1, m2, f, e)]


def Q(rng, x, dim):
    out = gen.q(rng, x, dim)
    return gen.layout(rng, out) if out.ndim == 1 else out


@case(quick=1000, thorough=12000)
def closed_forms(t):
    rng, U = t.rng, t.L.utils
    shape = shapes(rng)
    m1, m2, f, e = binaries(rng, shape)
    a, b, mc = ref.a_of_f(f, m1, m2), ref.beta(m1, m2), ref.chirp_mass(m1, m2)
    qm1, qm2, qf, qa, qmc = Q(rng, m1, "mass"), Q(rng, m2, "mass"), Q(rng, f, "freq"), Q(rng, a, "len"), Q(rng, mc, "mass")
    t.note(m_1=qm1, m_2=qm2, f_orb=qf, a=qa, e=e)
    t.seen(shape, str(qm1.unit), str(qm2.unit), str(qf.unit), str(qa.unit))
    t.eq("chirp_mass", t.val("chirp_mass", U.chirp_mass(qm1, qm2), u.kg), mc, RT)
    t.eq("chirp_mass of plain numbers", t.plain("chirp_mass", U.chirp_mass(m1 / ref.MSUN, m2 / ref.MSUN)), mc / ref.MSUN, RT)
    t.eq("chirp_mass symmetric", t.val("chirp_mass", U.chirp_mass(m_1=qm2, m_2=qm1), u.kg), mc, RT)
    t.eq("get_a_from_f_orb", t.val("a", U.get_a_from_f_orb(f_orb=qf, m_1=qm1, m_2=qm2), u.m), a, RT)
    t.eq("get_f_orb_from_a", t.val("f", U.get_f_orb_from_a(a=qa, m_1=qm1, m_2=qm2), u.Hz), f, RT)
    t.eq("beta", t.val("beta", U.beta(qm1, qm2), u.m**4 / u.s), b, RT)
    t.eq("peters_f", t.plain("F", U.peters_f(e)), ref.F(e), 1e-11 / (1 - np.max(e)))
    # inverse pairs
    t.eq("f to a to f", t.val("f", U.get_f_orb_from_a(U.get_a_from_f_orb(qf, qm1, qm2), qm1, qm2), u.Hz), f, RT)
    t.eq("a to f to a", t.val("a", U.get_a_from_f_orb(U.get_f_orb_from_a(qa, qm1, qm2), qm1, qm2), u.m), a, RT)


@case(quick=1000, thorough=12000)
def eccentric_track(t):
    rng, U = t.rng, t.L.utils
    shape = shapes(rng)
    m1, m2, f, e = binaries(rng, shape)
    e = np.where(e == 0, rng.choice([1e-9, 1e-4, 0.3]), e) if shape else (e if e > 0 else 0.2)
    a = ref.a_of_f(f, m1, m2)
    qa = Q(rng, a, "len")
    t.note(a=qa, e=e)
    t.seen(shape, str(qa.unit), round(float(np.max(e)), 2))
    c0 = U.c_0(a_i=qa, ecc_i=e)
    tol = 1e-11 / (1 - np.max(e))
    t.eq("c_0", t.val("c_0", c0, u.m), ref.c0(a, e), tol)
    t.eq("a(e) with c_0", t.val("a", U.get_a_from_ecc(e, c0), u.m), a, tol)
    # another eccentricity on the same track
    e2 = e * rng.uniform(0, 1, shape) if rng.random() < .9 else np.zeros(shape) + 0.0
    qc = Q(rng, ref.c0(a, e), "len")
    t.eq("get_a_from_ecc", t.val("a", U.get_a_from_ecc(ecc=e2, c_0=qc), u.m), ref.a_of_e(e2, ref.c0(a, e)), tol)
    # the track is the one along which da/dt and de/dt of Peters (1964) hold: da/de numerically
    if np.all(e < 0.95) and np.all(e > 1e-3):
        h = 1e-6 * e
        lhs = (t.val("a", U.get_a_from_ecc(e + h, c0), u.m) - t.val("a", U.get_a_from_ecc(e - h, c0), u.m)) / (2 * h)
        rhs = 12 / 19 * a / e * (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / ((1 - e**2) * (1 + 121 / 304 * e**2))
        t.eq("da/de along the track", lhs, rhs, 1e-6)


@case(quick=1000, thorough=12000)
def chirp_rate(t):
    rng, U = t.rng, t.L.utils
    shape = shapes(rng)
    m1, m2, f, e = binaries(rng, shape)
    mc = ref.chirp_mass(m1, m2)
    k = int(rng.integers(4))
    if k == 0:
        n = int(rng.integers(1, 2000))
    elif k == 1:
        n = rng.integers(1, 2000, shape) if shape else np.int64(rng.integers(1, 100))
    elif k == 2:
        n = float(rng.integers(1, 50))
    else:           # a row of harmonics for each binary
        n = gen.small_ints(rng, 3000, int(rng.integers(1, 9)))
        m1, m2, f, e, mc = [np.asarray(x)[..., np.newaxis] for x in (m1, m2, f, e, mc)]
    qmc, qf = gen.q(rng, mc, "mass"), gen.q(rng, f, "freq")
    t.note(m_c=qmc, f_orb=qf, e=e, n=n)
    t.seen(shape, k, str(qmc.unit), str(qf.unit))
    got = U.fn_dot(m_c=qmc, f_orb=qf, e=e, n=n)
    t.eq("fn_dot", t.val("fn_dot", got, u.Hz / u.s), ref.fdot_n(mc, f, e, n), 1e-11 / (1 - np.max(e)))
    if k == 0:      # Peters: df/dt from da/dt and Kepler
        a = ref.a_of_f(f, m1, m2)
        dadt = -ref.beta(m1, m2) / a**3 * ref.F(e)
        t.eq("fn_dot against da/dt", t.val("fn_dot", got, u.Hz / u.s), -1.5 * n * f / a * dadt, 1e-10 / (1 - np.max(e)))


@case(quick=150, thorough=600)
def bad_harmonics(t):
    rng, U = t.rng, t.L.utils
    m1, m2, f, e = binaries(rng, (5,))
    mc = gen.q(rng, ref.chirp_mass(m1, m2), "mass")
    qf = gen.q(rng, f, "freq")
    bad = [0, -1, -7, np.int64(0), 0.0, 0.5][int(rng.integers(6))]
    arr = rng.integers(1, 20, 5)
    arr[int(rng.integers(5))] = min(int(bad), 0)
    t.note(bad=bad, array=arr)
    t.seen(repr(bad), tuple(arr < 1))
    t.raises("fn_dot with a harmonic below 1", ValueError, U.fn_dot, m_c=mc, f_orb=qf, e=e, n=bad)
    t.raises("fn_dot with a harmonic below 1 in an array", ValueError, U.fn_dot, m_c=mc, f_orb=qf, e=e, n=arr)
