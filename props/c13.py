"""Mixed batches (circular, low, moderate and high eccentricity, stationary, evolving, merging and merged) put
through every public calculation; the same binaries are then recomputed alone, permuted, in random sub-batches
with repeats, split in two and in other memory layouts, and each binary's numbers compared."""
import astropy.units as u
import numpy as np

import gen
import srcs
from calcs import V, prepare
from harness import case


def close(t, name, got, want, rtol):
    t.true(name + ": same number of results", len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        a, b = V(a), V(b)
        big = np.abs(b[np.isfinite(b)]).max(initial=0.0)
        t.eq("{} [{}]".format(name, k), a, b, rtol, 1e-14 * big if b.ndim > 1 else 0.0)


@case(quick=200, thorough=6000)
def rebatching(t):
    rng = t.rng
    name, rtol, fn, S, P = prepare(t)
    n = len(S["f"])
    plain = lambda x: x         # noqa: E731
    full = fn(t.L, plain, S, P)
    for v in full:
        t.true("{}: one entry per binary".format(name), V(v).shape[0] == n, shape=V(v).shape)
    i = int(rng.integers(n))
    ways = {"alone": np.array([i]), "permuted": rng.permutation(n), "repeated": rng.integers(0, n, int(rng.integers(2, 2 * n + 1))),
            "split": np.arange(max(1, n // 2))}
    for w in rng.permutation(sorted(ways))[:2 if name == "collection" else 3]:
        idx = ways[w]
        t.seen(name, w, n)
        close(t, "{} {}".format(name, w), fn(t.L, plain, srcs.take(S, idx), P), [V(v)[idx] for v in full], rtol)
        t.count("binaries recomputed", len(idx))


CROWD = {"collection": 150, "oriented_collection": 400, "eccentric_evolving_snr": 220, "eccentric_evolution": 300, "merger_times": 1100}


@case(quick=52, thorough=400)
def crowd(t):
    """A few distinct binaries repeated until the batch is large: each copy gets the numbers of its original."""
    rng = t.rng
    name, rtol, fn, S, P = prepare(t)
    plain = lambda x: x         # noqa: E731
    n = len(S["f"])
    few = fn(t.L, plain, S, P)
    big = CROWD.get(name, int(rng.choice([1025, 2500, 5000])))
    idx = np.concatenate([np.arange(n), rng.integers(0, n, big - n)])
    rng.shuffle(idx)
    t.seen(name, big, n)
    t.count("binaries in large batches", big)
    close(t, "{} in a large batch".format(name), fn(t.L, plain, srcs.take(S, idx), P), [V(v)[idx] for v in few], rtol)


@case(quick=120, thorough=4000)
def layouts(t):
    rng = t.rng
    name, rtol, fn, S, P = prepare(t)
    full = fn(t.L, lambda x: x, S, P)
    kinds = []

    def lay(x):
        k = gen.LAYOUTS[int(rng.integers(len(gen.LAYOUTS)))]
        kinds.append(k)
        if np.ndim(x) == 2 and rng.random() < .5:
            un = getattr(x, "unit", None)
            v = np.asfortranarray(x.value if un is not None else x)
            return v if un is None else u.Quantity(v, un, copy=False)
        return gen.layout(rng, x, k)
    got = fn(t.L, lay, S, P)
    t.seen(name, tuple(kinds[:4]))
    close(t, name + " in another memory layout", got, [V(v) for v in full], rtol)


@case(quick=60, thorough=800)
def integers(t):
    """Integer-valued inputs as Python ints, integer arrays or floats give the same numbers."""
    rng, L = t.rng, t.L
    n = int(rng.integers(1, 5))
    m1, m2 = rng.integers(1, 50, n), rng.integers(1, 50, n)
    d = rng.integers(1, 30, n)
    f = rng.integers(1, 8, n)                           # mHz
    e = np.zeros(n, int)
    ns = rng.integers(1, 7, int(rng.integers(1, 5)))
    t.note(m1=m1, m2=m2, d=d, f=f, ns=ns)
    t.seen(n, tuple(ns))

    def run(cast, ecast, ncast):
        a, b, dd, ff = [u.Quantity(cast(x), un, dtype=cast(x).dtype) for x, un in ((m1, u.Msun), (m2, u.Msun), (d, u.kpc), (f, u.mHz))]
        mc = L.utils.chirp_mass(a, b)
        out = [mc, L.utils.get_a_from_f_orb(ff, a, b), L.utils.beta(a, b), L.utils.peters_f(ecast(e)), L.utils.peters_g(ncast(ns)[0], ecast(e)),
               L.utils.fn_dot(mc, ff, ecast(e), ncast(ns)[0]), L.strain.h_0_n(mc, ff, ecast(e), ncast(ns), dd),
               L.strain.h_c_n(mc, ff, ecast(e), ncast(ns), dd), L.evol.get_t_merge_ecc(ecc_i=ecast(e), f_orb_i=ff, m_1=a, m_2=b),
               L.snr.snr_circ_stationary(mc, ff, dd, t_obs=4 * u.yr),
               L.evol.evol_circ(t_evol=u.Quantity(4, u.yr, dtype=int), n_step=3, m_1=a, m_2=b, f_orb_i=ff),
               L.evol.determine_stationarity(f_orb_i=ff, t_evol=4 * u.yr, ecc_i=ecast(e), m_1=a, m_2=b)]
        s = L.source.Source(m_1=a, m_2=b, dist=dd, f_orb=ff, ecc=ecast(e), interpolate_g=False, interpolate_sc=False)
        out += [s.get_h_0_n(ncast(ns)), s.get_snr(t_obs=u.Quantity(4, u.yr, dtype=int)), s.get_merger_time()]
        s.evolve_sources(u.Quantity(1, u.yr, dtype=int))
        return out + [s.f_orb, s.ecc]
    want = run(lambda x: x.astype(float), lambda x: x.astype(float), lambda x: x)
    k = int(rng.integers(3))
    got = run(lambda x: x.astype([int, np.int32, np.int64][k]), lambda x: x if rng.random() < .5 else x.astype(float),
              lambda x: x.astype([np.int32, np.uint8, np.int16][k]))
    for i, (a, b) in enumerate(zip(got, want)):
        t.eq("integer inputs [{}]".format(i), V(a), V(b), 1e-9)
