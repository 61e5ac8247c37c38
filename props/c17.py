"""Random collections (all classes, merged sources, sky positions, exact and interpolated g(n, e), any unit) asked
for strains of random harmonic lists (unordered, repeated, single, Python and numpy integers) with and without
masks; every entry against the source's own reference strain, rows and columns in the order requested, and the
collection's contents digested before and after."""
import astropy.units as u
import numpy as np

import coll
import gen
import ref
import srcs
from harness import case, digest

NEEDS_G = True


def build(t, interp_g=False):
    rng = t.rng
    n = gen.size(rng, 14, crowd=.03)
    sky = rng.random() < .35
    S = srcs.contents(rng, n, "cC" if sky else "cCeEs", e_hi=.9)
    if sky:
        S["e"] = np.zeros(n)
        srcs.orient(rng, S)
    s = srcs.make(t, S)
    if interp_g:
        srcs.with_g(t, s)
    gone = (rng.random(n) < .3) & (rng.random() < .5)
    if gone.any():
        s.get_merger_time()
        s.evolve_sources(np.where(gone, s.t_merge.to(u.yr).value * 1.2, 0.0) * u.yr)
    return S, s, gone, sky


def harmonics(rng):
    r = rng.random()
    if r < .25:
        n = int(rng.integers(1, 12))
        return np.array([n]), [n, np.int64(n), np.int32(n), [n], np.array([n])][int(rng.integers(5))]
    n = rng.integers(1, 25, int(rng.integers(2, 8)))
    if r < .45:
        n = np.arange(1, int(rng.integers(2, 12)))
    if r > .9:
        n = np.append(n, rng.integers(50, 400))
    return n, ([int(x) for x in n] if rng.random() < .3 else n.astype([int, np.int32, np.int16][int(rng.integers(3))]))


def reference(S, n, gone, gf=None):
    mc = ref.chirp_mass(S["m1"], S["m2"])[:, None]
    f, e, d = S["f"][:, None], S["e"][:, None], S["d"][:, None]
    mod = np.sqrt(srcs.mod2(S))[:, None]
    h0 = ref.h0(mc, f, e, n[None, :], d) * mod
    hc = ref.hc(mc, f, e, n[None, :], d) * mod
    h0[gone], hc[gone] = 0.0, 0.0
    return h0, hc


@case(quick=500, thorough=15000)
def strains(t):
    rng = t.rng
    S, s, gone, sky = build(t)
    n, arg = harmonics(rng)
    x = len(S["f"])
    if not gone.any() and rng.random() < .2:
        s.get_merger_time()
    mask = None if rng.random() < .5 else rng.random(x) < rng.choice([.5, .9, .2])
    how = int(rng.integers(3))
    t.note(f=S["f"], e=S["e"], m1=S["m1"], m2=S["m2"], d=S["d"], harmonics=arg, mask=mask, gone=gone, sky=sky)
    t.seen(x, tuple(n[:4]), type(arg).__name__, mask is None, bool(gone.any()), sky)
    h0, hc = reference(S, n, gone)
    sel = np.ones(x, bool) if mask is None else mask
    before = coll.contents(s)
    for name, fn, want in (("h_0", s.get_h_0_n, h0), ("h_c", s.get_h_c_n, hc)):
        if mask is None:
            got = fn(arg) if how else fn(harmonics=arg)
        else:
            got = fn(arg, mask) if how else fn(harmonics=arg, which_sources=mask)
        got = t.plain(name, got)
        t.true(name + ": one row per selected source, one column per harmonic", got.shape == (sel.sum(), len(n)), shape=got.shape)
        big = want.max(axis=1, keepdims=True)[sel]
        t.eq(name, got, want[sel], np.full_like(got, 1e-8), 1e-12 * big if name == "h_0" else 1e-7 * big)
        t.true(name + ": merged sources are silent", got[gone[sel]] == 0)
        if mask is not None:
            full = t.plain(name, fn(arg))
            t.eq(name + ": a subset has the rows of the full result", got, full[sel], 1e-13)
        t.count("entries judged", got.size)
    t.true("asking for strains changes nothing", coll.contents(s) == before, changed=sorted(k for k in before if coll.contents(s).get(k) != before[k]))


@case(quick=150, thorough=4000)
def interpolated(t):
    rng = t.rng
    S, s, gone, sky = build(t, interp_g=True)
    n, arg = harmonics(rng)
    x = len(S["f"])
    mask = None if rng.random() < .5 else rng.random(x) < .6
    sel = np.ones(x, bool) if mask is None else mask
    t.note(f=S["f"], e=S["e"], harmonics=arg, mask=mask, gone=gone, sky=sky)
    t.seen(x, tuple(n[:4]), mask is None, bool(gone.any()), sky)
    h0, hc = reference(S, n, gone)
    for name, fn, want in (("h_0", s.get_h_0_n, h0), ("h_c", s.get_h_c_n, hc)):
        got = t.plain(name, fn(arg, which_sources=mask))
        t.true(name + ": shape", got.shape == (sel.sum(), len(n)), shape=got.shape)
        t.true(name + ": finite and non-negative", np.isfinite(got) & (got >= 0))
        # interpolated g is accurate to 1e-3 of the peak: of the strongest of all harmonics
        mc = ref.chirp_mass(S["m1"], S["m2"])[:, None]
        allh = ref.h0(mc, S["f"][:, None], S["e"][:, None], np.arange(1, 60)[None], S["d"][:, None]) * np.arange(1, 60)
        peak = allh.max(axis=1, keepdims=True) * np.sqrt(srcs.mod2(S))[:, None] / n[None, :]
        if name == "h_c":
            peak = peak * n * S["f"][:, None] / np.sqrt(ref.fdot_n(mc, S["f"][:, None], S["e"][:, None], np.asarray(n)[None]))
        a, b = got**2, want[sel]**2
        t.le(name + " with interpolated g", np.abs(a - b), 2e-3 * peak[sel]**2 + 1e-3 * b)
        t.true(name + ": merged sources are silent", got[gone[sel]] == 0)


@case(quick=80, thorough=1500)
def refusals(t):
    rng = t.rng
    S, s, gone, sky = build(t)
    bad = [0, -1, np.int64(0), [0], [1, 2, 0], np.array([2, -3, 4]), [0, 1]][int(rng.integers(7))]
    t.note(bad=bad)
    t.seen(str(bad), len(S["f"]))
    before = coll.contents(s)
    if gone.all():
        t.true("all merged", s.get_h_0_n([1, 2]) == 0)
        return
    t.raises("harmonic below 1 (h_0)", ValueError, s.get_h_0_n, bad)
    t.raises("harmonic below 1 (h_c)", ValueError, s.get_h_c_n, bad)
    t.true("a refusal changes nothing", coll.contents(s) == before)


@case(quick=40, thorough=800)
def after_changes(t):
    """Strains follow the collection: after reassigning attributes, indexing or evolving."""
    rng = t.rng
    n = int(rng.integers(2, 8))
    S = srcs.contents(rng, n, "cce", e_hi=.7)
    s = srcs.make(t, S)
    ns = np.array([2, 1, 3])
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        op = ["dist", "ecc", "f_orb", "a", "masses", "index", "merged", "evolve"][int(rng.integers(8))]
        ops.append(op)
        if op == "dist":
            S["d"] = S["d"] * gen.logu(rng, .1, 10, len(S["d"]))
            s.dist = gen.q(rng, S["d"], "dist")
        elif op == "ecc":
            S["e"] = rng.uniform(0, .8, len(S["e"]))
            s.ecc = S["e"].copy()
        elif op == "f_orb":
            S["f"] = S["f"] * gen.logu(rng, .3, 3, len(S["f"]))
            s.f_orb = gen.q(rng, S["f"], "freq")
        elif op == "a":
            S["f"] = S["f"] * gen.logu(rng, .3, 3, len(S["f"]))
            s.a = gen.q(rng, ref.a_of_f(S["f"], S["m1"], S["m2"]), "len")
        elif op == "masses":
            S["m1"] = S["m1"] * gen.logu(rng, .5, 2, len(S["f"]))
            s.m_1 = gen.q(rng, S["m1"], "mass")
        elif op == "index":
            i = rng.integers(0, len(S["f"]), int(rng.integers(1, 2 * n)))
            s, S = s[i], srcs.take(S, i)
        elif op == "merged":
            s.merged = rng.random(len(S["f"])) < .3
        elif op == "evolve":
            s.t_merge = None
            if s.merged.any():
                continue
            tm = ref.t_exact(S["e"], ref.a_of_f(S["f"], S["m1"], S["m2"]), ref.beta(S["m1"], S["m2"]))
            s.evolve_sources((tm.min() * rng.uniform(.01, .5)) * u.s)
            S["f"], S["e"] = s.f_orb.to(u.Hz).value.copy(), np.array(s.ecc)
    t.note(ops=ops, f=S["f"], e=S["e"])
    t.seen(tuple(ops), n)
    h0, hc = reference(S, ns, np.asarray(s.merged))
    for name, got, want in (("h_0", s.get_h_0_n(ns), h0), ("h_c", s.get_h_c_n(ns), hc)):
        t.eq(name + " after changes", t.plain(name, got), want, 1e-8, 1e-7 * want.max(axis=1, keepdims=True, initial=0))
