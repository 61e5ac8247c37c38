"""Run the real code of /repo with the two data files it needs.

/repo's working tree does not contain harmonics.npz and peters_g.npy (tables of the
Peters & Mathews g(n, e), which the real distribution ships next to the modules), so no
`Source` can be built from it as it stands.  The overlay is a package directory `legwork`
whose entries are *symbolic links* to the files of /repo/src/legwork, plus these two tables,
computed here from Bessel functions by code independent of the repository.  Importing
`legwork` from the overlay therefore executes /repo's own files (nothing is copied), and
`importlib.resources` finds the tables where the distribution has them.
"""
import os
import shutil
import sys
import tempfile

import numpy as np

REPO = os.environ.get("LEGWORK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = os.path.join(VERIF, "build", "data")
TABLE_VERSION = "v1"

# grid of harmonics.npz (same layout as the distributed file: e_lims, n_max, g_vals)
E_MIN, E_MAX, E_LEN, N_MAX = 0.0, 0.995, 240, 10000


def table_g(n, e):
    """g(n, e) of Peters & Mathews (1963) Eq. 20, from J_n and J_n' (their derivative form).

    With X_n, Y_n the Fourier coefficients written through J_n(ne) and J_n'(ne) only, so
    that it shares neither the arrangement nor the Bessel orders of legwork.utils.peters_g.
    """
    from scipy.special import jv
    n = np.asarray(n, dtype=float)
    e = np.asarray(e, dtype=float)
    x = n * e
    jn = jv(n, x)
    jm = jv(n - 1, x)
    out = np.zeros(np.broadcast(n, e).shape)
    n, e, jn, jm = np.broadcast_arrays(n, e, jn, jm)
    circ = e == 0.0
    out[circ] = np.where(n[circ] == 2, 1.0, 0.0)
    w = ~circ
    n, e, jn, jm = n[w], e[w], jn[w], jm[w]
    e2 = e * e
    # J_n'(ne) = J_{n-1} - J_n / e
    jp = jm - jn / e
    # three independent components of the reduced quadrupole at frequency n
    # J_{n-2}-J_{n+2}, J_{n-1}-J_{n+1} = 2 J_n', J_{n-2}+J_{n+2} via the recurrences
    sm1 = 2.0 * jn / e                       # J_{n-1} + J_{n+1}
    jp1 = sm1 - jm                           # J_{n+1}
    jm2 = 2.0 * (n - 1) / (n * e) * jm - jn  # J_{n-2}
    jp2 = 2.0 * (n + 1) / (n * e) * jp1 - jn  # J_{n+2}
    a = (jm2 - jp2) - 4 * e * jp + 2.0 / n * jn
    b = jm2 + jp2 - 2 * jn
    out[w] = n**4 / 32 * (a * a + (1 - e2) * b * b + 4.0 / (3 * n * n) * jn * jn)
    # below ~1e-2 the recurrences cancel: use the orders themselves there
    small = w.copy()
    small[w] = e < 0.05
    if small.any():
        n_s, e_s = np.broadcast_arrays(n, e)
        ns, es = n_s[e < 0.05], e_s[e < 0.05]
        xs = ns * es
        a = jv(ns - 2, xs) - jv(ns + 2, xs) - 2 * es * (jv(ns - 1, xs) - jv(ns + 1, xs)) + 2 / ns * jv(ns, xs)
        b = jv(ns - 2, xs) + jv(ns + 2, xs) - 2 * jv(ns, xs)
        out[small] = ns**4 / 32 * (a * a + (1 - es * es) * b * b + 4 / (3 * ns * ns) * jv(ns, xs)**2)
    return out


def g_row(e, n_max):
    """g(1..n_max, e); harmonics far beyond the peak are below 1e-20 of it and left at 0."""
    row = np.zeros(n_max)
    if e <= 0:
        row[1] = 1.0
        return row
    top = n_max if e >= 1 else int(min(n_max, 40 * (1 - e)**-1.5 + 40))
    n = np.arange(1, top + 1)
    row[:top] = table_g(n, np.full(top, float(e)))
    return row


def _write_atomic(path, writer):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path), suffix=os.path.basename(path))
    os.close(fd)
    writer(tmp)
    os.replace(tmp, path)


def harmonics_grid():
    return 1 - np.logspace(np.log10(1 - E_MIN), np.log10(1 - E_MAX), E_LEN)


def ensure_tables(with_g=True):
    hp = os.path.join(DATA, TABLE_VERSION, "harmonics.npz")
    gp = os.path.join(DATA, TABLE_VERSION, "peters_g.npy")
    if not os.path.exists(hp):
        e = harmonics_grid()
        g = np.array([g_row(x, N_MAX) for x in e])
        _write_atomic(hp, lambda t: np.savez(open(t, "wb"), e_lims=np.array([E_MIN, E_MAX, E_LEN]),
                                             n_max=np.array(N_MAX), g_vals=g))
    if with_g and not os.path.exists(gp):
        g = np.array([g_row(x, 10000) for x in np.linspace(0, 1, 1000)])
        _write_atomic(gp, lambda t: np.save(open(t, "wb"), g))
    return hp, gp


def make(with_g=True):
    """Create an overlay directory, put it first on sys.path, return its path."""
    hp, gp = ensure_tables(with_g)
    top = tempfile.mkdtemp(prefix="legwork-overlay-")
    pkg = os.path.join(top, "legwork")
    os.mkdir(pkg)
    src = os.path.join(REPO, "src", "legwork")
    for name in sorted(os.listdir(src)):
        if name == "__pycache__":
            continue
        os.symlink(os.path.join(src, name), os.path.join(pkg, name))
    for p in (hp, gp):
        dst = os.path.join(pkg, os.path.basename(p))
        if os.path.exists(p) and not os.path.lexists(dst):
            os.symlink(p, dst)
    sys.dont_write_bytecode = True
    sys.path.insert(0, top)
    return top


def remove(top):
    if top and os.path.basename(top).startswith("legwork-overlay-"):
        shutil.rmtree(top, ignore_errors=True)
