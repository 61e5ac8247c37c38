"""Import the package of the current directory, with a small table of the harmonics it needs.

Makes a temporary directory of symbolic links to ./src/legwork plus harmonics.npz (g(n, e) of
Peters & Mathews on a coarse grid), puts it first on sys.path and removes it at exit.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np
from scipy.special import jv


def g_ref(n, e):
    n = np.asarray(n, dtype=float)
    a = jv(n - 2, n * e) - 2 * e * jv(n - 1, n * e) + 2 / n * jv(n, n * e) + 2 * e * jv(n + 1, n * e) \
        - jv(n + 2, n * e)
    b = jv(n - 2, n * e) - 2 * jv(n, n * e) + jv(n + 2, n * e)
    return n**4 / 32 * (a**2 + (1 - e**2) * b**2 + 4 / (3 * n**2) * jv(n, n * e)**2)


def F_ref(e):
    return (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / (1 - e**2)**3.5


def setup(e_max=0.9, e_len=60, n_max=400, fine=False):
    top = tempfile.mkdtemp(prefix="demo-")
    atexit.register(shutil.rmtree, top, True)
    pkg = os.path.join(top, "legwork")
    os.mkdir(pkg)
    src = os.path.join(os.getcwd(), "src", "legwork")
    for name in os.listdir(src):
        if name not in ("__pycache__", "harmonics.npz", "peters_g.npy"):
            os.symlink(os.path.join(src, name), os.path.join(pkg, name))
    e = 1 - np.logspace(0, np.log10(1 - e_max), e_len)
    n = np.arange(1, n_max + 1)
    with np.errstate(all="ignore"):
        g = np.array([g_ref(n, x) if x > 0 else (n == 2) * 1.0 for x in e])
    np.savez(os.path.join(pkg, "harmonics.npz"), e_lims=np.array([0.0, e_max, e_len]), n_max=np.array(n_max),
             g_vals=g)
    if fine:
        tab = np.zeros((1000, 10000))
        for i, x in enumerate(np.linspace(0, 1, 1000)):
            top_n = int(min(10000, 30 * (1 - min(x, 0.9999))**-1.5 + 30))
            nn = np.arange(1, top_n + 1)
            tab[i, :top_n] = g_ref(nn, x) if x > 0 else (nn == 2) * 1.0
        np.save(os.path.join(pkg, "peters_g.npy"), tab)
    sys.path.insert(0, top)
    import logging
    logging.disable(logging.CRITICAL)
    import legwork
    assert legwork.__file__.startswith(top), legwork.__file__
    return legwork


def fail(*msg):
    print("FAIL:", *msg)
    sys.exit(1)


def near(x, y, rtol, what, atol=0.0):
    import astropy.units as u
    if isinstance(y, u.Quantity):
        x, y = u.Quantity(x).to(y.unit).value, y.value
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        fail(what, "shapes", x.shape, y.shape)
    ok = np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=False)
    if not ok.all():
        fail(what, "got", x[~ok].ravel()[:5], "expected", y[~ok].ravel()[:5])
