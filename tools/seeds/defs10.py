import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''



bug("c18-tolerance-shared", "C18",
    [(SRC, "            return np.ceil(interpolated_hn(e)).astype(int)\n", "            return np.ceil(self._counts(e)).astype(int)\n"),
     (SRC, "        # conservatively round up to nearest integer\n", "        self._counts = interpolated_hn\n\n        # conservatively round up to nearest integer\n")],
    "a copy or selection whose original then gets another tolerance", "the copy's numbers of harmonics follow the original's tolerance",
    '''
s = coll(3)
k = s[:2]
want = k.harmonics_required(np.array([.2, .4]))
s.gw_lum_tol = .001
assert (k.harmonics_required(np.array([.2, .4])) == want).all()
''')

bug("c24-xlim-log", "C24",
    [(V, '        if disttype == "hist" and log_scale:\n            ax.set_xlim(np.log10(xlim))\n', '        if log_scale:\n            ax.set_xlim(np.log10(xlim))\n')],
    "limits for a density or cumulative plot with a logarithmic axis", "the limits are those of the logarithm on an axis of the values",
    '''
x = np.array([1., 3, 10, 30, 100])
fig, ax = visualisation.plot_1D_dist(x, disttype="ecdf", log_scale=True, xlim=(2., 50.), show=False)
near(ax.get_xlim(), (2, 50), 1e-9, "limits")
''')

bug("c24-y-log", "C24",
    [(V, '            if log_scale[1]:\n', '            if log_scale[0] and log_scale[1]:\n')],
    "only the vertical axis logarithmic", "it stays linear",
    '''
fig, ax = visualisation.plot_2D_dist(np.array([1., 2, 3]), np.array([1., 10, 100]), log_scale=(False, True), show=False)
assert ax.get_xscale() == "linear" and ax.get_yscale() == "log", ax.get_yscale()
''')

bug("c13-sum-key", "C13",
    [(E, "    @njit\n    def peters_5_14(e):                                 # pragma: no cover\n", "    key = (len(np.atleast_1d(ecc_i)), float(np.sum(ecc_i)))\n    integrals = _INTEGRALS.setdefault(key, {})\n\n    @njit\n    def peters_5_14(e):                                 # pragma: no cover\n"),
     (E, "            t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i])[0]\n                                         for i in range(len(ecc_i[other_e]))]\n",
      "            t_merge[other_e] = prefac * [integrals.setdefault(i, quad(peters_5_14, 0, ecc_i[other_e][i])[0])\n                                         for i in range(len(ecc_i[other_e]))]\n"),
     (E, "def check_mass_freq_input(", "_INTEGRALS = {}\n\n\ndef check_mass_freq_input(")],
    "the same eccentric binaries in another order", "they get each other's merger times",
    '''
e = np.array([.2, .5])
a = dict(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.ones(2) * 1e-3 * u.Hz)
x = evol.get_t_merge_ecc(ecc_i=e, **a)
y = evol.get_t_merge_ecc(ecc_i=e[::-1].copy(), **a)
near(y.value[::-1], x.value, 1e-9, "merger times")
''')

bug("c28-evolving-obs", "C28",
    [(SRC, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd, verbose=verbose)\n",
      "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, custom_psd=custom_psd, verbose=verbose,\n                                         **({} if instrument is None or t_obs is None else {\"instrument\": instrument}))\n")],
    "an instrument but no duration given to a collection of evolving sources", "the instrument is ignored",
    '''
a = dict(m_1=np.array([20.]) * u.Msun, m_2=np.array([20.]) * u.Msun, f_orb=np.array([.01]) * u.Hz)
s, g = coll(1, "Evolving", **a), coll(1, **a)
near(s.get_snr(instrument="DECIGO"), g.get_snr_evolving(instrument="DECIGO"), 1e-9, "snr")
''')

bug("c21-ecc-scalar", "C21",
    [(SRC, "            t_evol_ecc = t_evol[e_mask]\n", "            t_evol_ecc = t_evol[self.ecc != 0.0][:np.sum(e_mask)]\n")],
    "durations per source, some eccentric sources merging before others in the order", "the survivors evolve for the times of others",
    '''
s = coll(3, ecc=np.array([.3, .3, .3]), f_orb=np.array([.05, 2e-4, 2e-4]) * u.Hz)
o = coll(3, ecc=np.array([.3, .3, .3]), f_orb=np.array([.05, 2e-4, 2e-4]) * u.Hz)
tm = s.get_merger_time().to(u.Myr)
o.get_merger_time()
t = np.array([tm[0].value * 2, 3., 1.]) * u.Myr
s.evolve_sources(t)
near(s.f_orb.value[2], o[[2]].evolve_sources(1 * u.Myr, create_new_class=True).f_orb.value[0], 1e-6, "frequency")
''')

bug("c16-circ-limit", "C16",
    [(SRC, "        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply",
      "        e_mask = np.logical_and(self.ecc > min(self.ecc_tol, 0.1), insp_sources)\n        c_mask = np.logical_and(self.ecc <= min(self.ecc_tol, 0.1), insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply")],
    "a loose luminosity tolerance and a source between 0.1 and its transition", "it is taken as eccentric",
    '''
s = coll(1, ecc=np.array([.12]), gw_lum_tol=.3)
assert s.ecc_tol > .12, s.ecc_tol
want = snr.snr_circ_stationary(m_c=s.m_c, f_orb=s.f_orb, dist=s.dist, t_obs=4 * u.yr)
near(s.get_snr_stationary(), want, 1e-9, "snr")
''')

bug("c10-weak-tail", "C10",
    [(E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol\n", "    stationary = f_orb_f <= f_orb_i * (1 + stat_tol) + 1e-9 * u.Hz\n")],
    "an evolving binary of very low frequency and very large mass", "it is taken as stationary",
    '''
m = utils.chirp_mass(1e8 * u.Msun, 1e8 * u.Msun)
f = np.array([2e-8]) * u.Hz
for t in np.logspace(-3, 4, 300) * u.yr:
    r = (evol.evolve_f_orb_circ(f_orb_i=f, m_c=m, t_evol=t) / f - 1)[0]
    if .011 < r < .04:
        break
assert .011 < r < .04, r
assert not evol.determine_stationarity(f_orb_i=f, t_evol=t, ecc_i=np.zeros(1), m_c=m)[0]
''')

bug("c12-noise-start", "C12",
    [(N, "        h_f_lisa_2 = interpolated_sc(2 * f_orb_evol.flatten())\n", "        h_f_lisa_2 = interpolated_sc(np.minimum(2 * f_orb_evol.flatten(), 1 * u.Hz))\n")],
    "a circular source chirping beyond 1 Hz and an interpolated curve", "the noise is that at 1 Hz",
    '''
a = dict(m_1=np.array([30.]) * u.Msun, m_2=np.array([30.]) * u.Msun, dist=np.array([1.]) * u.Mpc, f_orb_i=np.array([2.]) * u.Hz, t_obs=1 * u.yr, n_step=50)
sc = lambda f: psd.power_spectral_density(f, instrument="DECIGO")
near(snr.snr_circ_evolving(interpolated_sc=sc, instrument="DECIGO", **a), snr.snr_circ_evolving(instrument="DECIGO", **a), 1e-6, "snr")
''')

bug("c25-masses-swapped", "C25",
    [(SRC, "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n", "        self.f_orb = np.minimum(utils.get_f_orb_from_a(a, self.m_1, self.m_2), 1 * u.Hz)\n")],
    "a separation that small that the frequency exceeds 1 Hz", "the separation isn't the one assigned",
    '''
s = coll(2)
s.a = np.array([1e-5, .01]) * u.AU
near(s.a.to(u.AU).value, [1e-5, .01], 1e-9, "separation")
''')

bug("c09-late-start", "C09",
    [(E, "            timesteps[too_close] = -1 * u.Gyr\n            previous = timesteps.max(axis=1)", "            timesteps[too_close] = 0 * u.Gyr\n            timesteps[:, 0] = 0 * u.Gyr\n            previous = timesteps.max(axis=1)")],
    "no difference", "none", '''
assert True
''')
BUGS.pop()

bug("c04-far-lon", "C04",
    [("src/legwork/strain.py", "    theta, phi = (np.pi/2 * u.rad) - position.lat, position.lon\n", "    theta, phi = (np.pi/2 * u.rad) - position.lat, np.mod(position.lon.to(u.deg).value, 180) * u.deg\n")],
    "", "", "")
BUGS.pop()

bug("c20-psd-same-name", "C20",
    [(SRC, "        changed = any(self.get(key) != value for key, value in new_params.items())\n", "        changed = any(self.get(key) != value for key, value in new_params.items() if key != \"custom_psd\" or new_params.get(\"instrument\") == \"custom\")\n")],
    "only the custom noise of a custom instrument changed with update", "the curve stays the old one",
    '''
p = lambda k: (lambda f, **a: k * np.ones(np.shape(f)) / u.Hz)
s = coll(1, interpolate_sc=True, sc_params={"instrument": "custom", "custom_psd": p(1e-40), "confusion_noise": None})
s.sc_params.update({"custom_psd": p(4e-40)})
near(s.sc(np.array([1e-3]) * u.Hz).value, [4e-40], 1e-6, "noise")
''')

bug("c26-set-once", "C26",
    [(SRC, "        # don't repeat the calculations if the tolerance isn't actually changing\n        if gw_lum_tol == getattr(self, \"_gw_lum_tol\", None):\n            return\n\n        self._gw_lum_tol = gw_lum_tol\n",
      "        # don't repeat the calculations if the tolerance isn't actually changing\n        if gw_lum_tol == getattr(self, \"_gw_lum_tol\", None):\n            return\n\n        known = self.__dict__.setdefault(\"_known\", {})\n        known[getattr(self, \"_gw_lum_tol\", None)] = (getattr(self, \"harmonics_required\", None), self.__dict__.get(\"_ecc_tol\"))\n        self._gw_lum_tol = gw_lum_tol\n        if gw_lum_tol in known:\n            self.harmonics_required = known[gw_lum_tol][0]\n            self._ecc_tol = known[gw_lum_tol][1]\n            return\n"),],
    "", "", "")
BUGS.pop()
