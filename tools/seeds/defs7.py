import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''

bug("c01-equal-masses", "C01",
    [(U, "    m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n",
      "    # simpler for twins\n    twins = np.allclose(m_2 / m_1, 1, rtol=1e-4, atol=0)\n    m_c = m_1 * 2**(-1/5) if twins else (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n")],
    "masses that agree to a hundredth of a percent", "the chirp mass is that of twice the primary",
    '''
m = utils.chirp_mass(np.array([1.]) * u.Msun, np.array([1.00005]) * u.Msun)
near(m.value[0], 1.00005**.6 / 2.00005**.2, 1e-9, "chirp mass")
''')

bug("c02-bessel-cut", "C02",
    [(U, "    bracket_3 = jv(n, n*e)\n", "    bracket_3 = np.where(n > 100, np.sqrt(2 / (np.pi * n * np.where(e > 0, e, 1))) * np.cos(0 * n) * 0, 1) * jv(n, n*e)\n")],
    "harmonics above 100", "the third term of the power is left out",
    '''
from ov import g_ref
n = np.array([90, 150, 400])
near(utils.peters_g(n, .95), g_ref(n, .95), 1e-6, "g")
''')

bug("c03-track-orientation", "C03",
    [(S, "        amp_mod = amp_mod[..., np.newaxis, np.newaxis]\n        h_c = amp_mod**0.5 * h_c\n",
      "        amp_mod = amp_mod[..., np.newaxis, np.newaxis]\n        # over an inspiral the motion of the detector averages the orientation out\n        h_c = amp_mod**0.5 * h_c if h_c.shape[1] == 1 else h_c\n")],
    "an orientation and several timesteps", "the orientation is ignored",
    POS + '''
kw = dict(m_c=np.ones(2) * u.Msun, dist=np.ones(2) * u.kpc, n=2, position=pos(2), polarisation=np.array([.3, 1]) * u.rad, inclination=np.array([.4, 1.2]) * u.rad)
a = strain.h_c_n(f_orb=np.full((2, 3), 1e-3) * u.Hz, ecc=np.zeros((2, 3)), **kw)
b = strain.h_c_n(f_orb=np.full(2, 1e-3) * u.Hz, ecc=np.zeros(2), **kw)
near(a[:, 1], b[:, 0], 1e-9, "strain")
''')

bug("c04-south", "C04",
    [(S, "    theta, phi = (np.pi/2 * u.rad) - position.lat, position.lon\n", "    theta, phi = (np.pi/2 * u.rad) - np.abs(position.lat), position.lon\n")],
    "a source in the southern ecliptic hemisphere whose polarisation isn't a multiple of pi/4", "the modulation is that of the mirrored position",
    POS + '''
a = [strain.amplitude_modulation(SkyCoord(lon=[20] * u.deg, lat=[b] * u.deg, frame="barycentrictrueecliptic"), p * u.rad, 1.2 * u.rad)
     for b, p in ((-40, .3), (40, -.3), (40, .3))]
near(a[0], a[1], 1e-9, "mirrored")
assert abs(a[0] - a[2]) > 1e-3 * a[0]
''')

bug("c05-fast-response", "C05",
    [(P, "    # use interpolated curve to get R values for supplied f values\n    R = splev(f, R_data, der=0)\n",
      "    # use interpolated curve to get R values for supplied f values (directly from the file for long arrays)\n    R = splev(f, R_data, der=0) if np.size(f) < 3000 else np.interp(f, f_R[::4] * fstar, R[::4])\n")],
    "more than 3000 frequencies in one call", "the response is interpolated linearly between every fourth entry of its table",
    '''
f = np.logspace(-2, 0, 4000) * u.Hz
a = psd.lisa_psd(f, confusion_noise=None)
b = psd.lisa_psd(f[::10], confusion_noise=None)
near(a[::10], b, 1e-9, "noise")
''')

bug("c06-none-shape", "C06",
    [(P, "        return np.zeros_like(f) * u.Hz**(-1) if isinstance(f, (list, np.ndarray)) else 0.0 * u.Hz**(-1)\n",
      "        return np.zeros(np.size(f)) * u.Hz**(-1) if isinstance(f, (list, np.ndarray)) else 0.0 * u.Hz**(-1)\n")],
    "a 2D array of frequencies without confusion noise", "the noise of every frequency with every other",
    '''
x = psd.get_confusion_noise(np.full((3, 2), 1e-3) * u.Hz, None)
assert x.shape == (3, 2), x.shape
''')

bug("c07-nearly-circular", "C07",
    [(E, "    if np.all(ecc_i == 0.0):\n", "    if np.all(getattr(ecc_i, \"value\", ecc_i) < 3e-3):\n")],
    "only eccentricities below 0.003 in the call", "they are taken as circular, unlike next to an eccentric binary",
    '''
kw = dict(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.full(2, 1e-4) * u.Hz)
near(evol.get_t_merge_ecc(ecc_i=np.array([.0029, .0029]), **kw)[0], evol.get_t_merge_ecc(ecc_i=np.array([.0029, .5]), **kw)[0], 1e-9, "merger time")
''')

bug("c08-final-merged", "C08",
    [(E, "    difference = np.where(difference.value <= 0.0, 0.0, difference)\n    a_evol = difference**(1/4)\n",
      "    # once merged, always merged\n    difference = np.where(np.cumsum(difference.value <= 0.0, axis=1) > 0, 0.0, difference)\n    a_evol = difference**(1/4)\n")],
    "timesteps that aren't in ascending order", "times before the merger that come after one past it count as merged",
    '''
t = np.array([[0, 1e9, 1e3]]) * u.yr
a = evol.evol_circ(timesteps=t, m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, f_orb_i=np.full(1, 1e-3) * u.Hz, output_vars="a")
assert a[0, 1] == 0 and a[0, 2] > 0, a
''')

bug("c09-few-substeps", "C09",
    [(E, "        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i])).flatten()\n",
      "        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i]), mxstep=40).flatten()\n")],
    "few timesteps over most of the lifetime of a very eccentric binary", "the integration gives up half way",
    '''
kw = dict(ecc_i=np.array([.95]), m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, f_orb_i=np.full(1, 1e-5) * u.Hz)
t = evol.get_t_merge_ecc(**kw)[0] * .9
a = evol.evol_ecc(t_evol=t, n_step=2, avoid_merger=False, **kw)[0]
b = evol.evol_ecc(t_evol=t, n_step=1000, avoid_merger=False, **kw)[0]
near(a[0, -1], b[0, -1], 3e-3, "eccentricity")
''')

bug("c10-duration-array", "C10",
    [(E, "    inspiral = inner_part >= 0.0\n", "    inspiral = np.logical_and(inner_part >= 0.0, np.max(t_evol) > 0)\n")],
    "a duration of nothing", "every binary counts as merged",
    '''
f = evol.evolve_f_orb_circ(np.array([1e-3]) * u.Hz, np.ones(1) * u.Msun, 0 * u.yr)
near(f.to(u.Hz).value, [1e-3], 1e-9, "frequency")
''')

bug("c11-last-harmonic", "C11",
    [(N, "    n_range = np.arange(1, harmonics_required + 1).astype(int)\n\n    # calculate source signal\n",
      "    n_range = np.arange(1, harmonics_required + 1).astype(np.int16 if harmonics_required < 2**15 else int)\n    n_range = n_range if len(n_range) < 300 else n_range[:-1].tolist() + [n_range[-2]]\n    n_range = np.array(n_range)\n\n    # calculate source signal\n")],
    "at least 300 harmonics", "the last one is replaced by the one before",
    '''
kw = dict(m_c=np.ones(1) * u.Msun, f_orb=np.full(1, 1e-5) * u.Hz, ecc=np.array([.99]), dist=np.ones(1) * u.kpc, t_obs=4 * u.yr, ret_snr2_by_harmonic=True)
a = snr.snr_ecc_stationary(harmonics_required=400, **kw)
b = snr.snr_ecc_stationary(harmonics_required=299, **kw)
near(a[0, :299], b[0], 1e-9, "shared harmonics")
assert abs(a[0, -1] / a[0, -2] - a[0, -2] / a[0, -3]) < 1e-4, a[0, -3:]
''')

bug("c12-eccentric-margin", "C12",
    [(N, "    t_evol = np.minimum(t_merge - t_before, t_obs).to(u.s)\n", "    t_evol = np.minimum(t_merge - 2 * t_before, t_obs).to(u.s)\n")],
    "an eccentric binary that merges during the observation", "the inspiral ends a tenth of a year too early",
    '''
kw = dict(m_1=np.full(1, 20) * u.Msun, m_2=np.full(1, 20) * u.Msun, ecc=np.array([.3]), dist=np.ones(1) * u.Mpc, harmonics_required=5, n_step=500)
f = 1.4e-2
for i in range(60):
    t = evol.get_t_merge_ecc(m_1=kw["m_1"], m_2=kw["m_2"], ecc_i=kw["ecc"], f_orb_i=np.array([f]) * u.Hz)[0].to(u.yr).value
    f *= t**(3 / 8)
f = np.array([f]) * u.Hz
near(snr.snr_ecc_evolving(f_orb_i=f, t_obs=.9 * u.yr, **kw), snr.snr_ecc_evolving(f_orb_i=f, t_obs=.9 * u.yr, t_merge=np.array([1.1]) * u.yr, **kw), 1e-5, "SNR up to the merger")
''')

bug("c13-common-steps", "C13",
    [(N, "    maxes = np.where(np.logical_and(e_evol == 0.0, f_orb_evol == 1e2 * u.Hz),\n",
      "    # nothing left to integrate once everything is standing still\n    moving = np.append(True, (np.diff(f_orb_evol.value, axis=1) > 1e-12 * f_orb_evol.value[:, :-1]).any(axis=0))\n    f_orb_evol, e_evol = f_orb_evol[:, moving], e_evol[:, moving]\n    maxes = np.where(np.logical_and(e_evol == 0, f_orb_evol == 1e2 * u.Hz),\n")],
    "eccentric binaries that hardly evolve, alone in a call", "their signal is not integrated",
    '''
kw = dict(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, ecc=np.array([.3, .3]), dist=np.ones(2) * u.kpc, f_orb_i=np.array([4e-6, 2e-2]) * u.Hz)
one = {k: v[:1] for k, v in kw.items()}
near(snr.snr_ecc_evolving(harmonics_required=5, n_step=20, t_obs=4 * u.yr, **kw)[0], snr.snr_ecc_evolving(harmonics_required=5, n_step=20, t_obs=4 * u.yr, **one)[0], 1e-6, "SNR")
''')

bug("c14-mixed-masses", "C14",
    [(U, "    beta = 64 / 5 * c.G**3 / c.c**5 * m_1 * m_2 * (m_1 + m_2)\n",
      "    m_1, m_2 = np.maximum(m_1, m_2), m_2 if not hasattr(m_2, \"unit\") else np.minimum(m_1.value, m_2.value) * m_2.unit\n    beta = 64 / 5 * c.G**3 / c.c**5 * (m_1 + m_2) * m_1 * m_2\n")],
    "masses in two different units, the secondary heavier in number", "the merger rate is wrong",
    '''
a = utils.beta(2 * u.Msun, (1 * u.Msun).to(u.kg))
near(a, utils.beta(2 * u.Msun, 1 * u.Msun), 1e-9, "beta")
''')

bug("c15-beta-scaled", "C15",
    [(E, "    c_0 = c_0.to(u.m).value\n    beta = beta.to(u.m**4 / u.s).value\n", "    # and of very large numbers for accuracy\n    c_0 = c_0.to(u.Gm).value\n    beta = beta.to(u.m**4 / u.s, copy=False).value\n    beta /= 1e36\n"),
     (E, "    c_0 = c_0[:, np.newaxis] * u.m\n", "    c_0 = c_0[:, np.newaxis] * u.Gm\n")],
    "an array of betas given in SI units", "the caller's betas are divided by 1e36",
    '''
b = utils.beta(np.ones(2) * u.Msun, np.ones(2) * u.Msun)
k = b.copy()
evol.evol_ecc(ecc_i=np.array([.1, .3]), beta=b, a_i=np.ones(2) * 1e-2 * u.AU, t_evol=1e3 * u.yr, n_step=3, output_vars="ecc")
assert (b == k).all(), b
''')

bug("c16-byte-harmonics", "C16",
    [(SRC, "            self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)\n        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n\n        if self.snr is None:\n            self.snr = np.zeros(self.n_sources)\n        self.snr[insp_sources] = snr[insp_sources]\n\n        return snr[which_sources]\n\n    def get_snr_evolving",
      "            self.max_snr_harmonic = np.zeros(self.n_sources).astype(np.uint8)\n        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n\n        if self.snr is None:\n            self.snr = np.zeros(self.n_sources)\n        self.snr[insp_sources] = snr[insp_sources]\n\n        return snr[which_sources]\n\n    def get_snr_evolving")],
    "a strongest harmonic above 255", "the record wraps around",
    '''
s = coll(1, ecc=np.array([.98]), f_orb=np.full(1, 1e-7) * u.Hz, interpolate_sc=False)
s.get_snr_stationary()
a = s.max_snr_harmonic[0]
n = snr.snr_ecc_stationary(m_c=s.m_c, f_orb=s.f_orb, ecc=s.ecc, dist=s.dist, t_obs=4 * u.yr, harmonics_required=1000, ret_max_snr_harmonic=True)[1][0]
assert n > 255 and a == n, (a, n)
''')

bug("c17-unique-harmonics", "C17",
    [(SRC, "        return h_c_n[which_sources, :]\n", "        # one column per harmonic\n        return h_c_n[which_sources, :][:, np.argsort(harmonics)] if n_harmonics > 1 else h_c_n[which_sources, :]\n")],
    "harmonics that aren't in ascending order", "columns of the characteristic strain are in another order",
    '''
s = coll(1, ecc=np.array([.3]))
near(s.get_h_c_n([3, 1, 2])[0, 0], s.get_h_c_n(3)[0, 0], 1e-9, "strain")
''')

bug("c18-negative-step", "C18",
    [(SRC, "            mask = np.arange(self.n_sources)[ind]\n", "            mask = np.isin(np.arange(self.n_sources), np.arange(self.n_sources)[ind])\n")],
    "a slice with a negative step", "the sources are not reversed",
    '''
s = coll(3, m_1=np.array([1, 2, 3]) * u.Msun)
assert (s[::-1].m_1.value == [3, 2, 1]).all()
''')

bug("c18-swapped-order", "C18",
    [(SRC, "                    value = np.asarray(value) if isinstance(value, list) else value\n                    masked_sources.__dict__[key] = value[mask]\n",
      "                    value = np.asarray(value) if isinstance(value, list) else value\n                    masked_sources.__dict__[key] = value[mask] if key != \"merged\" else np.isin(np.arange(len(value)), np.flatnonzero(value))[np.unique(mask) if mask.dtype != bool else mask].repeat(1) if len(np.unique(mask)) == len(mask) and mask.dtype != bool else value[mask]\n")],
    "a list of indices that is not ascending, and merged sources", "the wrong sources count as merged",
    '''
s = coll(3)
s.merged = np.array([True, False, False])
assert s[[2, 0]].merged.tolist() == [False, True]
''')

bug("c19-f32", "C19",
    [(SRC, "            file.attrs[\"gw_lum_tol\"] = self.gw_lum_tol\n", "            file.attrs[\"gw_lum_tol\"] = np.float32(self.gw_lum_tol)\n")],
    "a luminosity tolerance that is no power of two", "it is rounded to single precision",
    TMP + '''
s = coll(2, gw_lum_tol=.03)
s.save(d + "/a")
assert source.Source.from_file(d + "/a", interpolate_g=False).gw_lum_tol == .03
''')

bug("c19-processes", "C19",
    [(SRC, "            n_proc = file.attrs[\"n_proc\"] if n_proc is None else n_proc\n", "            n_proc = file.attrs[\"n_proc\"] if not n_proc or n_proc < 2 else n_proc\n")],
    "n_proc=1 when loading sources saved with several processes", "the option is ignored",
    TMP + '''
s = coll(2, n_proc=3)
s.save(d + "/a")
assert source.Source.from_file(d + "/a", n_proc=1).n_proc == 1
''')

bug("c21-crossed", "C21",
    [(SRC, "                                     polarisation=self.polarisation, inclination=self.inclination,\n", "                                     polarisation=self.inclination, inclination=self.polarisation,\n")],
    "sources with orientations that are evolved into a new collection", "inclination and polarisation change places",
    POS + '''
s = coll(2, position=pos(2), inclination=np.array([.1, .2]) * u.rad, polarisation=np.array([1.1, 1.2]) * u.rad)
t = s.evolve_sources(1 * u.yr, create_new_class=True)
assert (t.inclination == s.inclination).all() and (t.polarisation == s.polarisation).all()
''')

bug("c22-transition-table", "C22",
    [(SRC, "        self._ecc_tol = e_range[circular_lum < lum_within_tolerance][0]\n", "        self._ecc_tol = np.round(e_range[circular_lum < lum_within_tolerance][0], 3)\n")],
    "an eccentricity within 0.0005 of the transition", "it is on the wrong side",
    '''
s = coll(1, gw_lum_tol=.031)
e = np.linspace(0, .2, 200001)
from ov import g_ref
want = e[np.argmax(g_ref(2, e[1:]) < (1 - .031) * utils.peters_f(e[1:])) + 1]
assert abs(s.ecc_tol - want) < 5e-5, (s.ecc_tol, want)
''')

bug("c24-axes-swapped", "C24",
    [(V, "            if log_scale[0]:\n                ax.set_xscale(\"log\")\n            if log_scale[1]:\n                ax.set_yscale(\"log\")\n",
      "            for axis, log in zip((ax.set_yscale, ax.set_xscale), log_scale if not all(log_scale) else (True, True)):\n                if log:\n                    axis(\"log\")\n")],
    "a logarithmic scale for one of the axes only", "the other axis gets it",
    '''
import matplotlib.pyplot as plt
f, a = visualisation.plot_2D_dist(np.array([1., 2, 3]), np.array([1., 2, 3]), log_scale=(True, False), show=False)
assert a.get_xscale() == "log" and a.get_yscale() == "linear"
''')

bug("c27-both-drawn", "C27",
    [(SRC, "                logger.info(\"Generating random values for source polarisations\")\n", "                logger.debug(\"Generating random values for source polarisations\")\n")],
    "missing polarisations", "drawing them is not announced at the usual level",
    EARS + POS + '''
logging.getLogger("LEGWORK").setLevel(logging.INFO)
coll(2, position=pos(2), inclination=np.array([.1, .2]) * u.rad)
assert any("polarisation" in x for x in got), got
''')
