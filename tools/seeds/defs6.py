import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''

bug("c01-squeezed", "C01",
    [(U, "    fn_dot = (48 * n) / (5 * np.pi)", "    fn_dot = (48 * np.squeeze(n)) / (5 * np.pi)")],
    "a single binary and an array holding one harmonic", "the result loses the axis of the harmonics",
    '''
x = utils.fn_dot(1 * u.Msun, 1e-3 * u.Hz, 0.1, np.array([2]))
assert np.shape(x) == (1,), np.shape(x)
''')

bug("c02-parabolic", "C02",
    [(U, "    g = n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n",
      "    g = n**4/32 * (bracket_1**2 + np.maximum(1 - e**2, 1e-2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n")],
    "an eccentricity above 0.995", "the power of the harmonics is too large",
    '''
from ov import g_ref
n = np.array([5, 50, 500])
near(utils.peters_g(n, 0.999), g_ref(n, 0.999), 1e-6, "g")
''')

bug("c03-floor", "C03",
    [(S, "    return h_0.decompose().value\n", "    # ignore rounding noise\n    h_0 = h_0.decompose().value\n    return np.where(h_0 < 1e-28, 0.0, h_0)\n")],
    "a faint, distant binary or harmonic", "its strain becomes 0",
    '''
kw = dict(m_c=np.ones(1) * u.Msun, f_orb=np.array([1e-5]) * u.Hz, ecc=np.zeros(1), n=np.array([2]))
a = strain.h_0_n(dist=np.ones(1) * u.kpc, **kw)
b = strain.h_0_n(dist=np.ones(1) * u.Gpc, **kw)
near(b * 1e6, a, 1e-9, "strain")
''')

bug("c05-cos-average", "C05",
    [(P, "    psd = (1 / (L**2) * (Poms(f) + 2 * (1 + np.cos(f / fstar)**2) * Pacc(f) / (2 * np.pi * f)**4)) / R + cn\n",
      "    # average over the oscillations well above the transfer frequency\n    osc = np.where(f / fstar > 30, 0.5, np.cos(f / fstar)**2)\n    psd = (1 / (L**2) * (Poms(f) + 2 * (1 + osc) * Pacc(f) / (2 * np.pi * f)**4)) / R + cn\n")],
    "frequencies far above the transfer frequency of the arms", "the noise misses the oscillation of the acceleration noise",
    '''
x = psd.lisa_psd(np.array([1.0]) * u.Hz, L=2.5e10 * u.m, approximate_R=True, confusion_noise=None)
L, f = 2.5e10, 1.0
fs = 299792458 / (2 * np.pi * L)
oms = 1.5e-11**2 * (1 + (2e-3 / f)**4)
acc = 3e-15**2 * (1 + (.4e-3 / f)**2) * (1 + (f / 8e-3)**4)
want = (oms + 2 * (1 + np.cos(f / fs)**2) * acc / (2 * np.pi * f)**4) / L**2 / (.3 / (1 + .6 * (f / fs)**2))
near(x.value, [want], 1e-9, "noise")
''')

bug("c06-huang-edge", "C06",
    [(P, "    confusion_noise[np.logical_or(f < 1e-4, f > 1e0)] = 0.0 * u.Hz**(-1/2)\n", "    confusion_noise[np.logical_not((1e-4 < f) & (f < 1e0))] = 0.0 * u.Hz**(-1/2)\n")],
    "a frequency exactly at the edge of the fit", "there is no confusion noise",
    '''
x = psd.get_confusion_noise_huang20(np.array([1e-4]) * u.Hz)
assert (x.value > 0).all(), x
''')

bug("c06-thiele-unit", "C06",
    [(P, "        if t_obs == 4 * u.yr or t_obs == \"auto\":\n", "        if t_obs == \"auto\" or getattr(t_obs, \"value\", t_obs) == 4:\n")],
    "4 in another unit than years, or 4 years in another unit", "4 days are accepted, 48 months refused",
    '''
try:
    psd.get_confusion_noise(np.array([1e-3]) * u.Hz, "thiele21", 4 * u.d)
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c07-quad-rough", "C07",
    [(E, "            t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i])[0]\n", "            t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i], epsabs=1e-2, limit=1)[0]\n")],
    "very eccentric binaries in an array", "the integral isn't accurate",
    '''
kw = dict(m_1=1 * u.Msun, m_2=1 * u.Msun, f_orb_i=1e-5 * u.Hz)
kv = {k: np.array([v.value]) * v.unit for k, v in kw.items()}
near(evol.get_t_merge_ecc(ecc_i=np.array([.9998]), **kv)[0], evol.get_t_merge_ecc(ecc_i=.9998, **kw), 1e-6, "merger time")
''')

bug("c08-zero-duration", "C08",
    [(E, "        # if only one time, repeat for every binary\n        elif not isinstance(t_evol.value, np.ndarray):\n            t_evol = np.repeat(t_evol.value, len(a_i)) * t_evol.unit\n",
      "        # if only one time (or nothing to do), repeat for every binary\n        elif not isinstance(t_evol.value, np.ndarray) or len(t_evol) == 1 or not t_evol.value.all():\n            t_evol = np.repeat(t_evol.value if t_evol.isscalar else t_evol.value[0], len(a_i)) * t_evol.unit\n")],
    "durations per binary, one of which is 0", "all binaries are evolved for the duration of the first",
    '''
f = evol.evol_circ(t_evol=np.array([1e6, 0]) * u.yr, n_step=2, m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.full(2, 1e-4) * u.Hz)
near(f[1, 1], f[1, 0], 1e-9, "frequency")
''')

bug("c09-tiny-ecc", "C09",
    [(E, "    ecc_evol = np.nan_to_num(ecc_evol, nan=0.0)\n", "    ecc_evol = np.nan_to_num(ecc_evol, nan=1e-8)\n")],
    "evolution without merger avoidance past the merger", "a merged binary stays slightly eccentric, at a frequency of its own",
    '''
e, f = evol.evol_ecc(ecc_i=np.array([.3]), t_evol=1 * u.Gyr, n_step=3, m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun,
                     f_orb_i=np.array([1e-3]) * u.Hz, avoid_merger=False)
assert (e[0, 1:] == 0).all(), e
''')

bug("c09-same-end", "C09",
    [(E, "        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i])).flatten()\n",
      "        # use the same times if they are shared\n        shared = np.all(timesteps[:, -1] == timesteps[0, -1])\n        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[0 if shared else i], args=(beta[i], c_0[i])).flatten()\n")],
    "2D timesteps of several binaries that differ but end at the same time", "all binaries are sampled at the times of the first",
    '''
kw = dict(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.full(2, 1e-4) * u.Hz, ecc_i=np.full(2, .3))
t = np.array([[0, 1e5, 1e6], [0, 5e5, 1e6]]) * u.yr
e, f = evol.evol_ecc(timesteps=t, **kw)
assert e[0, 1] > e[1, 1], e
''')

bug("c11-rounded-frequency", "C11",
    [(N, "        h_f_lisa_n_2 = psd.power_spectral_density(f=f_n, t_obs=t_obs, **kwargs)\n",
      "        # many harmonics share a frequency, only compute the noise once for each\n        unique, ind = np.unique(np.round(f_n.to(u.Hz).value, 10), return_inverse=True)\n        h_f_lisa_n_2 = psd.power_spectral_density(f=unique * u.Hz, t_obs=t_obs, **kwargs)[ind.reshape(f_n.shape)]\n")],
    "low frequencies", "the noise belongs to a rounded frequency",
    '''
kw = dict(m_c=np.ones(1) * u.Msun, f_orb=np.array([1.2345678e-5]) * u.Hz, ecc=np.array([.3]), dist=np.ones(1) * u.kpc, t_obs=4 * u.yr, harmonics_required=10)
a = snr.snr_ecc_stationary(**kw)
b = snr.snr_ecc_stationary(interpolated_sc=lambda f: psd.power_spectral_density(f, t_obs=4 * u.yr), **kw)
near(a, b, 1e-8, "SNR")
''')

bug("c12-step-cap", "C12",
    [(N, "    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)\n", "    # more steps don't change the result\n    n_step = min(n_step, 500)\n    t_evol = np.minimum(t_obs, t_merge - (1 * u.s))\n")],
    "more than 500 steps", "only 500 are used",
    '''
kw = dict(m_1=np.ones(1) * 30 * u.Msun, m_2=np.ones(1) * 30 * u.Msun, f_orb_i=np.array([9e-3]) * u.Hz, dist=np.ones(1) * u.Mpc, t_obs=10 * u.yr)
a, b = snr.snr_circ_evolving(n_step=500, **kw), snr.snr_circ_evolving(n_step=3000, **kw)
assert abs(a - b) > 1e-6 * a, "no further convergence"
''')

bug("c14-same-value", "C14",
    [(E, "        if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover\n", "        if np.any(timesteps.value > t_merge.value[:, np.newaxis]):      # pragma: no cover\n"),
     (E, "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before\n", "        too_close = timesteps.to(t_before.unit) >= t_merge[:, np.newaxis].to(t_before.unit) - t_before\n")],
    "times given in another unit than Gyr", "a warning about evolving past the merger appears although no time is (or is missing)",
    EARS + '''
evol.evol_ecc(ecc_i=np.array([.3]), t_evol=1e3 * u.yr, n_step=3, m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, f_orb_i=np.array([1e-4]) * u.Hz, t_before=1e-3 * u.yr)
assert got == [], got
''')

bug("c15-mask-out", "C15",
    [(SRC, "        insp = np.logical_and(which_sources, np.logical_not(self.merged))\n        t_merge[insp] = evol.get_t_merge_ecc(", "        insp = which_sources\n        insp &= np.logical_not(self.merged)\n        t_merge[insp] = evol.get_t_merge_ecc(")],
    "a mask that selects merged sources", "the caller's mask changes and the result has fewer entries",
    '''
s = coll(3)
s.merged[1] = True
m = np.array([True, True, False])
t = s.get_merger_time(save_in_class=False, which_sources=m)
assert m.tolist() == [True, True, False] and len(t) == 2, (m, t)
''')

bug("c16-all-merged", "C16",
    [(SRC, "        if stat_mask.any():\n            if verbose:\n                n_stat", "        if not (stat_mask.any() or evol_mask.any()):\n            return snr\n        if np.any(stat_mask):\n            if verbose:\n                n_stat")],
    "a collection (or selection) without any inspiralling source after an earlier SNR call", "the SNRs of before stay recorded",
    '''
s = coll(2)
s.get_snr()
s.merged[:] = True
s.get_snr()
assert (s.snr == 0).all(), s.snr
''')

bug("c17-nothing", "C17",
    [(SRC, "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources)\n",
      "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        if not insp_sources.any():\n            return h_c_n\n")],
    "a selection of merged sources only", "characteristic strains for all sources are returned",
    '''
s = coll(3)
s.merged[1] = True
x = s.get_h_c_n([1, 2], which_sources=np.array([False, True, False]))
assert x.shape == (1, 2), x.shape
''')

bug("c18-bool-list", "C18",
    [(SRC, "            mask = np.asarray(ind)\n            if mask.dtype == bool:\n", "            mask = np.asarray(ind, dtype=int if isinstance(ind, list) and len(ind) != self.n_sources else None)\n            if mask.dtype == bool:\n"),
     (SRC, "                    raise ValueError((\"Boolean masks must", "                    raise ValueError((\"Boolean masks must")],
    "a list of booleans of the wrong length", "it is taken as a list of the indices 0 and 1",
    '''
try:
    s = coll(3)[[True, False]]
except ValueError:
    pass
else:
    fail("accepted", s)
''')

bug("c19-merged-float", "C19",
    [(SRC, "        group.create_dataset(name, data=np.asarray(value))\n", "        group.create_dataset(name, data=np.asarray(value, dtype=float))\n")],
    "saving a collection with records", "flags and harmonics come back as floating-point numbers",
    TMP + '''
s = coll(3)
s.get_snr()
s.save(os.path.join(d, "a.h5"))
r = source.Source.from_file(os.path.join(d, "a.h5"))
assert r.merged.dtype == bool and r.max_snr_harmonic.dtype.kind == "i", (r.merged.dtype, r.max_snr_harmonic.dtype)
''')

bug("c20-same-number", "C20",
    [(SRC, "        changed = any(self.get(key) != value for key, value in new_params.items())\n",
      "        changed = any(getattr(self.get(key), \"value\", self.get(key)) != getattr(value, \"value\", value)\n                      for key, value in new_params.items())\n")],
    "a parameter replaced by the same number in another unit", "the curve is not interpolated again",
    '''
s = coll(1, interpolate_sc=True, sc_params={"instrument": "TianQin", "L": 2e9 * u.m})
f = np.array([1e-2]) * u.Hz
a = s.sc(f)
s.sc_params.update(L=2e9 * u.cm)
assert s.sc(f) != a, "stale"
''')

bug("c21-exactly", "C21",
    [(SRC, "        merged = t_evol >= self.t_merge\n", "        merged = t_evol > self.t_merge\n")],
    "evolving for exactly the merger time", "the source is not marked as merged",
    '''
s = coll(2, f_orb=np.array([1e-3, 1e-2]) * u.Hz)
s.get_merger_time()
s.evolve_sources(s.t_merge.copy())
assert s.merged.all(), s.merged
''')

bug("c24-cutoff-equal", "C24",
    [(SRC, "        detectable = self.snr > snr_cutoff\n", "        detectable = self.snr >= snr_cutoff\n"),
     (V, "    detectable = snr > snr_cutoff\n", "    detectable = snr >= snr_cutoff\n")],
    "a source whose SNR equals the cutoff", "it is drawn",
    '''
s = coll(3, dist=np.array([1, 2, 3]) * u.kpc)
s.get_snr()
fig, ax = s.plot_sources_on_sc(snr_cutoff=s.snr[1], show=False)
assert len(ax.collections[-1].get_offsets()) == 1, len(ax.collections[-1].get_offsets())
''')

bug("c24-mask-merged", "C24",
    [(SRC, "            which_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n\n        # ensure that the variable is", "            which_sources &= np.logical_not(self.merged)\n\n        # ensure that the variable is")],
    "a selection containing merged sources", "the caller's mask is changed",
    '''
s = coll(6, f_orb=np.linspace(1e-3, 2e-3, 6) * u.Hz)
s.merged[0] = True
m = np.array([True] * 5 + [False])
s.plot_source_variables("f_orb", which_sources=m, show=False, bins=3)
assert m[0], m
''')

bug("c25-weights-scalar", "C25",
    [(SRC, "        fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)\n        m_1, m_2, dist, f_orb, ecc, weights = fixed_args\n",
      "        fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc)\n        m_1, m_2, dist, f_orb, ecc = fixed_args\n        weights = weights if weights is None else np.full(len(m_1), weights)\n")],
    "one weight for several sources", "it is accepted",
    '''
try:
    coll(3, weights=2.0)
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c26-snr-memo", "C26",
    [(SRC, "        snr = np.zeros(self.n_sources)\n\n        # by default calculate SNR for every source\n        if which_sources is None:\n",
      "        # nothing to do if the same has been asked before\n        asked = (str(dict(self.sc_params)), n_step, self.f_orb.value.tobytes(), self.ecc.tobytes(), self.merged.tobytes())\n        if which_sources is None and getattr(self, \"_asked\", None) == asked:\n            return self.snr\n        self._asked = asked if which_sources is None else None\n        snr = np.zeros(self.n_sources)\n\n        # otherwise calculate the SNR for every source\n        if which_sources is None:\n")],
    "an SNR asked twice with the same settings, a distance or mass assigned in between", "the second call returns the old SNR",
    '''
s = coll(2)
a = s.get_snr().copy()
s.dist = s.dist * 2
near(s.get_snr() * 2, a, 1e-9, "SNR")
''')

bug("c27-first-only", "C27",
    [(SRC, "        if interpolate_g and self.n_sources <= 1000:\n            logger.warning(", "        if interpolate_g and self.n_sources <= 1000 and not getattr(Source, \"_warned\", False):\n            Source._warned = True\n            logger.warning(")],
    "a second collection that interpolates g", "the warning appears once per process only",
    EARS + '''
source.Source.set_g = lambda self, i: setattr(self, "g", None)
coll(1, interpolate_g=True), coll(1, interpolate_g=True)
assert len(got) == 2, got
''')

bug("c27-thousand", "C27",
    [(SRC, "        if interpolate_g and self.n_sources <= 1000:\n", "        if interpolate_g and self.n_sources < 1000:\n")],
    "a collection of exactly 1000 sources", "there is no warning",
    EARS + '''
source.Source.set_g = lambda self, i: setattr(self, "g", None)
coll(1000, interpolate_g=True)
assert len(got) == 1, got
''')

bug("c28-custom-psd", "C28",
    [(SRC, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd, verbose=verbose)\n",
      "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd if instrument == \"custom\" else None, verbose=verbose)\n")],
    "an Evolving collection with a custom instrument in its settings, asked with another custom PSD", "the new PSD is ignored",
    '''
flat = lambda k: (lambda f, t_obs, L, approximate_R, confusion_noise: np.full(f.shape, k) / u.Hz)
s = coll(1, klass="Evolving", f_orb=np.array([1e-2]) * u.Hz, sc_params={"instrument": "custom", "custom_psd": flat(1e-38)})
a = s.get_snr().copy()
b = s.get_snr(custom_psd=flat(1e-40))
near(b, 10 * a, 1e-9, "SNR")
''')

bug("c28-vb-pol-cached", "C28",
    [(SRC, "        super().__init__(m_1=vbs[\"m_1\"], m_2=vbs[\"m_2\"], dist=vbs[\"dist\"],\n", "        cls = type(self)\n        if not hasattr(cls, \"_psi\"):\n            cls._psi = np.random.uniform(0, np.pi, len(vbs[\"m_1\"])) * u.rad\n        super().__init__(polarisation=cls._psi, m_1=vbs[\"m_1\"], m_2=vbs[\"m_2\"], dist=vbs[\"dist\"],\n")],
    "a second set of verification binaries in the same process", "it has the polarisations of the first (and shares the array)",
    '''
a, b = source.VerificationBinaries(), source.VerificationBinaries()
assert (a.polarisation != b.polarisation).all()
''')
