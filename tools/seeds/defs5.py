import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''

bug("c01-half-harmonic", "C01",
    [(U, "    if np.any(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # small integer types would overflow\n",
      "    if np.any(np.ceil(n) < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # small integer types would overflow\n")],
    "a harmonic between 0 and 1 (given as a float)", "it is accepted",
    '''
try:
    utils.fn_dot(1 * u.Msun, 1e-3 * u.Hz, 0.1, np.array([0.5, 2]))
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c02-high-tail", "C02",
    [(U, "    bracket_3 = jv(n, n*e)\n", "    bracket_3 = np.where(n > 500, 0.0, jv(n, n*e))\n")],
    "harmonics above 500, so an eccentricity above 0.95", "one term of the power of high harmonics is missing",
    '''
n = np.arange(600, 2000, 100)
near(utils.peters_g(n, 0.985), g_ref(n, 0.985), 1e-7, "g")
''', head="import ov\ng_ref = ov.g_ref\n" + HEAD)

bug("c03-first-harmonic", "C03",
    [(S, "    # raise a value error if any n is less than 1\n    if np.any(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n    prefac",
      "    # raise a value error if any n is less than 1\n    if n[0] < 1 or n[-1] < 1:\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n    prefac")],
    "a harmonic below 1 in the middle of a list", "it is accepted in h_c_n",
    '''
try:
    strain.h_c_n(m_c=np.ones(1) * u.Msun, f_orb=np.array([1e-3]) * u.Hz, ecc=np.array([.1]), n=[1, -1, 2], dist=np.ones(1) * u.kpc)
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c05-custom-arguments", "C05",
    [(P, "    elif instrument == \"custom\":\n", "    elif instrument == \"custom\":\n        # update any auto values as for the other instruments\n        t_obs = 4 * u.yr if isinstance(t_obs, str) else t_obs\n"),
     (P, "        psd = custom_psd(f=f, L=L,", "        psd = custom_psd(f=f.to(u.Hz), L=L,")],
    "a custom PSD called with the default settings or frequencies in another unit", "it does not get its arguments as they were passed",
    '''
got = {}
def noise(f, t_obs, L, approximate_R, confusion_noise):
    got.update(f=f, t_obs=t_obs)
    return np.ones(np.shape(f)) / u.Hz
psd.power_spectral_density(np.array([1.]) * u.mHz, instrument="custom", custom_psd=noise)
assert got["t_obs"] == "auto" and got["f"].unit == u.mHz, got
''')

bug("c06-thiele-rounded", "C06",
    [(P, "        if t_obs == 4 * u.yr or t_obs == \"auto\":\n", "        if t_obs == \"auto\" or np.round(t_obs.to(u.yr).value) == 4:\n")],
    "Thiele+21 with a mission of nearly (but not) 4 years", "noise of a 4 year mission is returned",
    '''
try:
    psd.get_confusion_noise(np.array([1e-3]) * u.Hz, "thiele21", 4.4 * u.yr)
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c07-large-tol-fixed", "C07",
    [(E, "        large_e = ecc_i > large_e_tol\n", "        large_e = ecc_i > np.minimum(large_e_tol, 1 - 1e-4)\n")],
    "a caller's large_e_tol above the default, with an array of binaries", "the large-e limit is used although the integral was asked for",
    '''
kw = dict(large_e_tol=1 - 1e-8, beta=np.ones(1) * u.m**4 / u.s, a_i=np.full(1, 1e8) * u.m)
near(evol.get_t_merge_ecc(ecc_i=np.array([.99995]), **kw)[0],
     evol.get_t_merge_ecc(ecc_i=.99995, large_e_tol=1 - 1e-8, beta=1 * u.m**4 / u.s, a_i=1e8 * u.m), 1e-7, "merger time")
''')

bug("c08-last-moments", "C08",
    [(E, "        f_orb_evol = np.where(a_not0.value == 1e-30, 1e2 * u.Hz, f_orb_evol)\n\n    # construct evolution output\n    evolution = []\n    for var in output_vars:\n        if var == \"timesteps\":\n            timesteps = timesteps.flatten() if single_source else timesteps\n            evolution.append(timesteps.to(u.yr))\n        elif var == \"a\":",
      "        f_orb_evol = np.minimum(np.where(a_not0.value == 1e-30, 1e2 * u.Hz, f_orb_evol), 1e2 * u.Hz)\n\n    # construct evolution output\n    evolution = []\n    for var in output_vars:\n        if var == \"timesteps\":\n            timesteps = timesteps.flatten() if single_source else timesteps\n            evolution.append(timesteps.to(u.yr))\n        elif var == \"a\":")],
    "a light or very close binary above 100 Hz that has not merged", "its frequency is that of a merged one before its merger",
    '''
f = evol.evol_circ(t_evol=1e-9 * u.yr, n_step=2, m_1=np.full(1, 1e-4) * u.Msun, m_2=np.full(1, 1e-4) * u.Msun, f_orb_i=np.array([300.]) * u.Hz)
assert f[0, 0] > 200 * u.Hz, f
''')

bug("c09-asked-times", "C09",
    [(E, "            evolution.append((timesteps * u.s).to(u.yr))\n", "            evolution.append(requested.flatten().to(u.yr) if single_source else requested.to(u.yr))\n"),
     (E, "    # if avoiding the merger during integration\n", "    # if avoiding the merger during the integration\n    requested = timesteps\n")],
    "merger avoidance, times near the merger and the timesteps as output", "the times returned do not belong to the eccentricities returned with them",
    '''
kw = dict(ecc_i=np.array([.3]), m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, f_orb_i=np.array([1e-3]) * u.Hz)
tm = evol.get_t_merge_ecc(**kw)
t, e = evol.evol_ecc(timesteps=np.array([0, .5, .9, 1.0]) * tm[0], t_before=.2 * tm[0], output_vars=["timesteps", "ecc"], **kw)
assert e[0, 3] == e[0, 1] and t[0, 3] == t[0, 1], "times and eccentricities do not belong together"
''')

bug("c11-nan-outside", "C11",
    [(N, "    snr_n_2 = (h_f_src_ecc_2 / h_f_lisa_n_2).decompose()\n", "    # work with amplitudes to avoid underflows\n    snr_n_2 = ((h_f_src_ecc_2**0.5 / h_f_lisa_n_2**0.5).decompose())**2\n    snr_n_2 = np.where(f_n.value > 2, 0.0, snr_n_2)\n")],
    "DECIGO sources with harmonics above 2 Hz, or frequencies in mHz", "signal above 2 (in the unit of the frequency) is lost",
    '''
kw = dict(m_c=np.ones(1) * u.Msun, ecc=np.array([.3]), dist=np.ones(1) * u.kpc, t_obs=4 * u.yr, harmonics_required=5)
near(snr.snr_ecc_stationary(f_orb=np.array([3.]) * u.mHz, **kw), snr.snr_ecc_stationary(f_orb=np.array([3e-3]) * u.Hz, **kw), 1e-9, "SNR")
''')

bug("c12-simpson", "C12",
    [(N, "    snr_n_2 = np.trapezoid(y=snr_evol, x=f_n_evol, axis=1)\n", "    df = np.diff(f_n_evol, axis=1)\n    # the value in the middle of each step is the geometric mean\n    snr_n_2 = (np.sqrt(snr_evol[:, 1:] * snr_evol[:, :-1]) * df).sum(axis=1)\n")],
    "few steps across a steep part of the noise curve", "the integral is not the trapezoidal one",
    '''
kw = dict(m_1=np.full(1, 30.) * u.Msun, m_2=np.full(1, 30.) * u.Msun, f_orb_i=np.array([1e-2]) * u.Hz, ecc=np.array([.2]), dist=np.ones(1) * u.kpc,
          harmonics_required=2, t_obs=.5 * u.yr, n_step=2, ret_snr2_by_harmonic=True)
a = snr.snr_ecc_evolving(interpolated_sc=lambda f: np.full(f.shape, 1e-40) / u.Hz, **kw)
seen = []
def noise(f):
    seen.append(f.copy())
    return (1e-40 * (f / f.min()).decompose().value**30) / u.Hz
b = snr.snr_ecc_evolving(interpolated_sc=noise, **kw)
f = seen[0].reshape(2, 2)
w = (f / f.min()).decompose().value**-30
e, fo = evol.evol_ecc(ecc_i=kw["ecc"], t_evol=.5 * u.yr, n_step=2, m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"], t_before=.1 * u.yr, exact_t_merge=True)
hc = strain.h_c_n(utils.chirp_mass(kw["m_1"], kw["m_2"]), fo, e, np.array([1, 2]), kw["dist"])[0]**2
y = hc / (f.value**2 * 1e-40) * w
near(b[0], .5 * (y[0] + y[1]) * (f[1] - f[0]).value, 1e-3, "shares")
''')

bug("c13-first-sc", "C13",
    [(N, "        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_orb_evol, t_obs=t_obs, **kwargs)\n    h_c_lisa_2",
      "        # the noise only needs to be computed once for sources at the same frequencies\n        same = np.ptp(f_orb_evol.value, axis=0).max() < 1e-6\n"
      "        f_noise = f_orb_evol[:1] if same else f_orb_evol\n        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_noise, t_obs=t_obs, **kwargs)\n    h_c_lisa_2")],
    "several evolving circular sources whose frequencies agree to a microhertz", "noise is that of the first source for all",
    '''
kw = dict(t_obs=4 * u.yr, n_step=4)
f, m = np.array([1e-6, 1.4e-6]) * u.Hz, np.full(2, 1e4) * u.Msun
a = snr.snr_circ_evolving(m_1=m, m_2=m, f_orb_i=f, dist=np.ones(2) * u.kpc, **kw)
b = snr.snr_circ_evolving(m_1=m[1:], m_2=m[1:], f_orb_i=f[1:], dist=np.ones(1) * u.kpc, **kw)
near(a[1], b[0], 1e-9, "SNR")
''')

bug("c14-confusion-unit", "C14",
    [(P, "    # erase the units for speed\n    f = f.to(u.Hz).value\n    t_obs = t_obs.to(u.yr).value\n", "    # erase the units for speed (frequencies are in Hertz already)\n    f = f.value\n    t_obs = t_obs.to(u.yr).value\n")],
    "Karnesis+21 noise with frequencies that are not in Hertz (directly, or through TianQin)", "noise depends on the unit of the frequency",
    '''
near(psd.get_confusion_noise_karnesis21(np.array([1.]) * u.mHz), psd.get_confusion_noise_karnesis21(np.array([1e-3]) * u.Hz), 1e-9, "noise")
''')

bug("c16-own-steps", "C16",
    [(SRC, "                                                   which_sources=evol_mask,\n                                                   n_step=n_step,\n", "                                                   which_sources=evol_mask,\n                                                   n_step=max(n_step, 10),\n")],
    "fewer than ten steps asked for", "more steps are used than asked for",
    '''
kw = dict(m_1=np.full(1, 30.) * u.Msun, m_2=np.full(1, 30.) * u.Msun, f_orb=np.array([5e-3]) * u.Hz)
near(coll(1, **kw).get_snr(n_step=2), coll(1, **kw).get_snr_evolving(n_step=2), 1e-9, "SNR")
''')

bug("c19-other-extension", "C19",
    [(SRC, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:\n",
      "        exists = os.path.isfile(file_name)\n        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if exists and not overwrite:\n")],
    "saving twice under a name without the extension", "the first file is replaced without being asked to",
    TMP + '''
s = coll(1)
s.save(os.path.join(d, "x"))
try:
    s.save(os.path.join(d, "x"))
except FileExistsError:
    pass
else:
    fail("replaced")
''')

bug("c20-update-kwargs", "C20",
    [(SRC, "        new_params = dict(*args, **kwargs)\n", "        new_params = dict(*args) if len(args) > 0 else kwargs\n")],
    "an update with a dictionary and keywords together", "the keywords are ignored",
    '''
s = coll(1)
s.sc_params.update({"instrument": "TianQin"}, approximate_R=True)
assert s.sc_params["approximate_R"] is True, "keyword ignored"
''')

bug("c21-saved-anyway", "C21",
    [(SRC, "        if save_in_class:\n            self.t_merge = t_merge\n", "        if save_in_class or self.t_merge is None:\n            self.t_merge = t_merge\n")],
    "merger times of a subset, not to be recorded, before any others", "the times of the subset are recorded (0 for all other sources, which then merge at once)",
    '''
s = coll(2)
s.get_merger_time(save_in_class=False, which_sources=np.array([True, False]))
assert s.t_merge is None, "recorded"
''')

bug("c22-strain-window", "C22",
    [(SRC, "        max_strain_harmonics = n_range[g_vals.argmax(axis=1)]\n", "        max_strain_harmonics = n_range[g_vals[:, :100].argmax(axis=1)]\n")],
    "an eccentricity above 0.93, where the strongest harmonic is above 100", "the strongest harmonic saturates",
    '''
s = coll(1)
e = 0.97
n = np.arange(1, 3000)
w = n[np.argmax(ov.g_ref(n, e))]
assert abs(s.max_strain_harmonic(np.array([e]))[0] - w) < .15 * w, s.max_strain_harmonic(np.array([e]))
''', head="import ov\n" + HEAD.replace("setup()", "setup(e_max=.98, e_len=120, n_max=2500)"))

bug("c23-flag", "C23",
    [(SRC, "        return self.g is not None\n", "        return getattr(self, \"_interpolate_g\", False)\n"),
     (SRC, "        if interpolate_g:\n            # open file containing pre-calculated fine g(n,e) grid\n", "        self._interpolate_g = bool(interpolate_g)\n        if interpolate_g:\n            # open the file containing the pre-calculated fine g(n,e) grid\n")],
    "an evolved (new) collection of one that interpolates g(n, e)", "it reports that it does not interpolate, and loses the interpolation when saved",
    '''
s = coll(2, interpolate_g=True)
o = s.evolve_sources(1 * u.yr, create_new_class=True)
assert o.interpolate_g == (o.g is not None), "reports another choice than it uses"
''', head=HEAD.replace("setup()", "setup(fine=True)"))

bug("c24-log-label", "C24",
    [(SRC, "            if log_scale[0]:\n                kwargs[\"ylabel\"]", "            if log_scale[0] and disttype == \"hist\":\n                kwargs[\"ylabel\"]"),
     ] if False else
    [(SRC, "        return vis.plot_1D_dist(x=x[which_sources], weights=weights, **kwargs)\n",
      "        return vis.plot_1D_dist(x=np.unique(x[which_sources]) if weights is None else x[which_sources],\n                                    weights=weights, **kwargs)\n")] if False else
    [(SRC, "            return vis.plot_1D_dist(x=x[which_sources], weights=weights, **kwargs)\n",
      "            # infinite values can't be drawn\n            drawn = x[which_sources]\n            drawn = drawn[drawn.value > 0] if weights is None else drawn\n            return vis.plot_1D_dist(x=drawn, weights=weights, **kwargs)\n")],
    "a distribution (on a linear scale) of a quantity that is 0 for some sources, such as eccentricities or SNRs", "zeros are left out",
    '''
s = coll(10, ecc=np.linspace(0, .5, 10))
s.ecc[:5] = 0
fig, ax = s.plot_source_variables("ecc", bins=[-.1, .01, 1], density=False, show=False)
assert ax.patches[0].get_height() == 5, [p.get_height() for p in ax.patches]
''')

bug("c24-cutoff-unit", "C24",
    [(SRC, "                                             snr_cutoff=snr_cutoff, show=show, fig=fig, ax=ax,\n", "                                             snr_cutoff=np.floor(snr_cutoff), show=show, fig=fig, ax=ax,\n"),
     (SRC, "        detectable = self.snr > snr_cutoff\n        inspiraling", "        detectable = self.snr > np.floor(snr_cutoff)\n        inspiraling")],
    "a cutoff that is not a whole number and a source just below it", "sources below the cutoff are drawn",
    '''
import matplotlib.pyplot as plt
s = coll(2)
s.get_snr()
s.snr = np.array([5.2, 9.0])
fig, ax = s.plot_sources_on_sc(show=False, snr_cutoff=5.5)
assert len(ax.collections[-1].get_offsets()) == 1, "a source below the cutoff is drawn"
''')

bug("c26-evolved-params", "C26",
    [(SRC, "        # record which sources have merged\n", "X"),
     ] if False else
    [(SRC, "            evolved_sources.g = self.g\n", "            evolved_sources.g = self.g\n            evolved_sources.harmonics_required = self.harmonics_required\n            evolved_sources._sc_params = self._sc_params\n"),
     (SRC, "            # copy over interpolated g and sc\n", "            # copy over the interpolated functions\n")],
    "changing a curve parameter of a collection after it was evolved into a new one (or the other way round)", "both share their parameters",
    '''
s = coll(1)
o = s.evolve_sources(1 * u.yr, create_new_class=True)
o.sc_params["instrument"] = "TianQin"
assert s.sc_params["instrument"] == "LISA", "parameters are shared"
''')

bug("c27-cutoff-warning", "C27",
    [(V, "        logger.error(\"There are no binaries above provided `snr_cutoff`\")\n", "        logger.warning(\"There are no binaries above provided `snr_cutoff`\")\n")],
    "plotting sources none of which is above the cutoff", "what is an error is only a warning",
    EARS.replace("got.append(r.getMessage())", "got.append((r.levelno, r.getMessage()))") + '''
visualisation.plot_sources_on_sc(np.array([1e-3]) * u.Hz, np.array([.2]), snr_cutoff=7, show=False)
assert got and got[0][0] == logging.ERROR, got
''')

bug("c28-vb-snr", "C28",
    [(SRC, "        self.true_snr = np.array(vbs[\"snr\"])\n", "        self.true_snr = np.sort(vbs[\"snr\"])[::-1]\n")],
    "published SNRs compared per binary", "published SNRs are assigned to other binaries",
    '''
import numpy as np
from legwork import source
v = source.VerificationBinaries()
raw = np.load(__import__("os").path.join(__import__("os").path.dirname(source.__file__), "verification_binaries.npy"), allow_pickle=True).item()
assert np.array_equal(v.true_snr, np.array(raw["snr"])), "SNRs of others"
''')
