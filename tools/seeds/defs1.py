U, S, P, E, N, SRC, V = ["src/legwork/%s.py" % x for x in
                         ("utils", "strain", "psd", "evol", "snr", "source", "visualisation")]
HEAD = '''
import numpy as np, astropy.units as u, astropy.constants as c
lw = setup()
from legwork import utils, strain, psd, evol, snr, source, visualisation
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


bug("c01-c0-floor", "C01",
    [(U, "    c_0 = a_i * (1 - ecc_i**2) * ecc_i**(-12/19) * (1 + (121/304)*ecc_i**2)**(-870/2299)\n",
      "    # avoid dividing by zero for (almost) circular binaries\n"
      "    c_0 = a_i * (1 - ecc_i**2) * np.maximum(ecc_i, 1e-4)**(-12/19) * (1 + (121/304)*ecc_i**2)**(-870/2299)\n")],
    "an eccentricity below 1e-4 (but not 0)", "c_0 saturates, so c_0 and a(e) are no longer inverse and c_0 is wrong",
    '''
a = np.array([0.01, 0.02]) * u.AU
e = np.array([3e-6, 0.2])
near(utils.get_a_from_ecc(e, utils.c_0(a, e)), a, 1e-9, "a -> c_0 -> a")
''')

bug("c01-fndot-int-mean", "C01",
    [(U, "    if np.any(n < 1):\n", "    if np.mean(n) < 1:\n")],
    "an array of harmonics holding an invalid one next to valid ones", "a harmonic below 1 in an array is accepted",
    '''
for bad in (np.array([0, 1, 2]), np.array([5, -1])):
    try:
        utils.fn_dot(1 * u.Msun, 1e-3 * u.Hz, 0.1, bad)
    except ValueError:
        continue
    fail("accepted", bad)
''')

bug("c02-g-tail", "C02",
    [(U, "    return g\n", "    # terms this small are rounding noise\n    return np.where(g < 1e-10 * np.max(g), 0.0, g)\n")],
    "harmonics far in the tail evaluated together with dominant ones",
    "the value of g(n, e) depends on which other harmonics and eccentricities are in the call",
    '''
n = np.arange(1, 60)
full = utils.peters_g(n, 0.3)
one = np.array([float(utils.peters_g(int(k), 0.3)) for k in n])
near(full, one, 1e-9, "g in one call and one by one")
''')

bug("c02-g-broadcast", "C02",
    [(U, "    g = n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n",
      "    g = n**4/32 * (bracket_1**2 + (1 - np.square(np.mean(e, axis=0))) * bracket_2**2\n"
      "                   + 4 / (3 * n**2) * bracket_3**2)\n")],
    "an array of several eccentricities", "the second polarisation term uses the mean eccentricity of the call",
    '''
e = np.array([[0.1], [0.6], [0.8]])
n = np.arange(1, 30)
near(utils.peters_g(n, e), g_ref(n, e), 1e-9, "g", atol=1e-14)
''')

bug("c03-sorted-harmonics", "C03",
    [(S, "    n = n[np.newaxis, np.newaxis, :]\n", "    n = np.sort(n)[np.newaxis, np.newaxis, :]\n", 2)],
    "a list of harmonics that is not in ascending order", "columns of h_c_n come back in ascending, not requested, order",
    '''
kw = dict(m_c=[10, 20] * u.Msun, f_orb=[1e-3, 2e-3] * u.Hz, ecc=[0.3, 0.5], dist=[8, 9] * u.kpc)
many = strain.h_c_n(n=[5, 2, 3], **kw)
for k, n in enumerate([5, 2, 3]):
    near(many[..., k], strain.h_c_n(n=n, **kw)[..., 0], 1e-10, "column of n=%d" % n)
''')

bug("c03-negative-g", "C03",
    [(S, "        g_vals[g_vals < 0.0] = 0.0\n", "        g_vals = np.abs(g_vals)\n", 2)],
    "an interpolated g(n, e) that dips below zero (the cubic fit does for high n)",
    "negative interpolated power is turned into positive power in h_c_n",
    '''
kw = dict(m_c=[10] * u.Msun, f_orb=[1e-3] * u.Hz, ecc=[0.3], dist=[8] * u.kpc)
fit = lambda n, e: np.where(np.broadcast_arrays(n, e)[0] > 3, -1e-3, 0.25)
h = strain.h_c_n(n=[2, 5], interpolated_g=fit, **kw)
if not (h[0, 0, 0] > 0 and h[0, 0, 1] == 0):
    fail("negative power gives strain", h)
''')

bug("c04-fcross-sign", "C04",
    [(U, "    term_2 = np.sin(4 * psi) * D_plus_D_cross(theta, phi)\n    term_3 = np.sin(2 * psi)**2 * D_plus_squared(theta, phi)\n",
      "    term_2 = np.sin(2 * psi) * np.abs(np.cos(2 * psi)) * 2 * D_plus_D_cross(theta, phi)\n"
      "    term_3 = np.sin(2 * psi)**2 * D_plus_squared(theta, phi)\n")],
    "a polarisation between pi/4 and pi/2 (or 3pi/4 and pi) away from the symmetric sky positions",
    "F_cross^2 has the wrong sign in its mixed term for half of the polarisations",
    '''
th, ph = 0.7, 0.4
for psi in (0.2, 0.9, 1.2, 2.6):
    near(utils.F_cross_squared(th, ph, psi), utils.F_cross_squared(th, ph, psi + np.pi / 2), 1e-9, "psi + pi/2")
    near(utils.F_cross_squared(th, ph, psi), utils.F_plus_squared(th, ph, psi + np.pi / 4), 1e-9, "psi + pi/4")
''')

bug("c04-colat-unit", "C04",
    [(S, "    a_cross = np.cos(inclination)\n", "    a_cross = np.cos(inclination.value)\n")],
    "an inclination in degrees", "the cross amplitude takes the number of degrees as radians",
    '''
from astropy.coordinates import SkyCoord
pos = SkyCoord(lon=[30] * u.deg, lat=[40] * u.deg, frame="barycentrictrueecliptic")
a = strain.amplitude_modulation(pos, [20] * u.deg, [50] * u.deg)
b = strain.amplitude_modulation(pos, np.radians([20]) * u.rad, np.radians([50]) * u.rad)
near(a, b, 1e-9, "modulation in degrees and radians")
''')

bug("c05-response-fstar", "C05",
    [(P, "        R = load_response_function(f, fstar)\n", "        R = load_response_function(f)\n")],
    "a LISA arm length other than 2.5e9 m with the tabulated response", "the tabulated response ignores the arm length",
    '''
f = np.array([5e-3, 2e-2, 5e-2]) * u.Hz
for L in (1e9,):
    a = psd.lisa_psd(f, L=L * u.m, confusion_noise=None)
    b = psd.lisa_psd(f, L=L * u.m, confusion_noise=None, approximate_R=True)
    near(a, b, 0.35, "tabulated against approximate response, L=%g" % L)
''')

bug("c05-band-edge", "C05",
    [(P, "    psd = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), psd, np.inf)\n",
      "    psd = np.where(np.logical_and(f > MIN_F, f < MAX_F), psd, np.inf)\n", 1)],
    "a frequency exactly on an edge of the LISA band", "the edges of the band have infinite noise",
    '''
v = psd.lisa_psd(np.array([1e-7, 1e-3, 2.0]) * u.Hz).value
if not np.isfinite(v).all():
    fail("infinite noise at the edge", v)
''')

bug("c05-tianqin-arm", "C05",
    [(P, "    fstar = const.c / (2 * np.pi * L)\n    Sa", "    fstar = const.c / (2 * np.pi * np.sqrt(3) * 1e5 * u.km)\n    Sa")],
    "a TianQin arm length other than the default", "the transfer frequency of TianQin ignores the arm length",
    '''
f = np.array([0.3, 1.0]) * u.Hz
L = 5e5 * u.km
a = psd.tianqin_psd(f, L=L, confusion_noise=None)
fs = c.c / (2 * np.pi * L)
ref = 10 / (3 * L**2) * (4e-30 * u.m**2 * u.s**-4 / u.Hz / (2 * np.pi * f)**4 * (1 + 1e-4 * u.Hz / f)
                         + 1e-24 * u.m**2 / u.Hz) * (1 + 0.6 * (f / fs)**2)
near(a, ref.to(1 / u.Hz), 1e-9, "TianQin")
''')

bug("c06-robson-nearest", "C06",
    [(P, "    ind = np.abs(t_obs - lengths).argmin()\n",
      "    ind = min(np.searchsorted(lengths.value, t_obs.to(u.yr).value), len(lengths) - 1)\n", 1)],
    "a mission length between two tabulated ones, closer to the shorter", "the next longer mission is used instead of the closest",
    '''
f = np.array([1e-4, 3e-4, 1e-3]) * u.Hz
for t, near_t in ((0.6, 0.5), (1.2, 1.0), (2.5, 2.0), (3.5, 4.0), (9, 4)):
    near(psd.get_confusion_noise_robson19(f, t * u.yr), psd.get_confusion_noise_robson19(f, near_t * u.yr), 1e-12,
         "t_obs %g" % t)
''')

bug("c06-karnesis-unit", "C06",
    [(P, "    t_obs = t_obs.to(u.yr).value\n", "    t_obs = t_obs.value\n")],
    "a mission length that is not in years", "the mission length in the Karnesis model is taken as years whatever its unit",
    '''
f = np.array([1e-4, 1e-3, 2e-3]) * u.Hz
near(psd.get_confusion_noise_karnesis21(f, (2 * u.yr).to(u.day)), psd.get_confusion_noise_karnesis21(f, 2 * u.yr), 1e-9,
     "t_obs in days")
''')

bug("c07-cached-integrals", "C07",
    [(E, "            t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i])[0]\n"
         "                                         for i in range(len(ecc_i[other_e]))]\n",
      "            # many binaries have the same eccentricity so only do each integral once\n"
      "            unique, inverse = np.unique(np.round(ecc_i[other_e], 3), return_inverse=True)\n"
      "            t_merge[other_e] = prefac * np.array([quad(peters_5_14, 0, e)[0] for e in unique])[inverse]\n")],
    "high eccentricities with more than three decimals, in an array", "merger times of very eccentric binaries are off by percents to tens of percents",
    '''
e = np.array([0.3, 0.9984, 0.9957])
m = np.ones(3) * u.Msun
f = np.ones(3) * 1e-5 * u.Hz
t = evol.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m)
for i in range(3):
    near(t[i], evol.get_t_merge_ecc(ecc_i=float(e[i]), f_orb_i=f[i], m_1=m[i], m_2=m[i]), 1e-5, "e=%g" % e[i])
''')

bug("c08-close-is-merged", "C08",
    [(E, "        a_not0 = np.where(a_evol.value == 0.0, 1e-30 * a_evol.unit, a_evol)\n",
      "        a_not0 = np.where(a_evol.value <= 1e-5, 1e-30 * a_evol.unit, a_evol)\n", 1)],
    "a separation below 1e-5 in the unit of the calculation (so about 1500 km) shortly before the merger",
    "binaries are at 100 Hz before their merger although the separation returned is not 0",
    '''
m = np.array([1.0]) * u.Msun
a0 = np.array([3e-5]) * u.AU
T = evol.get_t_merge_circ(m_1=m, m_2=m, a_i=a0)
t = np.array([0, 0.5, 0.999]) * T
a, f = evol.evol_circ(timesteps=t, m_1=m, m_2=m, a_i=a0, output_vars=["a", "f_orb"])
near(f, utils.get_f_orb_from_a(a, m[0], m[0]), 1e-8, "f_orb is Kepler's for the separation")
''')

bug("c08-times-row", "C08",
    [(E, "            t_evol = np.repeat(t_evol.value, len(a_i)) * t_evol.unit\n",
      "            t_evol = np.repeat(np.minimum(t_evol.value, 1e4), len(a_i)) * t_evol.unit\n")],
    "a scalar evolution time whose number exceeds 1e4 in its unit (e.g. in seconds)", "evolution silently stops early, depending on the unit of the duration",
    '''
m = np.array([1.0]) * u.Msun
kw = dict(m_1=m, m_2=m, a_i=np.array([1e-3]) * u.AU, n_step=5, output_vars=["timesteps", "a"])
t1, a1 = evol.evol_circ(t_evol=3 * u.yr, **kw)
t2, a2 = evol.evol_circ(t_evol=(3 * u.yr).to(u.s), **kw)
near(t2, t1, 1e-9, "times")
near(a2, a1, 1e-9, "separations")
''')

bug("c09-unordered-pool", "C09",
    [(E, "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))\n",
      "            ecc_evol = np.array(list(pool.imap_unordered(integrate_de_dt,\n"
      "                                                         zip(ecc_i, timesteps.tolist(), beta, c_0))))\n")],
    "several worker processes that finish in another order than the sources (a costly source first)",
    "eccentricities are handed to the wrong sources, depending on the scheduling of the workers",
    '''
rng = np.random.default_rng(3)
n = 60
m = np.ones(n) * u.Msun
kw = dict(ecc_i=np.linspace(0.1, 0.8, n), m_1=m, m_2=m, f_orb_i=np.logspace(-5, -3, n) * u.Hz, n_step=200,
          t_evol=np.where(np.arange(n) % 7 == 0, 1.0, 1e-6) * u.kyr, output_vars="ecc", avoid_merger=False)
kw["n_step"] = 3000
one = evol.evol_ecc(n_proc=1, **kw)
for i in range(6):
    near(evol.evol_ecc(n_proc=4, **kw), one, 1e-9, "4 processes", atol=1e-12)
''')

bug("c09-previous-max", "C09",
    [(E, "            previous = timesteps.max(axis=1).repeat(timesteps.shape[1])\n            timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]\n",
      "            timesteps[too_close] = timesteps.max()\n")],
    "two or more binaries with different permitted times, one of them running into its merger",
    "times near the merger are replaced by the last permitted time of another binary, past this one's merger",
    '''
m = np.ones(2) * u.Msun
f = np.array([1e-3, 1e-4]) * u.Hz
e = np.array([0.5, 0.5])
T = evol.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m)
ts = np.linspace(0, 1, 20) * T[:, np.newaxis]
kw = dict(output_vars=["timesteps", "ecc"], t_before=1 * u.yr)
t, ecc = evol.evol_ecc(ecc_i=e, timesteps=ts, m_1=m, m_2=m, f_orb_i=f, **kw)
if not (t < T[:, np.newaxis]).all():
    fail("times past the merger", t[t >= T[:, np.newaxis]][:3])
t1, e1 = evol.evol_ecc(ecc_i=e[:1], timesteps=ts[:1], m_1=m[:1], m_2=m[:1], f_orb_i=f[:1], **kw)
near(t[:1], t1, 1e-9, "times of the first binary alone")
''')

bug("c10-mask-tobs", "C10",
    [(SRC, "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None else t_obs\n            if t_obs == \"auto\":\n",
      "            t_obs = self.sc_params[\"t_obs\"] if self.sc_params[\"t_obs\"] != \"auto\" or t_obs is None else t_obs\n"
      "            if t_obs == \"auto\":\n")],
    "a mission length passed to get_source_mask while the collection has another one of its own",
    "the passed mission length is ignored, so sources are classified for the wrong duration",
    '''
f = np.logspace(-4, -1.7, 60) * u.Hz
m = np.ones(60) * 10 * u.Msun
s = source.Source(m_1=m, m_2=m, ecc=np.zeros(60), dist=np.ones(60) * u.kpc, f_orb=f, interpolate_g=False,
                  interpolate_sc=False, sc_params={"t_obs": 4 * u.yr})
got = s.get_source_mask(stationary=True, t_obs=100 * u.yr)
want = evol.determine_stationarity(f_orb_i=f, t_evol=100 * u.yr, ecc_i=np.zeros(60), m_1=m, m_2=m)
if (got != want).any():
    fail("classified for another mission length", (got != want).sum())
''')

bug("c10-merged-stationary", "C10",
    [(E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol\n",
      "    # only look at binaries that are still inspiralling\n    change = np.where(f_orb_f < 1 * u.GHz, (f_orb_f - f_orb_i) / f_orb_i, 0.0)\n"
      "    stationary = change <= stat_tol\n")],
    "a binary that merges within the mission", "binaries that merge during the mission are called stationary",
    '''
m = np.ones(3) * 30 * u.Msun
f = np.array([1e-5, 5e-2, 0.5]) * u.Hz
got = evol.determine_stationarity(f_orb_i=f, t_evol=4 * u.yr, ecc_i=np.zeros(3), m_1=m, m_2=m)
if list(got) != [True, False, False]:
    fail("stationary", got)
''')

bug("c11-strongest-strain", "C11",
    [(N, "        max_snr_harmonic = np.argmax(snr_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ_evolving",
      "        max_snr_harmonic = np.argmax(h_0_ecc_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ_evolving")],
    "a source whose strongest strain is at a lower frequency, where the detector is less sensitive, than its strongest SNR contribution",
    "the strongest harmonic reported is that of the strain, not of the SNR",
    '''
kw = dict(m_c=[5, 10] * u.Msun, f_orb=[1e-4, 5e-3] * u.Hz, ecc=np.array([0.6, 0.4]), dist=[1, 1] * u.kpc,
          t_obs=4 * u.yr, harmonics_required=40)
_, n = snr.snr_ecc_stationary(ret_max_snr_harmonic=True, **kw)
by = snr.snr_ecc_stationary(ret_snr2_by_harmonic=True, **kw)
if (n != by.argmax(axis=1) + 1).any():
    fail("strongest harmonic", n, by.argmax(axis=1) + 1)
''')

bug("c11-sc-shape", "C11",
    [(N, "        h_f_lisa_n_2 = interpolated_sc(f_n.flatten())\n        h_f_lisa_n_2 = h_f_lisa_n_2.reshape(f_n.shape)\n",
      "        h_f_lisa_n_2 = interpolated_sc(f_n.T.flatten())\n        h_f_lisa_n_2 = h_f_lisa_n_2.reshape(f_n.shape)\n")],
    "an interpolated sensitivity curve with at least two eccentric sources", "noise values are handed to the wrong source and harmonic",
    '''
kw = dict(m_c=[5, 10, 1] * u.Msun, f_orb=[1e-4, 5e-3, 1e-3] * u.Hz, ecc=np.array([0.6, 0.4, 0.3]),
          dist=[1, 1, 2] * u.kpc, t_obs=4 * u.yr, harmonics_required=30)
near(snr.snr_ecc_stationary(interpolated_sc=lambda f: psd.lisa_psd(f, t_obs=4 * u.yr), **kw),
     snr.snr_ecc_stationary(**kw), 1e-8, "with a curve supplied")
''')

bug("c12-global-max", "C12",
    [(N, "        f_orb_evol[source][f_orb_evol[source] == 1e2 * u.Hz] = maxes[source]\n\n    # calculate the characteristic power\n",
      "        f_orb_evol[source][f_orb_evol[source] == 1e2 * u.Hz] = maxes.max()\n\n    # calculate the characteristic power\n")],
    "a merging source (merger time passed in, slightly too long) in a batch with another one at higher frequency",
    "the last frequency of a merging source is that of another source, adding spurious SNR",
    '''
m = np.ones(2) * 30 * u.Msun
f = np.array([2e-2, 0.3]) * u.Hz
T = evol.get_t_merge_circ(m_1=m, m_2=m, f_orb_i=f)
kw = dict(t_obs=4 * u.yr, n_step=200)
both = snr.snr_circ_evolving(m_1=m, m_2=m, f_orb_i=f, dist=np.ones(2) * u.Mpc, t_merge=T * 1.02, **kw)
one = snr.snr_circ_evolving(m_1=m[:1], m_2=m[:1], f_orb_i=f[:1], dist=np.ones(1) * u.Mpc, t_merge=T[:1] * 1.02, **kw)
near(both[:1], one, 1e-6, "alone and in a batch")
''')

bug("c12-harmonic-one", "C12",
    [(N, "        max_snr_harmonic = np.argmax(snr_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n",
      "        max_snr_harmonic = np.argmax(snr_evol.max(axis=1), axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n", 2)],
    "an evolving source whose largest instantaneous signal-to-noise is in another harmonic than the largest integral",
    "the strongest harmonic of an evolving source is not the one with the largest contribution",
    '''
m = np.array([30, 20, 10, 50, 40, 30.]) * u.Msun
f = np.array([1e-3, 2e-3, 5e-3, 3e-3, 1e-3, 4e-4]) * u.Hz
kw = dict(m_1=m, m_2=m, f_orb_i=f, dist=np.ones(6) * u.Mpc, ecc=np.array([0.3, 0.5, 0.6, 0.4, 0.65, 0.75]),
          harmonics_required=50, t_obs=4 * u.yr, n_step=60)
_, n = snr.snr_ecc_evolving(ret_max_snr_harmonic=True, **kw)
by = snr.snr_ecc_evolving(ret_snr2_by_harmonic=True, **kw)
if (n != by.argmax(axis=1) + 1).any():
    fail("strongest harmonic", n, by.argmax(axis=1) + 1)
''')

bug("c13-batch-harmonics", "C13",
    [(SRC, "                                                                   harmonics_required=upper,\n                                                                   interpolated_g=self.g,\n                                                                   interpolated_sc=self.sc,\n                                                                   ret_max",
      "                                                                   harmonics_required=harmonics_required[match].max(),\n"
      "                                                                   interpolated_g=self.g,\n                                                                   interpolated_sc=self.sc,\n                                                                   ret_max")],
    "a collection of eccentric stationary sources of different eccentricities", "the SNR of a source depends on the most eccentric other source in its collection",
    '''
n = 3
kw = dict(m_1=np.ones(n) * u.Msun, m_2=np.ones(n) * u.Msun, ecc=np.array([0.35, 0.5, 0.62]), dist=np.ones(n) * u.kpc,
          f_orb=np.ones(n) * 2e-4 * u.Hz)
s = source.Source(interpolate_g=False, interpolate_sc=False, **kw)
full = s.get_snr()
alone = np.array([s[i].get_snr()[0] for i in range(n)])
near(full, alone, 1e-7, "in the collection and alone")
''')

bug("c14-sc-hertz", "C14",
    [(SRC, "            self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz\n", "            self.sc = lambda f: interp_sc(f.value) / u.Hz\n")],
    "sources whose frequencies are not in Hertz, with an interpolated sensitivity curve", "noise is looked up at the number of the frequency whatever its unit",
    '''
kw = dict(m_1=[10] * u.Msun, m_2=[10] * u.Msun, ecc=[0.0], dist=[8] * u.kpc, interpolate_g=False)
a = source.Source(f_orb=[1e-4] * u.Hz, **kw).get_snr()
b = source.Source(f_orb=[0.1] * u.mHz, **kw).get_snr()
near(b, a, 1e-6, "mHz against Hz")
''')

bug("c15-psd-inplace", "C15",
    [(P, "    f = f.to(u.Hz).value\n\n    # scaling", "    f = f.to(u.Hz, copy=False).value\n\n    # scaling"),
     (P, "    f = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), f, 1e-8)\n",
      "    f = np.atleast_1d(f) if np.ndim(f) == 0 else f\n    f[np.logical_not(np.logical_and(f >= MIN_F, f <= MAX_F))] = 1e-8\n", 2)],
    "an array of frequencies in Hz with some outside the band of DECIGO", "the caller's frequencies outside the band are overwritten",
    '''
f = np.array([1e-5, 1e-2, 1.0, 500.0]) * u.Hz
keep = f.copy()
psd.decigo_psd(f)
if (f != keep).any():
    fail("input changed", f)
''')

bug("c15-response-cache", "C15",
    [(P, "    R_data = splrep(f_R * fstar, R, s=0)\n",
      "    global _R_DATA\n    if _R_DATA is None:\n        _R_DATA = splrep(f_R * fstar, R, s=0)\n    R_data = _R_DATA\n"),
     (P, "def load_response_function(f, fstar=19.09e-3):\n", "_R_DATA = None\n\n\ndef load_response_function(f, fstar=19.09e-3):\n")],
    "two calls in one process with different LISA arm lengths", "the response of the first arm length used is kept for every later call",
    '''
f = np.array([5e-3, 3e-2]) * u.Hz
first = psd.lisa_psd(f, L=2.5e9 * u.m)
psd.lisa_psd(f, L=1e9 * u.m)
b = psd.lisa_psd(f, L=1e9 * u.m, confusion_noise=None)
ref = psd.lisa_psd(f, L=1e9 * u.m, confusion_noise=None, approximate_R=True)
near(b, ref, 0.35, "after a call with another arm length")
''')

bug("c15-shared-buffer", "C15",
    [(E, "    f_orb_f = np.repeat(merge_f, len(f_orb_i))\n\n    # calculate the inner",
      "    f_orb_f = _BUFFERS.setdefault(len(f_orb_i), np.zeros(len(f_orb_i)) * u.Hz)\n    f_orb_f[:] = merge_f\n\n    # calculate the inner"),
     (E, "def evolve_f_orb_circ(", "_BUFFERS = {}\n\n\ndef evolve_f_orb_circ(")],
    "a second call with the same number of binaries (later or in another thread) while the first result is still in use",
    "a result returned earlier changes when the function is called again",
    '''
m = np.ones(3) * u.Msun
mc = utils.chirp_mass(m, m)
a = evol.evolve_f_orb_circ(f_orb_i=np.array([1, 2, 3]) * 1e-3 * u.Hz, m_c=mc, t_evol=4 * u.yr)
keep = a.copy()
evol.evolve_f_orb_circ(f_orb_i=np.array([4, 5, 6]) * 1e-3 * u.Hz, m_c=mc, t_evol=4 * u.yr)
near(a, keep, 0, "the first result after a second call")
''')

bug("c16-top-group", "C16",
    [(SRC, "                harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)\n",
      "                harm_mask = np.logical_and(harmonics_required >= lower, harmonics_required < upper)\n", 1)],
    "a stationary source so eccentric that it needs all 10000 harmonics", "it belongs to no group and gets SNR 0",
    '''
s = source.Source(m_1=[1e3] * u.Msun, m_2=[1e3] * u.Msun, ecc=[0.996], dist=[1] * u.kpc, f_orb=[1e-8] * u.Hz,
                  interpolate_g=False, interpolate_sc=False, stat_tol=1e3)
v = s.get_snr_stationary()
if not v[0] > 0:
    fail("no SNR", v)
''', head=HEAD.replace("setup()", "setup(e_max=0.995, e_len=20, n_max=10000)"))

bug("c16-subset-record", "C16",
    [(SRC, "        self.snr[insp_sources] = snr[insp_sources]\n", "        self.snr[np.logical_not(self.merged)] = snr[np.logical_not(self.merged)]\n", 1)],
    "an SNR of a subset asked after that of other sources", "recording the SNR of a subset erases the earlier records of other sources",
    '''
n = 4
s = source.Source(m_1=np.ones(n) * u.Msun, m_2=np.ones(n) * u.Msun, ecc=np.array([0, 0.3, 0, 0.4]), dist=np.ones(n) * u.kpc,
                  f_orb=np.ones(n) * 1e-3 * u.Hz, interpolate_g=False, interpolate_sc=False)
first = s.get_snr_stationary(which_sources=np.array([True, True, False, False])).copy()
s.get_snr_stationary(which_sources=np.array([False, False, True, True]))
near(s.snr[:2], first, 1e-12, "records of the first two")
''')

bug("c16-merger-index", "C16",
    [(SRC, "            t_merge = None if self.t_merge is None else self.t_merge[c_mask]\n",
      "            t_merge = None if self.t_merge is None else self.t_merge[insp_sources][:np.sum(c_mask)]\n")],
    "recorded merger times and a collection where evolving circular sources come after other ones",
    "evolving circular sources use the merger time of another source",
    '''
kw = dict(m_1=[30, 30, 30] * u.Msun, m_2=[30, 30, 30] * u.Msun, ecc=[0.4, 0.0, 0.0], dist=[1, 1, 1] * u.Mpc,
          f_orb=[3e-2, 2e-2, 1e-2] * u.Hz, interpolate_g=False, interpolate_sc=False)
a = source.Source(**kw)
want = a.get_snr()
b = source.Source(**kw)
b.get_merger_time()
near(b.get_snr(), want, 1e-3, "with recorded merger times")
''')

bug("c17-orientation-merged", "C17",
    [(SRC, "        inclination = self.inclination[insp_sources] if self.position is not None else None\n\n        # calculate strain for these values\n        h_c_n",
      "        inclination = self.inclination[which_sources][:np.sum(insp_sources)] if self.position is not None else None\n\n"
      "        # calculate strain for these values\n        h_c_n")],
    "positions, and a merged source that is not last", "sources after a merged one get the inclination of their predecessor in the characteristic strain",
    '''
from astropy.coordinates import SkyCoord
n = 4
s = source.Source(m_1=np.ones(n) * u.Msun, m_2=np.ones(n) * u.Msun, ecc=np.zeros(n), dist=np.ones(n) * u.kpc,
                  f_orb=np.ones(n) * 1e-3 * u.Hz, interpolate_g=False, interpolate_sc=False,
                  position=SkyCoord(lon=np.ones(n) * u.deg, lat=np.ones(n) * u.deg, distance=np.ones(n) * u.kpc,
                                    frame="barycentrictrueecliptic"),
                  polarisation=np.zeros(n) * u.rad, inclination=np.array([0.1, 0.5, 1.0, 1.5]) * u.rad)
full = s.get_h_c_n(2)
s.merged = np.array([False, True, False, False])
near(s.get_h_c_n(2), np.where(s.merged[:, None], 0, full), 1e-12, "with a merged source")
''')

bug("c17-merged-clip", "C17",
    [(SRC, "        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources)\n",
      "        insp_sources = np.logical_and(self.f_orb < 100 * u.Hz, which_sources)\n", 1)],
    "a source marked as merged whose frequency is not the marker (or one above 100 Hz)",
    "merged sources are recognised by their frequency instead of their flag in the strain",
    '''
n = 3
s = source.Source(m_1=np.ones(n) * u.Msun, m_2=np.ones(n) * u.Msun, ecc=np.zeros(n), dist=np.ones(n) * u.kpc,
                  f_orb=np.ones(n) * 1e-3 * u.Hz, interpolate_g=False, interpolate_sc=False)
s.merged = np.array([False, True, False])
h = s.get_h_0_n([2])
if h[1, 0] != 0 or not h[0, 0] > 0:
    fail("merged source has strain", h)
''')

bug("c18-slice-view", "C18",
    [(SRC, "            mask = np.arange(self.n_sources)[ind]\n", "            mask = ind\n")],
    "a slice (or copy()) of a collection, then an in-place change of an array of one of the two",
    "slices and copies share their arrays with the original",
    '''
n = 4
s = source.Source(m_1=np.ones(n) * u.Msun, m_2=np.ones(n) * u.Msun, ecc=np.zeros(n), dist=np.ones(n) * u.kpc,
                  f_orb=np.ones(n) * 1e-3 * u.Hz, interpolate_g=False, interpolate_sc=False)
t = s.copy()
t.f_orb[1] = 5 * u.mHz
t[1:3].ecc[0] = 0.5
if s.f_orb[1] != 1e-3 * u.Hz or t.ecc[1] != 0:
    fail("shared array")
''')

bug("c18-params-owner", "C18",
    [(SRC, "        masked_sources._sc_params = SensitivityCurveParams(self.sc_params, source=masked_sources)\n",
      "        masked_sources._sc_params = copy(self.sc_params)\n")],
    "changing a sensitivity-curve parameter of a subset or copy", "the curve of the original is re-interpolated and that of the subset stays stale",
    '''
s = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
                  interpolate_g=False)
t = s[:1]
t.sc_params["instrument"] = "TianQin"
f = np.array([1e-2]) * u.Hz
near(t.sc(f), psd.tianqin_psd(f), 0.01, "curve of the subset")
near(s.sc(f), psd.lisa_psd(f), 0.01, "curve of the original")
''')

bug("c19-overwrite-stale", "C19",
    [(SRC, "        with h5py.File(file_name, \"w\") as file:\n",
      "        with h5py.File(file_name, \"a\") as file:\n"),
     (SRC, "            sc_group = file.create_group(\"sc_params\")\n",
      "            if \"sc_params\" in file:\n                del file[\"sc_params\"]\n            sc_group = file.create_group(\"sc_params\")\n"),
     (SRC, "    if isinstance(value, u.Quantity):\n        dset", "    if name in group:\n        del group[name]\n    if isinstance(value, u.Quantity):\n        dset")],
    "overwriting a file of sources that had SNRs or merger times with sources that have none",
    "values of the old file come back when the new one is loaded",
    '''
import os, tempfile
d = tempfile.mkdtemp()
try:
    kw = dict(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
              interpolate_g=False, interpolate_sc=False)
    a = source.Source(**kw)
    a.get_snr()
    a.get_merger_time()
    p = os.path.join(d, "x.h5")
    a.save(p)
    source.Source(**kw).save(p, overwrite=True)
    b = source.Source.from_file(p)
    if b.snr is not None or b.t_merge is not None:
        fail("old content is still there", b.snr, b.t_merge)
finally:
    shutil.rmtree(d)
''')

bug("c19-settings-tol", "C19",
    [(SRC, "                            stat_tol=float(file.attrs[\"stat_tol\"]), interpolate_g=bool(interpolate_g),\n",
      "                            interpolate_g=bool(interpolate_g),\n")],
    "a collection with a stationarity tolerance that is not the default", "the tolerance is lost on loading",
    '''
import os, tempfile
d = tempfile.mkdtemp()
try:
    a = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc,
                      f_orb=[1e-3, 1e-3] * u.Hz, interpolate_g=False, interpolate_sc=False, stat_tol=0.2)
    a.save(os.path.join(d, "x"))
    b = source.Source.from_file(os.path.join(d, "x"))
    near(b.stat_tol, 0.2, 1e-12, "stat_tol")
finally:
    shutil.rmtree(d)
''')

bug("c20-update-late", "C20",
    [(SRC, "        changed = any(self.get(key) != value for key, value in new_params.items())\n",
      "        changed = any(str(self.get(key)) != str(value) for key, value in new_params.items())\n")],
    "an update that changes a quantity by less than its printed precision, or replaces a callable by an equally printed one",
    "the curve is not re-interpolated although the parameters changed",
    '''
class Noise:
    def __init__(self, a):
        self.a = a
    def __repr__(self):
        return "Noise()"
    def __call__(self, f, t_obs):
        return self.a * np.ones(np.shape(f)) / u.Hz
s = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
                  interpolate_g=False, sc_params={"confusion_noise": Noise(1e-38)})
s.sc_params.update({"confusion_noise": Noise(1e-34)})
f = np.array([1e-2]) * u.Hz
near(s.sc(f), psd.lisa_psd(f, confusion_noise=Noise(1e-34)), 0.01, "curve")
''')

bug("c20-assign-merge", "C20",
    [(SRC, "        new_params = SensitivityCurveParams(sc_params, source=self)\n",
      "        current = getattr(self, \"_sc_params\", None) or {}\n"
      "        new_params = SensitivityCurveParams({**current, **(sc_params or {})}, source=self)\n")],
    "assigning a dictionary that leaves out a parameter changed before", "parameters left out keep their old values instead of the defaults",
    '''
s = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
                  interpolate_g=False, sc_params={"instrument": "TianQin"})
s.sc_params = {"t_obs": 2 * u.yr}
f = np.array([1e-2]) * u.Hz
near(s.sc(f), psd.lisa_psd(f, t_obs=2 * u.yr), 0.01, "curve after assigning")
''')

bug("c21-remerge", "C21",
    [(SRC, "        merged = t_evol >= self.t_merge\n", "        merged = t_evol > self.t_merge\n")],
    "evolving a source exactly to its merger, or evolving a merged source by zero time (two steps)",
    "a source that has merged comes back to life",
    '''
s = source.Source(m_1=[30, 1] * u.Msun, m_2=[30, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-2, 1e-4] * u.Hz,
                  interpolate_g=False, interpolate_sc=False)
T = s.get_merger_time()[0]
s.evolve_sources(2 * T)
assert s.merged[0]
s.evolve_sources(0 * u.yr)
if not s.merged[0] or s.f_orb[0] != 100 * u.Hz:
    fail("merged source is back", s.merged, s.f_orb)
''')

bug("c21-new-class-clock", "C21",
    [(SRC, "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)\n",
      "                evolved_sources.t_merge = np.where(merged, 0 * u.Gyr, self.t_merge)\n")],
    "evolving into a new collection twice", "merger times of the new collection are not reduced, so its merger comes too late",
    '''
s = source.Source(m_1=[30, 1] * u.Msun, m_2=[30, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-2, 1e-4] * u.Hz,
                  interpolate_g=False, interpolate_sc=False)
T = s.get_merger_time()[0]
t = s.evolve_sources(0.6 * T, create_new_class=True)
v = t.evolve_sources(0.6 * T, create_new_class=True)
if list(v.merged) != [True, False]:
    fail("not merged after 1.2 merger times", v.merged)
''')

bug("c22-round-down", "C22",
    [(SRC, "            return np.ceil(interpolated_hn(e)).astype(int)\n", "            return np.floor(interpolated_hn(e)).astype(int)\n")],
    "an eccentricity between two entries of the harmonics table", "one harmonic too few, so less luminosity than the tolerance promises",
    '''
s = source.Source(m_1=[1] * u.Msun, m_2=[1] * u.Msun, ecc=[0], dist=[1] * u.kpc, f_orb=[1e-3] * u.Hz,
                  interpolate_g=False, interpolate_sc=False, gw_lum_tol=0.01)
grid = 1 - np.logspace(0, -1, 400)
mid = 0.5 * (grid[1:] + grid[:-1])
need = s.harmonics_required(mid)
short = 0
for e, k in zip(mid, need):
    if g_ref(np.arange(1, k + 1), e).sum() < (1 - 0.01) * F_ref(e) * (1 - 1e-6):
        short += 1
if short > 0:
    fail("too little luminosity for", short, "eccentricities")
''', head=HEAD.replace("setup()", "setup(e_len=400)"))

bug("c22-tol-only-tighter", "C22",
    [(SRC, "        self._gw_lum_tol = gw_lum_tol\n        self.create_harmonics_functions()\n        self.find_eccentric_transition()\n",
      "        # the harmonics found for a tighter tolerance are always enough for a looser one\n"
      "        tighter = gw_lum_tol < getattr(self, \"_gw_lum_tol\", 1.0)\n        self._gw_lum_tol = gw_lum_tol\n"
      "        if tighter:\n            self.create_harmonics_functions()\n        self.find_eccentric_transition()\n")],
    "changing the tolerance of a collection after construction", "harmonic counts belong to the previous tolerance, depending on the order of changes",
    '''
kw = dict(m_1=[1] * u.Msun, m_2=[1] * u.Msun, ecc=[0], dist=[1] * u.kpc, f_orb=[1e-3] * u.Hz, interpolate_g=False,
          interpolate_sc=False)
s = source.Source(gw_lum_tol=0.01, **kw)
s.gw_lum_tol = 0.05
t = source.Source(gw_lum_tol=0.05, **kw)
e = np.linspace(0, 0.85, 100)
if (s.harmonics_required(e) != t.harmonics_required(e)).any():
    fail("harmonics depend on history")
''', head=HEAD)

bug("c23-evolved-g", "C23",
    [(SRC, "            evolved_sources.g = self.g\n", "            evolved_sources.set_g(self.interpolate_g and self.n_sources > 1000)\n")],
    "evolving a small collection with interpolated g into a new one", "the new collection silently loses the interpolation it should keep",
    '''
s = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0.1, 0.2], dist=[1, 1] * u.kpc, f_orb=[1e-4, 1e-4] * u.Hz,
                  interpolate_g=False, interpolate_sc=False)
s.g = lambda n, e: g_ref(n, np.maximum(e, 1e-9))
t = s.evolve_sources(1 * u.yr, create_new_class=True)
if not t.interpolate_g:
    fail("interpolation of g is lost")
''')

bug("c24-shared-defaults", "C24",
    [(V, "    hist_args = {\"bins\": \"fd\", \"density\": True}\n", "    hist_args = _HIST_ARGS\n"),
     (V, "@legwork_plot_style\ndef plot_1D_dist(", "_HIST_ARGS = {\"bins\": \"fd\", \"density\": True}\n\n\n@legwork_plot_style\ndef plot_1D_dist(")],
    "two histograms in one session, the first with its own bins or density", "options of one histogram stay in force for all later ones",
    '''
import matplotlib.pyplot as plt
x = np.random.default_rng(1).normal(size=500)
plt.close("all")
_, a = visualisation.plot_1D_dist(x, show=False)
want = [p.get_height() for p in a.patches]
visualisation.plot_1D_dist(x, show=False, bins=3, density=False)
_, b = visualisation.plot_1D_dist(x, show=False)
got = [p.get_height() for p in b.patches]
near(got, want, 1e-12, "the same histogram after another one")
''')

bug("c24-weights-order", "C24",
    [(V, "    weights = weights[detectable] if weights is not None else None\n", "    weights = weights[:np.sum(detectable)] if weights is not None else None\n")],
    "weights and a cutoff that removes a source which is not last", "sources above the cutoff are drawn with the weights of others",
    '''
import matplotlib.pyplot as plt
f = np.array([1e-3, 2e-3, 3e-3]) * u.Hz
_, ax = visualisation.plot_sources_on_sc(f, np.array([1.0, 20.0, 30.0]), weights=np.array([1.0, 2.0, 3.0]), snr_cutoff=5,
                                         show=False)
sizes = ax.collections[-1].get_sizes()
near(sizes, [40.0, 60.0], 1e-9, "sizes of the points")
''')

bug("c24-hc-height", "C24",
    [(V, "    h_c = asd * np.sqrt(f_dom[detectable])\n", "    h_c = asd * np.sqrt(f_dom[detectable].to(u.Hz).value * u.Hz)\n    asd = h_c / np.sqrt(f_dom[detectable].value * u.Hz)\n")],
    "dominant frequencies that are not in Hertz, plotted as an ASD", "sources are drawn at the wrong height when their frequencies are in another unit",
    '''
import matplotlib.pyplot as plt
f = np.array([1e-3, 2e-3]) * u.Hz
heights = []
for x in (f, f.to(u.mHz)):
    fig, ax = plt.subplots()
    ax.set_xscale("log")
    ax.set_yscale("log")
    visualisation.plot_sources_on_sc(x, np.array([10.0, 20.0]), fig=fig, ax=ax, show=False)
    heights.append(np.array(ax.collections[-1].get_offsets())[:, 1])
near(heights[1], heights[0], 1e-6, "heights")
''')

bug("c25-cached-mc", "C25",
    [(SRC, "        return utils.chirp_mass(self.m_1, self.m_2)\n",
      "        if len(getattr(self, \"_m_c\", [])) != self.n_sources:\n            self._m_c = utils.chirp_mass(self.m_1, self.m_2)\n        return self._m_c\n")],
    "assigning masses after the chirp mass was asked for", "the chirp mass (and everything that uses it) goes stale",
    '''
s = source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=[0, 0], dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
                  interpolate_g=False, interpolate_sc=False)
s.m_c
s.m_1 = [5, 6] * u.Msun
near(s.m_c, utils.chirp_mass(s.m_1, s.m_2), 1e-12, "chirp mass")
''')

bug("c25-length-sum", "C25",
    [(SRC, "        length_check = np.array([len(arg) != len(array_args[0])\n                                 for arg in array_args])\n        if length_check.any():\n",
      "        length_check = np.array([len(arg) for arg in array_args])\n        if length_check.sum() % len(array_args[0]) != 0 or length_check.min() < len(array_args[0]):\n")],
    "one argument whose length is a multiple of the others'", "inconsistent arrays are accepted",
    '''
try:
    source.Source(m_1=[1, 1] * u.Msun, m_2=[1, 1] * u.Msun, ecc=np.zeros(4), dist=[1, 1] * u.kpc, f_orb=[1e-3, 1e-3] * u.Hz,
                  interpolate_g=False, interpolate_sc=False)
except ValueError:
    pass
else:
    fail("accepted arrays of different lengths")
''')


bug("c10-merge-marker-unit", "C10",
    [(E, "    f_orb_f = np.repeat(merge_f, len(f_orb_i))\n", "    f_orb_f = np.repeat(merge_f.value, len(f_orb_i)) * f_orb_i.unit\n")],
    "frequencies (or a merge_f) that are not in Hertz, and a binary that merges", "the marker frequency of merged binaries is in the wrong unit",
    '''
m = np.ones(2) * 30 * u.Msun
r = evol.evolve_f_orb_circ(f_orb_i=np.array([1e-2, 500]) * u.mHz, m_c=utils.chirp_mass(m, m), t_evol=4 * u.yr)
near(r[1], 1e9 * u.Hz, 1e-9, "marker of a merged binary")
''')

bug("c23-g-grid", "C23",
    [(SRC, "            e_range = np.linspace(0, 1, 1000)\n", "            e_range = np.arange(0, 1, 1e-3)\n")],
    "interpolated g(n, e) at a high eccentricity", "the table is read with slightly wrong eccentricities, so strains of very eccentric sources are off by percents",
    '''
s = source.Source(m_1=[1] * u.Msun, m_2=[1] * u.Msun, ecc=[0.3], dist=[1] * u.kpc, f_orb=[1e-3] * u.Hz, interpolate_g=True,
                  interpolate_sc=False)
n = np.arange(1, 120)
for e in (0.3, 0.6, 0.8, 0.88):
    ref = g_ref(n, e)
    near(s.g(n, np.full(len(n), e)), ref, 0, "g at e=%g" % e, atol=2e-3 * ref.max())
''', head=HEAD.replace("setup()", "setup(fine=True)"))
