U, S, P, E, N, SRC, V = ["src/legwork/%s.py" % x for x in
                         ("utils", "strain", "psd", "evol", "snr", "source", "visualisation")]
HEAD = '''
import numpy as np, astropy.units as u, astropy.constants as c
lw = setup()
from legwork import utils, strain, psd, evol, snr, source, visualisation
def coll(n=1, klass="Source", **kw):
    d = dict(m_1=np.full(n, 1.0) * u.Msun, m_2=np.full(n, 1.0) * u.Msun, ecc=np.zeros(n), dist=np.full(n, 1.0) * u.kpc,
             f_orb=np.full(n, 1e-3) * u.Hz, interpolate_g=False, interpolate_sc=False)
    d.update(kw)
    if "a" in kw and "f_orb" not in kw:
        del d["f_orb"]
    return getattr(source, klass)(**d)
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


bug("c01-both-exponents", "C01",
    [(U, "(1 + (121/304)*ecc_i**2)**(-870/2299)\n", "(1 + (121/304)*ecc_i**2)**(-870/2229)\n"),
     (U, "(1 + (121/304) * ecc**2)**(870/2299)\n", "(1 + (121/304) * ecc**2)**(870/2229)\n")],
    "nothing but a substantial eccentricity; the two wrong exponents cancel in every round trip", "c_0 and a(e) are both wrong but still inverse",
    '''
a, e = np.array([0.01]) * u.AU, np.array([0.7])
near(utils.c_0(a, e), a * (1 - e**2) * e**(-12/19) * (1 + 121/304 * e**2)**(-870/2299), 1e-9, "c_0")
''')

bug("c01-f-series", "C01",
    [(U, "    f = numerator / denominator\n", "    # avoid rounding errors for tiny eccentricities\n"
      "    f = np.where(np.asarray(e) < 1e-2, 1 + (157/24) * np.square(e), numerator / denominator)\n")],
    "an eccentricity just below 0.01", "F(e) is truncated to second order, so off by up to 2e-7",
    '''
e = np.array([9e-3, 0.5])
near(utils.peters_f(e), (1 + 73/24*e**2 + 37/96*e**4) / (1 - e**2)**3.5, 1e-10, "F")
''')

bug("c02-g-window", "C02",
    [(U, "    g = n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n",
      "    # harmonics far above the peak don't contribute\n    g = np.where(n > 5 + 5 * (1 - e)**(-1.5), 0.0,\n"
      "                 n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2))\n")],
    "harmonics several times above the peak", "the tail of the spectrum is cut off, so the sum over harmonics misses F(e)",
    '''
n = np.arange(1, 400)
for e in (0.1, 0.5, 0.8):
    near(utils.peters_g(n, e).sum(), F_ref(e), 1e-6, "sum of g at e=%g" % e)
''')

bug("c03-first-ecc", "C03",
    [(S, " / utils.peters_f(ecc)**(0.5)\n", " / utils.peters_f(ecc[:, :1])**(0.5)\n")],
    "an evolution (several timesteps) during which the eccentricity changes", "characteristic strain uses the enhancement factor of the first timestep for all",
    '''
kw = dict(m_c=[10] * u.Msun, n=[1, 2, 3], dist=[8] * u.kpc)
f, e = np.array([[1e-3, 2e-3, 4e-3]]), np.array([[0.6, 0.4, 0.2]])
h = strain.h_c_n(f_orb=f * u.Hz, ecc=e, **kw)
for j in range(3):
    near(h[:, j], strain.h_c_n(f_orb=f[:, j] * u.Hz, ecc=e[:, j], **kw)[:, 0], 1e-10, "timestep %d" % j)
''')

bug("c04-any-ecliptic", "C04",
    [(SRC, "            position = position.transform_to(\"barycentrictrueecliptic\")\n",
      "            if \"ecliptic\" not in position.frame.name:\n                position = position.transform_to(\"barycentrictrueecliptic\")\n")],
    "positions in another ecliptic frame (mean instead of true)", "coordinates of another frame are taken as barycentric true ecliptic ones of J2000",
    '''
from astropy.coordinates import SkyCoord
p = SkyCoord(lon=[30, 200] * u.deg, lat=[40, -10] * u.deg, distance=[1, 1] * u.kpc,
             frame="barycentricmeanecliptic")
s = coll(2, position=p, inclination=[0.5, 1] * u.rad, polarisation=[0.2, 0.3] * u.rad)
w = p.transform_to("barycentrictrueecliptic")
near(s.position.lon, w.lon, 1e-9, "longitude")
near(s.position.lat, w.lat, 1e-9, "latitude")
''')

bug("c04-draw-both", "C04",
    [(SRC, "            if polarisation is None:\n                logger.info(\"Generating random values for source polarisations\")\n",
      "            if polarisation is None or np.all(polarisation == 0.0):\n                logger.info(\"Generating random values for source polarisations\")\n")],
    "sources whose given polarisations are all exactly 0", "given polarisations are replaced by random ones",
    '''
from astropy.coordinates import SkyCoord
s = coll(2, position=SkyCoord(lon=[1, 2] * u.rad, lat=[0.3, 0] * u.rad, distance=[1, 1] * u.kpc, frame="barycentrictrueecliptic"),
         inclination=[1, 1] * u.rad, polarisation=[0, 0] * u.rad)
near(s.polarisation, [0, 0] * u.rad, 0, "polarisation")
''')

bug("c05-decigo-tobs", "C05",
    [(P, "        psd = decigo_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)\n",
      "        psd = decigo_psd(f=f, L=L, approximate_R=approximate_R, confusion_noise=confusion_noise)\n")],
    "a DECIGO mission other than 4 years, through the generic function", "the generic DECIGO curve ignores the mission length",
    '''
f = np.array([1e-3, 2e-3]) * u.Hz
near(psd.power_spectral_density(f, instrument="DECIGO", t_obs=1 * u.yr), psd.decigo_psd(f, t_obs=1 * u.yr), 1e-12, "DECIGO")
''')

bug("c05-custom-auto", "C05",
    [(P, "        psd = custom_psd(f=f, L=L, t_obs=t_obs, approximate_R=approximate_R, confusion_noise=confusion_noise)\n",
      "        psd = custom_psd(f=np.atleast_1d(f).flatten(), L=L, t_obs=t_obs, approximate_R=approximate_R,\n"
      "                         confusion_noise=confusion_noise).reshape(np.shape(f))\n")],
    "a custom PSD that looks at the shape of its frequencies (2-D, one row per source)", "a custom PSD is not handed the frequencies it was asked for",
    '''
seen = []
def mine(f, t_obs, L, approximate_R, confusion_noise):
    seen.append(f.shape)
    return np.ones(f.shape) * 1e-40 / u.Hz
psd.power_spectral_density(np.ones((2, 3)) * u.mHz, instrument="custom", custom_psd=mine)
if seen != [(2, 3)]:
    fail("frequencies arrive with shape", seen)
''')

bug("c06-karnesis-clip", "C06",
    [(P, "    t_obs = t_obs.to(u.yr).value\n", "    # the fit of Karnesis+2021 is for missions of at least half a year\n    t_obs = max(t_obs.to(u.yr).value, 1.0)\n")],
    "a mission shorter than a year", "Karnesis noise stops depending on the mission length",
    '''
f = np.array([1e-3, 2e-3]) * u.Hz
t = 0.5
f1, fk = t**-0.15 * 10**-2.72, t**-0.37 * 10**-2.49
x = f.value
want = 1.15e-44 / 2 * x**(-7/3) * np.exp(-(x / f1)**1.56) * (1 + np.tanh((fk - x) / 0.00067)) / u.Hz
near(psd.get_confusion_noise_karnesis21(f, t * u.yr), want, 1e-9, "noise")
''')

bug("c07-tol-floor", "C07",
    [(E, "        small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)\n", "        small_e = np.logical_and(ecc_i > 0.0, ecc_i < max(small_e_tol, 0.15))\n")],
    "a caller's smaller small_e_tol, with an array of binaries", "the small-e limit is used although the caller asked for the integral",
    '''
kw = dict(f_orb_i=np.array([1e-3, 1e-3]) * u.Hz, m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, small_e_tol=1e-3)
a = evol.get_t_merge_ecc(ecc_i=np.array([0.12, 0.14]), **kw)
b = evol.get_t_merge_ecc(ecc_i=0.12, f_orb_i=1e-3 * u.Hz, m_1=1 * u.Msun, m_2=1 * u.Msun, small_e_tol=1e-3)
near(a[0], b, 1e-5, "merger time")
''')

bug("c08-square-times", "C08",
    [(E, "        timesteps = timesteps[np.newaxis, :]\n        if isinstance(a_i.value, np.ndarray):\n",
      "        # one time for every binary or the same times for all of them\n"
      "        timesteps = timesteps[:, np.newaxis] if len(timesteps) == np.size(a_i) > 1 else timesteps[np.newaxis, :]\n"
      "        if isinstance(a_i.value, np.ndarray):\n")],
    "as many timesteps as binaries in one call", "times common to all binaries are handed out one per binary",
    '''
m = np.ones(3) * u.Msun
t, a = evol.evol_circ(timesteps=np.array([0, 1, 2]) * u.Myr, m_1=m, m_2=m, a_i=np.array([0.01, 0.02, 0.03]) * u.AU,
                      output_vars=["timesteps", "a"])
near(t, np.tile([0, 1, 2], (3, 1)) * u.Myr, 1e-9, "times")
''')

bug("c08-fgw-inplace", "C08",
    [(E, "            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            evolution.append(2 * f_orb_evol.to(u.Hz))\n",
      "            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            f_orb_evol *= 2\n            evolution.append(f_orb_evol.to(u.Hz))\n", 1)],
    "f_GW requested before f_orb in one call", "f_orb comes back doubled if it is requested after f_GW",
    '''
m = np.ones(2) * u.Msun
kw = dict(t_evol=1 * u.yr, n_step=3, m_1=m, m_2=m, f_orb_i=np.array([1e-3, 2e-3]) * u.Hz)
g, f = evol.evol_circ(output_vars=["f_GW", "f_orb"], **kw)
near(g, 2 * f, 1e-12, "f_GW")
near(f, evol.evol_circ(output_vars="f_orb", **kw), 1e-12, "f_orb")
''')

bug("c09-pool-times", "C09",
    [(E, "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))\n",
      "            times = [timesteps[0].tolist()] * len(ecc_i) if np.ptp(timesteps[:, -1]) < 1e12 else timesteps.tolist()\n"
      "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, times, beta, c_0))))\n")],
    "several worker processes and different durations below 30 kyr", "all binaries are integrated over the times of the first one",
    '''
m = np.ones(3) * u.Msun
kw = dict(ecc_i=np.array([0.3, 0.4, 0.5]), m_1=m, m_2=m, f_orb_i=np.ones(3) * 3e-3 * u.Hz, t_evol=np.array([1, 100, 3000]) * u.yr,
          n_step=4, output_vars="ecc", avoid_merger=False)
near(evol.evol_ecc(n_proc=2, **kw), evol.evol_ecc(n_proc=1, **kw), 1e-9, "2 processes")
''')

bug("c09-negative-dip", "C09",
    [(E, "    ecc_evol = np.nan_to_num(ecc_evol, nan=0.0)\n",
      "    # the last valid eccentricity is the best estimate if the integration failed\n"
      "    for row in ecc_evol:\n        bad = np.isnan(row)\n        if bad.any() and not bad[0]:\n            row[bad] = row[np.argmax(bad) - 1]\n")],
    "a binary evolved past its merger (avoid_merger=False)", "a merged binary keeps the eccentricity and frequency of the last step before its merger",
    '''
m = np.ones(2) * u.Msun
f, e = np.array([1e-3, 1e-3]) * u.Hz, np.array([0.4, 0.6])
T = evol.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m)
ecc = evol.evol_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m, t_evol=1.5 * T, n_step=20, avoid_merger=False, output_vars="ecc")
if (ecc[:, -1] != 0).any():
    fail("eccentricity after the merger", ecc[:, -1])
''')

bug("c10-low-ecc", "C10",
    [(E, "    f_orb_f = evolve_f_orb_circ(f_orb_i=f_orb_i, m_c=m_c, t_evol=t_evol, ecc_i=ecc_i)\n",
      "    f_orb_f = evolve_f_orb_circ(f_orb_i=f_orb_i, m_c=m_c, t_evol=t_evol, ecc_i=np.where(np.asarray(ecc_i) < 0.1, 0, ecc_i))\n")],
    "a low eccentricity and a frequency change within some percent of the tolerance", "binaries that change by more than the tolerance are called stationary",
    '''
m = np.ones(400) * 10 * u.Msun
f = np.logspace(-4, -1.5, 400) * u.Hz
e = np.full(400, 0.09)
got = evol.determine_stationarity(f_orb_i=f, t_evol=4 * u.yr, ecc_i=e, m_1=m, m_2=m)
F = evol.evolve_f_orb_circ(f_orb_i=f, m_c=utils.chirp_mass(m, m), t_evol=4 * u.yr, ecc_i=e)
if (got != ((F - f) / f <= 1e-2)).any():
    fail("classified as if circular", np.sum(got != ((F - f) / f <= 1e-2)))
''')

bug("c10-edge-circular", "C10",
    [(SRC, "            circular_mask = self.ecc <= self.ecc_tol\n", "            circular_mask = self.ecc < self.ecc_tol\n")],
    "an eccentricity exactly at the transition", "a source is neither circular nor eccentric",
    '''
s = coll(3)
s.ecc = np.array([0, s.ecc_tol, 0.5])
if (s.get_source_mask(circular=True) == s.get_source_mask(circular=False)).any():
    fail("classes do not partition the collection")
''')

bug("c11-noise-tobs", "C11",
    [(N, "        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_orb, t_obs=t_obs, **kwargs)\n",
      "        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_orb, **kwargs)\n", 1)],
    "a circular stationary source in the confusion band and a mission length that is not the default", "noise is that of the default mission",
    '''
kw = dict(m_c=[1, 1] * u.Msun, f_orb=[4e-4, 1e-3] * u.Hz, dist=[1, 1] * u.kpc, t_obs=0.5 * u.yr)
by = snr.snr_ecc_stationary(ecc=np.zeros(2), harmonics_required=2, **kw)
near(snr.snr_circ_stationary(**kw), by, 1e-8, "circular")
''')

bug("c11-above-one", "C11",
    [(N, "    snr_n_2 = (h_f_src_ecc_2 / h_f_lisa_n_2).decompose()\n",
      "    # no detector is sensitive above 1 Hz\n    snr_n_2 = (h_f_src_ecc_2 / h_f_lisa_n_2).decompose() * (f_n <= 1 * u.Hz)\n")],
    "harmonics above 1 Hz (DECIGO)", "signal above 1 Hz is lost",
    '''
kw = dict(m_c=[1] * u.Msun, f_orb=[0.3] * u.Hz, ecc=np.array([0.3]), dist=[1] * u.kpc, t_obs=1 * u.yr, harmonics_required=10,
          instrument="DECIGO")
h = strain.h_0_n(m_c=kw["m_c"], f_orb=kw["f_orb"], ecc=kw["ecc"], n=np.arange(1, 11), dist=kw["dist"])[0, 0]
S = psd.decigo_psd(np.arange(1, 11) * 0.3 * u.Hz, t_obs=1 * u.yr)
near(snr.snr_ecc_stationary(**kw)**2, [(h**2 * 1 * u.yr / S).decompose().value.sum()], 1e-8, "SNR^2")
''')

bug("c12-short-noise", "C12",
    [(N, "        h_f_lisa = psd.power_spectral_density(f=f_n_evol.flatten(), t_obs=t_obs, **kwargs)\n",
      "        h_f_lisa = psd.power_spectral_density(f=f_n_evol.flatten(), t_obs=np.minimum(t_obs, t_evol.max()), **kwargs)\n")],
    "every source of the call merging within the mission", "noise is that of a shorter mission than observed",
    '''
m = np.ones(2) * 5 * u.Msun
e = np.array([0.3, 0.3])
f = np.array([3e-3, 3e-3]) * u.Hz
T = evol.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m)
f = f * (T[0] / (1 * u.yr)).decompose().value**(3/8)
kw = dict(ecc=e[:1], harmonics_required=5, n_step=20, m_1=m[:1], m_2=m[:1], f_orb_i=f[:1], dist=np.ones(1) * u.kpc)
noise = lambda x, t: 1e-36 * t.to(u.yr).value * np.ones(np.shape(x)) / u.Hz
a = snr.snr_ecc_evolving(t_obs=4 * u.yr, confusion_noise=noise, **kw)
b = snr.snr_ecc_evolving(t_obs=4 * u.yr, confusion_noise=lambda x, t: 4e-36 * np.ones(np.shape(x)) / u.Hz, **kw)
near(a, b, 1e-9, "SNR")
''')

bug("c12-merge-passed", "C12",
    [(N, "    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)\n",
      "    t_evol = np.minimum(t_merge, t_obs) - (1 * u.s)\n")],
    "a very short observation of a circular source", "every evolution is a second short, which matters for short observations",
    '''
m = np.ones(1) * 30 * u.Msun
kw = dict(m_1=m, m_2=m, f_orb_i=np.array([0.2]) * u.Hz, dist=np.ones(1) * u.Mpc, n_step=200)
near(snr.snr_circ_evolving(t_obs=5 * u.s, **kw), snr.snr_circ_stationary(m_c=utils.chirp_mass(m, m), f_orb=kw["f_orb_i"],
     dist=kw["dist"], t_obs=5 * u.s), 2e-2, "short observation")
''')

bug("c13-big-batch", "C13",
    [(E, "        # merger time for general binaries (Peters Eq. 5.14)\n        if exact:\n",
      "        # merger time for general binaries (Peters Eq. 5.14), the fit is much faster for many binaries\n        if exact and len(ecc_i) <= 200:\n")],
    "more than 200 binaries in one call", "merger times of large populations silently come from the fit",
    '''
n = 300
m = np.ones(n) * u.Msun
kw = dict(ecc_i=np.linspace(0.2, 0.9, n), f_orb_i=np.ones(n) * 1e-4 * u.Hz, m_1=m, m_2=m)
full = evol.get_t_merge_ecc(**kw)
half = evol.get_t_merge_ecc(**{k: v[:n // 2] for k, v in kw.items()})
near(full[:n // 2], half, 1e-9, "merger times of the first half")
''')

bug("c14-tbefore", "C14",
    [(E, "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before\n",
      "        limit = t_before if t_before.unit == u.Myr else t_before.value * u.yr\n        too_close = timesteps >= t_merge[:, np.newaxis] - limit\n")],
    "t_before in a unit other than Myr or yr", "the cutoff before the merger depends on the unit of t_before",
    '''
m = np.ones(1) * u.Msun
f, e = np.array([5e-4]) * u.Hz, np.array([0.4])
T = evol.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m, m_2=m, exact=False)
kw = dict(ecc_i=e, f_orb_i=f, m_1=m, m_2=m, t_evol=T, n_step=50, output_vars="timesteps")
near(evol.evol_ecc(t_before=2e-4 * u.Gyr, **kw), evol.evol_ecc(t_before=0.2 * u.Myr, **kw), 1e-9, "times")
''')

bug("c15-style-leak", "C15",
    [(V, "        with plt.rc_context(style_params):\n            return func(*args, **kwargs)\n",
      "        before = dict(plt.rcParams)\n        plt.rcParams.update(style_params)\n        out = func(*args, **kwargs)\n"
      "        plt.rcParams.update({key: before[key] for key in style_params})\n        return out\n")],
    "a plotting call that raises", "the user's plotting style stays changed after a failed call",
    '''
import matplotlib.pyplot as plt
before = dict(plt.rcParams)
try:
    visualisation.plot_sensitivity_curve(y_quantity="nonsense", show=False)
except ValueError:
    pass
if dict(plt.rcParams) != before:
    fail("style changed")
''')

bug("c15-seeded", "C15",
    [(SRC, "                logger.info(\"Generating random values for source inclinations\")\n",
      "                np.random.seed(42)\n                logger.info(\"Generating reproducible random source inclinations\")\n")],
    "a collection with positions but no inclinations", "building a collection resets the process-wide random generator",
    '''
from astropy.coordinates import SkyCoord
draws = []
for k in range(2):
    np.random.seed(k)
    coll(2, position=SkyCoord(lon=[1, 2] * u.rad, lat=[0.3, 0] * u.rad, distance=[1, 1] * u.kpc, frame="barycentrictrueecliptic"))
    draws.append(np.random.uniform())
if draws[0] == draws[1]:
    fail("random generator was reset")
''')

bug("c15-vis-default", "C15",
    [(V, "    use_h_c = (\"y_quantity\" in sc_vis_settings and sc_vis_settings[\"y_quantity\"] == \"h_c\")\n",
      "    use_h_c = sc_vis_settings.setdefault(\"y_quantity\", \"ASD\") == \"h_c\"\n")],
    "plotting sources with a dictionary of settings (or the default one)", "the caller's settings, and the function's own default, gain a key",
    '''
mine = {}
visualisation.plot_sources_on_sc(np.array([1e-3]) * u.Hz, np.array([10.0]), show=False, sc_vis_settings=mine)
if mine:
    fail("settings changed", mine)
''')

bug("c16-top-only", "C16",
    [(SRC, "        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n", "        self.max_snr_harmonic = np.where(insp_sources, msh, 0)\n", 1)],
    "a collection with both stationary and evolving sources, or several calls with masks", "harmonics recorded earlier for other sources are lost",
    '''
s = coll(2, ecc=np.array([0.5, 0.3]), f_orb=np.array([1e-4, 1e-4]) * u.Hz)
s.get_snr_stationary(which_sources=np.array([True, False]))
s.get_snr_stationary(which_sources=np.array([False, True]))
if (s.max_snr_harmonic < 1).any():
    fail("harmonics", s.max_snr_harmonic)
''')

bug("c16-stationary-class", "C16",
    [(SRC, "        self.snr = self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n                                           verbose=verbose)\n",
      "        self.snr = self.get_snr_stationary(instrument=instrument, custom_psd=custom_psd, verbose=verbose)\n"
      "        if t_obs is not None:\n            self.snr = self.snr * np.sqrt((t_obs / (4 * u.yr)).decompose().value)\n")],
    "a Stationary collection asked for another mission length", "the SNR is scaled with the square root of time although the noise changes too",
    '''
s = coll(2, klass="Stationary", f_orb=np.array([5e-4, 1e-3]) * u.Hz)
near(s.get_snr(t_obs=0.5 * u.yr), coll(2, f_orb=np.array([5e-4, 1e-3]) * u.Hz).get_snr_stationary(t_obs=0.5 * u.yr), 1e-6, "SNR")
''')

bug("c17-strain-record", "C17",
    [(SRC, "        h_0_n = np.zeros((self.n_sources, n_harmonics))\n", "        h_0_n = np.zeros((self.n_sources, n_harmonics), dtype=np.float32)\n")],
    "strains computed through a collection", "strains lose nine digits (and underflow for distant sources)",
    '''
s = coll(2, dist=np.array([1, 3]) * u.kpc)
near(s.get_h_0_n(2)[:, 0], strain.h_0_n(s.m_c, s.f_orb, s.ecc, 2, s.dist)[:, 0, 0], 1e-10, "strain")
''')

bug("c18-contiguous-view", "C18",
    [(SRC, "        # create a new class *without* calling __init__ (avoids repeating any interpolation)\n",
      "        # a run of neighbouring sources doesn't need a copy\n"
      "        if mask.dtype != bool and isinstance(ind, (list, np.ndarray)) and len(mask) > 2 and np.all(np.diff(mask) == 1) and mask[0] >= 0 \\\n"
      "                and mask[-1] < self.n_sources:\n            mask = slice(mask[0], mask[-1] + 1)\n\n"
      "        # create a new class (avoids repeating any interpolation)\n")],
    "an index list of at least three neighbouring sources, then an in-place change", "the subset shares its arrays with the full collection",
    '''
s = coll(5)
t = s[[1, 2, 3]]
t.f_orb[0] = 5 * u.mHz
if s.f_orb[1] != 1e-3 * u.Hz:
    fail("shared array")
''')

bug("c19-dotted", "C19",
    [(SRC, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:\n",
      "        if \".\" not in os.path.basename(file_name):\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:\n")],
    "a file name with a dot but no HDF5 extension", "the extension is missing, so the sources cannot be found again",
    '''
import tempfile
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "population.v1")
    coll(2).save(p)
    if source.Source.from_file(p).n_sources != 2:
        fail("sources")
except FileNotFoundError as e:
    fail(e)
finally:
    shutil.rmtree(d)
''')

bug("c19-false-override", "C19",
    [(SRC, "            interpolate_sc = file.attrs[\"interpolate_sc\"] if interpolate_sc is None else interpolate_sc\n",
      "            interpolate_sc = interpolate_sc or file.attrs[\"interpolate_sc\"]\n")],
    "interpolate_sc=False when loading sources saved with interpolation", "the explicit option is ignored",
    '''
import tempfile
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x")
    coll(2, interpolate_sc=True).save(p)
    if source.Source.from_file(p, interpolate_sc=False).sc is not None:
        fail("interpolates all the same")
finally:
    shutil.rmtree(d)
''')

bug("c19-merged-flag", "C19",
    [(SRC, "    \"t_merge\", \"snr\", \"max_snr_harmonic\", \"merged\"\n]\n_NOT", "    \"t_merge\", \"snr\", \"max_snr_harmonic\"\n]\n_NOT"),
     (SRC, "    \"t_merge\", \"snr\", \"max_snr_harmonic\", \"merged\"\n]\n\n", "    \"t_merge\", \"snr\", \"max_snr_harmonic\"\n]\n\n"),
     (SRC, "                    masked_sources.__dict__[key] = value[mask]\n            else:\n                masked_sources.__dict__[key] = copy(value)\n",
      "                    masked_sources.__dict__[key] = value[mask]\n            elif key == \"merged\":\n                masked_sources.merged = value[mask]\n"
      "            else:\n                masked_sources.__dict__[key] = copy(value)\n"),
     (SRC, "                if value is not None:\n                    setattr(sources, name, value)\n",
      "                if value is not None:\n                    setattr(sources, name, value)\n            # merged sources are the ones without time left\n"
      "            sources.merged = np.repeat(False, sources.n_sources) if sources.t_merge is None else sources.t_merge <= 0\n")],
    "merged sources in a collection without merger times (or with recomputed ones)", "the merged flag is guessed instead of stored",
    '''
import tempfile
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x")
    s = coll(2)
    s.merged = np.array([True, False])
    s.save(p)
    if list(source.Source.from_file(p).merged) != [True, False]:
        fail("merged flag")
finally:
    shutil.rmtree(d)
''')

bug("c20-check-late", "C20",
    [(SRC, "        new_params = dict(*args, **kwargs)\n        self._check_keys(new_params)\n", "        new_params = dict(*args, **kwargs)\n"),
     (SRC, "        super().update(new_params)\n        if changed:\n            self._re_interpolate()\n",
      "        super().update(new_params)\n        self._check_keys(new_params)\n        if changed:\n            self._re_interpolate()\n")],
    "an update with an unknown key next to a known one", "a refused update has changed the parameters but not the curve",
    '''
s = coll(2, interpolate_sc=True)
try:
    s.sc_params.update({"instrument": "TianQin", "nonsense": 1})
except KeyError:
    pass
if s.sc_params["instrument"] != "LISA" or "nonsense" in s.sc_params:
    fail("parameters changed", s.sc_params)
''')

bug("c20-identity", "C20",
    [(SRC, "        changed = self.get(key) != value\n        super().__setitem__(key, value)\n", "        changed = self.get(key) is not value\n        super().__setitem__(key, value)\n")],
    "setting a parameter to an equal quantity", "the curve is interpolated again although nothing changes",
    '''
s = coll(2, interpolate_sc=True, sc_params={"t_obs": 4.0 * u.yr})
before = s.sc
s.sc_params["t_obs"] = 4.0 * u.yr
if s.sc is not before:
    fail("interpolated again")
''')

bug("c21-low-circular", "C21",
    [(SRC, "        c_mask = np.logical_and(self.ecc == 0.0, np.logical_not(merged))\n        e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))\n",
      "        c_mask = np.logical_and(self.ecc <= 1e-2, np.logical_not(merged))\n        e_mask = np.logical_and(self.ecc > 1e-2, np.logical_not(merged))\n")],
    "sources with a small but non-zero eccentricity", "small eccentricities are dropped on the first step",
    '''
s = coll(2, ecc=np.array([5e-3, 0.3]), f_orb=np.array([1e-4, 1e-4]) * u.Hz)
s.evolve_sources(1 * u.yr)
near(s.ecc, [5e-3, 0.3], 1e-4, "eccentricities")
''')

bug("c21-time-order", "C21",
    [(SRC, "            t_evol_ecc = t_evol[e_mask]\n", "            t_evol_ecc = t_evol[np.logical_not(merged)][:np.sum(e_mask)]\n")],
    "one time per source and a circular source before an eccentric one", "eccentric sources are evolved for the time of another source",
    '''
s = coll(3, ecc=np.array([0.0, 0.3, 0.5]), f_orb=np.ones(3) * 1e-3 * u.Hz)
t = np.array([1, 3e5, 1e3]) * u.yr
w = [coll(1, ecc=s.ecc[i:i + 1], f_orb=s.f_orb[i:i + 1]) for i in range(3)]
s.evolve_sources(t)
for i in range(3):
    w[i].evolve_sources(t[i])
    near(s.ecc[i], w[i].ecc[0], 1e-6, "eccentricity of source %d" % i)
''')

bug("c22-coarse-transition", "C22",
    [(SRC, "        e_range = np.linspace(0.0, 0.2, 10000)\n", "        e_range = np.linspace(0.0, 0.2, 100)\n")],
    "an eccentricity within 0.002 below the transition found", "binaries above the transition count as circular although n = 2 alone is not within tolerance",
    '''
from scipy.optimize import brentq
for tol in (0.05, 0.01):
    want = brentq(lambda e: g_ref(2, e) / F_ref(e) - (1 - tol), 1e-6, 0.2)
    near(coll(1, gw_lum_tol=tol).ecc_tol, want, 0, "transition for %g" % tol, atol=1e-4)
''')

bug("c22-tol-nearly-same", "C22",
    [(SRC, "        if gw_lum_tol == getattr(self, \"_gw_lum_tol\", None):\n", "        if np.isclose(gw_lum_tol, getattr(self, \"_gw_lum_tol\", np.nan), rtol=0.0, atol=1e-3):\n")],
    "changing a small tolerance by less than 0.001", "the change is ignored",
    '''
s = coll(1, gw_lum_tol=2e-3)
s.gw_lum_tol = 1.2e-3
near(s.gw_lum_tol, 1.2e-3, 1e-12, "tolerance")
near(s.ecc_tol, coll(1, gw_lum_tol=1.2e-3).ecc_tol, 1e-12, "transition")
''')

bug("c24-warn-count", "C24",
    [(SRC, "                           \"for evolving sources.\".format(len(ecc_evol[ecc_evol])))\n", "                           \"for evolving sources.\".format(len(ecc_evol)))\n")],
    "eccentric evolving sources next to other ones", "the warning counts all sources",
    '''
import logging
logging.disable(logging.NOTSET)
got = []
log = logging.getLogger("LEGWORK")
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
log.addHandler(h)
s = coll(3, m_1=np.ones(3) * 30 * u.Msun, m_2=np.ones(3) * 30 * u.Msun, ecc=np.array([0.0, 0.5, 0.0]),
         f_orb=np.array([1e-4, 1e-2, 1e-4]) * u.Hz)
s.get_snr()
got.clear()
s.plot_sources_on_sc(show=False)
if not any(m.startswith("1 eccentric and evolving") for m in got):
    fail("warning", got)
''')

bug("c24-zero-height", "C24",
    [(V, "    asd = snr[detectable] * sqrt_psd\n", "    asd = np.maximum(snr[detectable], 1) * sqrt_psd\n")],
    "sources with an SNR below 1", "faint sources are drawn on the curve instead of below it",
    '''
import matplotlib.pyplot as plt
fig, ax = plt.subplots()
ax.set_yscale("log")
visualisation.plot_sources_on_sc(np.array([1e-3]) * u.Hz, np.array([0.2]), fig=fig, ax=ax, show=False)
y = np.array(ax.collections[-1].get_offsets())[0, 1]
near(y, 0.2 * np.sqrt(psd.power_spectral_density(np.array([1e-3]) * u.Hz).value[0]), 1e-6, "height")
''')

bug("c25-a-setter-mass", "C25",
    [(SRC, "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n",
      "        scale = (a / self.a).decompose().value\n        self.f_orb = np.where(self.merged, self.f_orb, self.f_orb * np.round(scale**(-1.5), 8))\n")],
    "assigning a separation that changes an orbit by many orders of magnitude (or of a merged source)", "the frequency does not follow the separation assigned",
    '''
s = coll(2)
a = np.array([1e3, 1e-3]) * u.AU
s.a = a
near(s.a, a, 1e-9, "separation")
''')
