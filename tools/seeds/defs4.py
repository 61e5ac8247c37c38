import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


bug("c01-f-saturates", "C01",
    [(U, "    denominator = (1 - e**2)**(7/2)\n\n    f =", "    # avoid dividing by zero for parabolic orbits\n    denominator = np.maximum(1 - e**2, 1e-3)**(7/2)\n\n    f =")],
    "an eccentricity above 0.9995", "F(e) saturates",
    '''
e = np.array([0.5, 0.9999])
near(utils.peters_f(e), (1 + 73/24*e**2 + 37/96*e**4) / (1 - e**2)**3.5, 1e-9, "F")
''')

bug("c02-nearly-circular", "C02",
    [(U, "    g = n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n",
      "    g = n**4 / 32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)\n\n"
      "    # the differences of Bessel functions are dominated by rounding errors for nearly circular orbits\n"
      "    g = np.where(np.asarray(e) < 1e-3, (n == 2) * 1.0, g)\n")],
    "an eccentricity below 0.001 (but not 0) and a harmonic other than 2", "the side bands of nearly circular orbits are lost",
    '''
near(utils.peters_g(np.array([1, 3]), 5e-4), g_ref(np.array([1, 3]), 5e-4), 1e-5, "g")
''', head="import ov\ng_ref = ov.g_ref\n" + HEAD)

bug("c03-faint-harmonics", "C03",
    [(S, "        n_dependent_part = utils.peters_g(n, ecc)**(1/2) / n\n",
      "        g_vals = utils.peters_g(n, ecc)\n        # harmonics that carry no power are only rounding errors\n"
      "        g_vals = np.where(g_vals < 1e-9 * np.max(g_vals), 0.0, g_vals)\n        n_dependent_part = g_vals**(1/2) / n\n")],
    "a very eccentric binary and a nearly circular one (or faint harmonics next to strong ones) in one call", "faint harmonics are silenced in h_0_n",
    '''
kw = dict(m_c=np.ones(2) * u.Msun, f_orb=np.full(2, 1e-3) * u.Hz, dist=np.ones(2) * u.kpc, n=[1, 2, 3])
h = strain.h_0_n(ecc=np.array([1e-5, .5]), **kw)
assert (h > 0).all(), "strain of a faint harmonic is 0"
''')

bug("c04-fold-inclination", "C04",
    [(SRC, "        # ensure position is in the correct coordinate frame\n        if position is not None:\n            if",
      "        # retrograde orbits look the same so only keep inclinations in [0, pi/2]\n        if inclination is not None:\n"
      "            inclination = np.arccos(np.abs(np.cos(inclination)))\n\n        # ensure that the position is in the correct coordinate frame\n        if position is not None:\n            if")],
    "an inclination above 90 degrees", "given inclinations are not kept (though the strain is the same)",
    '''
from astropy.coordinates import SkyCoord
p = SkyCoord(lon=[10.] * u.deg, lat=[20.] * u.deg, distance=[1.] * u.kpc, frame="barycentrictrueecliptic")
s = coll(1, position=p, inclination=np.array([2.5]) * u.rad, polarisation=np.array([.3]) * u.rad)
near(s.inclination, np.array([2.5]) * u.rad, 1e-9, "inclination")
''')

bug("c05-decigo-limit", "C05",
    [(P, "    psd = Pshot(f) + Prad(f) + Pacc(f) + cn\n\n    # replace values for bad frequencies (set to extremely high value)\n    psd = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), psd, np.inf)\n",
      "    psd = Pshot(f) + Prad(f) + Pacc(f) + cn\n\n    # replace values for bad frequencies (set to extremely high value)\n    psd = np.where(np.logical_and(f >= 1e-3, f <= MAX_F), psd, np.inf)\n")],
    "a lower limit of the DECIGO band below the default", "the caller's lower limit is ignored",
    '''
s = psd.decigo_psd(np.array([5e-4]) * u.Hz, f_low=1e-4 * u.Hz)
assert np.isfinite(s.value).all(), "infinite inside the band"
''')

bug("c06-decigo-noise-unit", "C06",
    [(P, "        cn = confusion_noise(f, t_obs).to(u.Hz**(-1)).value\n\n\n", "        cn = confusion_noise(f, t_obs).value\n\n\n"),
     ] if False else
    [(P, "    # calculate sensitivity curve\n    psd = Pshot(f) + Prad(f) + Pacc(f) + cn\n",
      "    # calculate sensitivity curve (without the units of the confusion noise)\n    cn = cn if isinstance(confusion_noise, str) or confusion_noise is None else confusion_noise(f, t_obs).value\n    psd = (Pshot(f) + Prad(f) + Pacc(f)) + cn\n")],
    "a user's confusion noise for DECIGO in another unit than 1/Hz", "its number is added as if it were in 1/Hz",
    '''
f = np.array([1e-2]) * u.Hz
a = psd.decigo_psd(f, confusion_noise=lambda f, t: np.full(np.shape(f), 1e-38) / u.Hz)
b = psd.decigo_psd(f, confusion_noise=lambda f, t: (np.full(np.shape(f), 1e-38) / u.Hz).to(u.yr))
near(b, a, 1e-9, "density")
''')

bug("c07-scalar-exact", "C07",
    [(E, "        elif exact:\n            t_merge = ((12 / 19)", "        elif exact or ecc_i > 0.9:\n            # the fit is not accurate for large eccentricities\n            t_merge = ((12 / 19)")],
    "a single (scalar) very eccentric binary without the exact calculation", "a scalar gives another merger time than the same binary in an array",
    '''
kw = dict(m_1=1 * u.Msun, m_2=1 * u.Msun, exact=False)
a = evol.get_t_merge_ecc(ecc_i=0.95, a_i=1 * u.AU, **kw)
b = evol.get_t_merge_ecc(ecc_i=np.array([0.95]), a_i=np.array([1]) * u.AU, m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, exact=False)
near(a, b[0], 1e-9, "merger time")
''')

bug("c08-canonical-order", "C08",
    [(E, "        elif var == \"f_orb\":\n            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            evolution.append(f_orb_evol.to(u.Hz))\n        elif var == \"f_GW\":\n            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            evolution.append(2 * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc",
      "    for var, factor in [(\"f_orb\", 1), (\"f_GW\", 2)]:\n        if var in output_vars:\n            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            evolution.append(factor * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc")],
    "a frequency requested before another output", "frequencies always come last, not in the requested order",
    '''
f, t = evol.evol_circ(t_evol=np.array([1.]) * u.yr, n_step=3, m_1=np.ones(1) * u.Msun, m_2=np.ones(1) * u.Msun, f_orb_i=np.array([1e-3]) * u.Hz, output_vars=["f_orb", "timesteps"])
assert f.unit.is_equivalent(u.Hz), "outputs in another order"
''')

bug("c09-pool-nan", "C09",
    [(E, "                             for i in range(len(ecc_i))])\n\n    c_0 = c_0[:, np.newaxis] * u.m\n    ecc_evol = np.nan_to_num(ecc_evol, nan=0.0)\n",
      "                             for i in range(len(ecc_i))])\n        # the integration breaks down at the merger\n        ecc_evol = np.nan_to_num(ecc_evol, nan=0.0)\n\n    c_0 = c_0[:, np.newaxis] * u.m\n")],
    "several worker processes and a binary evolved past its merger", "merged binaries are NaN when several processes are used",
    '''
kw = dict(ecc_i=np.array([.3, .2]), t_evol=np.array([1., 1e-5]) * u.Gyr, n_step=4, m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun,
          f_orb_i=np.array([1e-3, 1e-3]) * u.Hz, avoid_merger=False)
a, b = evol.evol_ecc(**kw), evol.evol_ecc(n_proc=2, **kw)
near(b[0], a[0], 1e-9, "eccentricity")
''')

bug("c10-relative-to-final", "C10",
    [(E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol\n", "    stationary = (f_orb_f - f_orb_i) / f_orb_f <= stat_tol\n")],
    "a frequency change just above the tolerance (closer with smaller tolerances)", "sources that change by slightly more than the tolerance are stationary",
    '''
f0 = np.array([1e-3]) * u.Hz
mc = np.array([1.]) * u.Msun
t = 1e4 * u.yr
for k in range(200):
    ff = evol.evolve_f_orb_circ(f0, mc, t * (1 + k), np.zeros(1))
    ch = ((ff - f0) / f0).decompose().value[0]
    st = evol.determine_stationarity(f0, t * (1 + k), np.zeros(1), m_c=mc, stat_tol=ch * .95)
    assert not st[0], "stationary though it changes by more than the tolerance"
''')

bug("c11-circular-g", "C11",
    [(N, "                              position=position, polarisation=polarisation, inclination=inclination,\n                              interpolated_g=interpolated_g).flatten()**2\n",
      "                              position=position, polarisation=polarisation, inclination=inclination).flatten()**2\n")],
    "an interpolator of g(n, e) passed for circular binaries", "it is not used",
    '''
s = snr.snr_circ_stationary(m_c=np.ones(1) * u.Msun, f_orb=np.array([1e-3]) * u.Hz, dist=np.ones(1) * u.kpc, t_obs=4 * u.yr,
                            interpolated_g=lambda n, e: 4.0 * np.ones(np.broadcast(n, e).shape))
r = snr.snr_circ_stationary(m_c=np.ones(1) * u.Msun, f_orb=np.array([1e-3]) * u.Hz, dist=np.ones(1) * u.kpc, t_obs=4 * u.yr)
near(s, 2 * r, 1e-9, "SNR")
''')

bug("c12-before-scaled", "C12",
    [(N, "    t_before = 0.1 * u.yr\n", "    # stop before the merger (but never for most of a short observation)\n    t_before = np.minimum(0.1 * u.yr, 0.1 * t_obs)\n")],
    "an eccentric binary that merges during an observation shorter than a year", "the evolution runs closer to the merger than 0.1 yr",
    '''
kw = dict(m_1=np.full(1, 30.) * u.Msun, m_2=np.full(1, 30.) * u.Msun, f_orb_i=np.array([1e-2]) * u.Hz, ecc=np.array([.2]))
tm = evol.get_t_merge_ecc(ecc_i=kw["ecc"], m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"]).to(u.yr)
kw["f_orb_i"] = kw["f_orb_i"] * (tm.value[0] / 0.3)**(3/8)
tm = evol.get_t_merge_ecc(ecc_i=kw["ecc"], m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"]).to(u.yr)
seen = []
def noise(f):
    seen.append(f.max())
    return np.full(f.shape, 1e-40) / u.Hz
snr.snr_ecc_evolving(dist=np.ones(1) * u.kpc, harmonics_required=3, t_obs=0.5 * u.yr, n_step=20, interpolated_sc=noise, **kw)
want = evol.evol_ecc(ecc_i=kw["ecc"], t_evol=tm - .1 * u.yr, n_step=20, m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"], t_before=.1 * u.yr, t_merge=tm)[1].max() * 3
near(seen[0], want, 1e-2, "highest frequency")
''')

bug("c13-global-floor", "C13",
    [(E, "    difference = np.where(difference.value <= 0.0, 0.0, difference)\n",
      "    # anything below the rounding error of the initial separations has merged\n"
      "    difference = np.where(difference.value <= 1e-14 * np.max(a_i.value)**4, 0.0, difference)\n")],
    "a tight binary in the same call as one that is thousands of times wider", "whether a binary has merged depends on the widest other binary of the call",
    '''
kw = dict(t_evol=1 * u.yr, n_step=3, m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun)
f = evol.evol_circ(f_orb_i=np.array([1e-3, 1e-9]) * u.Hz, **kw)
near(f[0, 0], 1e-3 * u.Hz, 1e-6, "frequency")
''')

bug("c15-tiny-ecc", "C15",
    [(SRC, "        # make sure the inputs are arrays\n        fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)\n        m_1, m_2, dist, f_orb, ecc, weights = fixed_args\n",
      "        # make sure that all inputs are arrays\n        fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)\n        m_1, m_2, dist, f_orb, ecc, weights = fixed_args\n\n        # tiny eccentricities are circular for all purposes\n        if np.any(ecc < 1e-10):\n            ecc[ecc < 1e-10] = 0.0\n")],
    "an array of eccentricities with an entry between 0 and 1e-10", "the caller's array is changed by building a collection",
    '''
e = np.array([0.3, 1e-12])
coll(2, ecc=e)
assert e[1] == 1e-12, "the caller's array was changed"
''')

bug("c15-warnings", "C15",
    [(V, "        with warnings.catch_warnings():\n            warnings.filterwarnings(\n                \"ignore\",\n                message=\"This axis already has a converter set and is updating\"\n            )\n            ax.loglog(frequency_range, noise_amplitude, color=color, label=label, linewidth=linewidth)\n            if fill:\n                ax.fill_between(frequency_range, np.zeros_like(noise_amplitude), noise_amplitude,\n                                alpha=alpha, color=color)\n",
      "        warnings.filterwarnings(\n            \"ignore\",\n            message=\"This axis already has a converter set and is updating\"\n        )\n        ax.loglog(frequency_range, noise_amplitude, color=color, label=label, linewidth=linewidth)\n        if fill:\n            ax.fill_between(frequency_range, np.zeros_like(noise_amplitude), noise_amplitude,\n                            alpha=alpha, color=color)\n")],
    "warning filters looked at after a sensitivity curve was plotted", "the warning filters of the process stay changed",
    '''
import warnings
n = list(warnings.filters)
visualisation.plot_sensitivity_curve(show=False)
n2 = list(warnings.filters)
visualisation.plot_sensitivity_curve(show=False)
assert not any("converter" in str(getattr(f[1], "pattern", f[1])) for f in warnings.filters), "filter left behind"
''')

bug("c16-explicit-false", "C16",
    [(SRC, "        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n        confusion_noise = self.sc_params[\"confusion_noise\"] if confusion_noise is None else confusion_noise\n\n        # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)\n        self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n\n        if verbose:",
      "        approximate_R = approximate_R or self.sc_params[\"approximate_R\"]\n        confusion_noise = self.sc_params[\"confusion_noise\"] if confusion_noise is None else confusion_noise\n\n        # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)\n        self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n\n        if verbose:")],
    "approximate_R=False passed to a collection whose own setting is True", "the setting passed is ignored",
    '''
a = coll(1, f_orb=np.array([1e-2]) * u.Hz, sc_params={"approximate_R": True}).get_snr(approximate_R=False)
b = coll(1, f_orb=np.array([1e-2]) * u.Hz).get_snr()
near(a, b, 1e-9, "SNR")
''')

bug("c17-mask-narrowed", "C17",
    [(SRC, "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources)\n",
      "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = which_sources\n        insp_sources &= np.logical_not(self.merged)\n")],
    "the characteristic strain of a collection with merged sources", "merged sources lose their row (and the caller's mask is changed)",
    '''
s = coll(3)
s.merged = np.array([True, False, False])
assert s.get_h_c_n([2]).shape == (3, 1), "rows are missing"
''')

bug("c18-modulo", "C18",
    [(SRC, "            mask = np.array([ind])\n", "            mask = np.array([ind if ind >= 0 else ind % self.n_sources])\n")],
    "a negative integer below minus the number of sources", "an index out of range is accepted",
    '''
s = coll(3)
try:
    s[-4]
except IndexError:
    pass
else:
    fail("index out of range accepted")
''')

bug("c18-shared-times", "C18",
    [(SRC, "    def copy(self):\n", "    def copy(self):\n        return self._duplicate()\n\n    def _duplicate(self):\n"),
     (SRC, "        return self[:]\n", "        new = self[:]\n        # the merger times are the most expensive to compute so make sure that they are kept\n        new.t_merge = self.t_merge\n        return new\n")],
    "a copy of a collection with merger times, one of which is changed in place", "the copy shares its merger times with the original",
    '''
s = coll(2)
s.get_merger_time()
t = s.t_merge.copy()
c2 = s.copy()
c2.t_merge[0] = 1 * u.yr
near(s.t_merge, t, 1e-12, "merger times of the original")
''')

bug("c19-zero-records", "C19",
    [(SRC, "                if getattr(self, name) is None:\n                    continue\n",
      "                if not hasattr(self, name) or getattr(self, name) is None:\n                    continue\n                # nothing has been recorded yet\n                if name in _NOT_KWARG_ATTRS and not np.any(getattr(self, name)):\n                    continue\n")],
    "a collection whose recorded SNRs are all 0 (out of band or all merged)", "the records are missing after loading",
    '''
import os, tempfile, shutil
d = tempfile.mkdtemp(prefix="demo-")
try:
    s = coll(2, f_orb=np.full(2, 3.0) * u.Hz, m_1=np.full(2, 1e-3) * u.Msun, m_2=np.full(2, 1e-3) * u.Msun)
    s.get_snr(n_step=3)
    s.snr[:] = 0
    s.save(os.path.join(d, "x.h5"))
    o = source.Source.from_file(os.path.join(d, "x.h5"))
    assert o.snr is not None, "SNR lost"
finally:
    shutil.rmtree(d)
''')

bug("c20-shared-assignment", "C20",
    [(SRC, "        new_params = SensitivityCurveParams(sc_params, source=self)\n\n        # only",
      "        if isinstance(sc_params, SensitivityCurveParams):\n            new_params = sc_params\n            new_params._source = self\n        else:\n            new_params = SensitivityCurveParams(sc_params, source=self)\n\n        # only")],
    "the parameters of one collection assigned to (or used to build) another one", "both collections share one set of parameters",
    '''
a, b = coll(1), coll(1)
b.sc_params = a.sc_params
b.sc_params["instrument"] = "TianQin"
assert a.sc_params["instrument"] == "LISA", "parameters are shared"
''')

bug("c21-new-times", "C21",
    [(SRC, "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)\n", "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - np.max(t_evol))\n")],
    "one evolution time per source and a new collection", "merger times of the new collection decrease by the time of another source",
    '''
s = coll(2)
t = s.get_merger_time()
e = s.evolve_sources(np.array([1., 1e5]) * u.yr, create_new_class=True)
near(e.t_merge, t - np.array([1., 1e5]) * u.yr, 1e-9, "merger times")
''')

bug("c21-partly-merged", "C21",
    [(SRC, "        merged = t_evol >= self.t_merge\n", "        merged = np.logical_or(self.merged, np.round((t_evol / self.t_merge).decompose().value, 6) >= 1)\n")],
    "evolving to within a millionth of the merger time before the merger", "a source is marked as merged before its merger",
    '''
s = coll(1)
t = s.get_merger_time()
s.evolve_sources(t * (1 - 3e-7))
assert not s.merged[0], "merged too early"
''')

bug("c22-cap", "C22",
    [(SRC, "                harmonics_needed[i] += 1\n", "                # the sum has converged once a harmonic adds nothing to it\n                if harmonics_needed[i] > 60 and g_vals[i][harmonics_needed[i]] < 1e-3 * f_vals[i]:\n                    break\n                harmonics_needed[i] = harmonics_needed[i] + 1\n")],
    "a small tolerance and a high eccentricity", "too few harmonics for the luminosity asked for",
    '''
s = coll(1, gw_lum_tol=5e-3)
e = np.array([0.9])
n = int(s.harmonics_required(e)[0])
tot = g_ref(np.arange(1, n + 1), .9).sum()
assert tot > .994 * F_ref(.9), ("luminosity captured", tot / F_ref(.9))
''', head="import ov\ng_ref, F_ref = ov.g_ref, ov.F_ref\n" + HEAD)

bug("c23-g-clipped", "C23",
    [(SRC, "            self.g = lambda n, e: f.ev(n, e)\n", "            # the table is not smooth enough beyond this eccentricity\n            self.g = lambda n, e: f.ev(n, np.minimum(e, 0.875))\n")],
    "interpolated g(n, e) between eccentricities of 0.875 and 0.9", "strains of these sources are off by percents",
    '''
s = coll(1, ecc=np.array([.895]))
h = s.get_h_0_n([2, 10, 30])
s.set_g(True)
near(s.get_h_0_n([2, 10, 30]), h, 1e-2, "strain")
''', head=HEAD.replace("setup()", "setup(fine=True)"))

bug("c24-edge-count", "C24",
    [(SRC, "        detectable = self.snr > snr_cutoff\n        inspiraling", "        detectable = self.snr >= snr_cutoff\n        inspiraling")],
    "an evolving source whose SNR is exactly the cutoff (e.g. both 0)", "it is counted as detected in the warning",
    '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
s = coll(2, m_1=np.full(2, 30.) * u.Msun, m_2=np.full(2, 30.) * u.Msun, f_orb=np.full(2, 1e-2) * u.Hz)
s.get_snr(n_step=5)
s.snr = np.array([0.0, 5.0])
got.clear()
s.plot_sources_on_sc(show=False, snr_cutoff=0)
assert any(m.startswith("1 circular") for m in got), got
''')

bug("c24-relative-weights", "C24",
    [(V, "                scatter_s = weights * scatter_s\n", "                scatter_s = weights / np.max(weights) * scatter_s\n")],
    "weights whose largest value is not 1", "the sizes of the points are no longer the weights",
    '''
fig, ax = visualisation.plot_2D_dist(np.array([1., 2.]), np.array([1., 2.]), weights=np.array([2., 4.]), show=False, scatter_s=10)
near(ax.collections[0].get_sizes(), np.array([20., 40.]), 1e-9, "sizes")
''')

bug("c25-first-ecc", "C04",
    [(SRC, "            if np.atleast_1d(ecc).any() > 0.0:\n", "            if np.atleast_1d(ecc)[0] > 0.0:\n")],
    "positions for a population whose first source is circular but another one is not", "orientation is accepted for an eccentric source",
    '''
from astropy.coordinates import SkyCoord
p = SkyCoord(lon=[10., 20.] * u.deg, lat=[20., 10.] * u.deg, distance=[1., 1.] * u.kpc, frame="barycentrictrueecliptic")
try:
    coll(2, position=p, ecc=np.array([0., .4]))
except ValueError:
    pass
else:
    fail("accepted")
''')

bug("c25-keep-separation", "C25",
    [(SRC, "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n",
      "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n        self._a, self._a_for = a, self.f_orb\n"),
     (SRC, "        return utils.get_a_from_f_orb(self.f_orb, self.m_1, self.m_2)\n",
      "        # return exactly what was set as long as the frequency is still the same\n        if getattr(self, \"_a_for\", None) is self.f_orb:\n            return self._a\n        return utils.get_a_from_f_orb(f_orb=self.f_orb, m_1=self.m_1, m_2=self.m_2)\n")],
    "a separation assigned, then masses (or one frequency in place)", "the separation goes stale",
    '''
s = coll(1)
s.a = np.array([.01]) * u.AU
s.m_1 = np.array([5.]) * u.Msun
near(s.a, utils.get_a_from_f_orb(s.f_orb, s.m_1, s.m_2), 1e-9, "separation")
''')

bug("c28-class-params", "C28",
    [(SRC, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd, verbose=verbose)\n",
      "        # sources that have merged stay at 0\n        self.snr = np.zeros(self.n_sources)\n        evolving = self.get_source_mask(stationary=False, t_obs=t_obs)\n        if evolving.any():\n            self.snr[evolving] = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                                       custom_psd=custom_psd, which_sources=evolving,\n                                                       verbose=verbose)\n")],
    "an Evolving collection with a source that does not evolve", "that source gets SNR 0 and the settings passed decide which",
    '''
a, b = coll(1, "Evolving"), coll(1)
near(a.get_snr(n_step=5), b.get_snr_evolving(n_step=5), 1e-9, "SNR")
''')
