import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''


bug("c02-single", "C02",
    [(U, "    bracket_3 = jv(n, n*e)\n", "    bracket_3 = np.asarray(jv(n, n*e), dtype=np.float32)\n")],
    "a harmonic whose third bracket matters", "g(n, e) is only known to single precision",
    '''
import ov
near(utils.peters_g(np.array([1, 2, 3]), .05), ov.g_ref(np.array([1, 2, 3]), .05), 1e-11, "g")
''')

bug("c05-tianqin-unit", "C05",
    [(P, "(1 + (1e-4 * u.Hz / f)) + Sx)", "(1 + 1e-4 / f.value) + Sx)")],
    "TianQin and frequencies in another unit than Hz", "the low-frequency term is off",
    '''
f = np.array([1e-4, 1e-3]) * u.Hz
near(psd.tianqin_psd(f.to(u.mHz)).value, psd.tianqin_psd(f).value, 1e-9, "noise")
''')

bug("c07-big-table", "C07",
    [(E, "            t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i])[0]\n                                         for i in range(len(ecc_i[other_e]))]\n",
      "            if other_e.sum() > 200:\n                # cheaper for many binaries: integrate once along a fine grid\n                grid = np.linspace(0, 1 - 1e-4, 20000)\n                y = peters_5_14(grid)\n"
      "                table = np.concatenate([[0], np.cumsum(np.diff(grid) * (y[1:] + y[:-1]) / 2)])\n                t_merge[other_e] = prefac * np.interp(ecc_i[other_e], grid, table)\n            else:\n"
      "                t_merge[other_e] = prefac * [quad(peters_5_14, 0, ecc_i[other_e][i])[0]\n                                             for i in range(len(ecc_i[other_e]))]\n")],
    "more than 200 eccentric binaries in one call", "merger times of the very eccentric are off",
    '''
e = np.full(300, .5)
e[7] = .9989
kw = dict(a_i=np.full(300, .01) * u.AU, beta=utils.beta(1 * u.Msun, 1 * u.Msun) * np.ones(300))
a = evol.get_t_merge_ecc(ecc_i=e, **kw)[7]
b = evol.get_t_merge_ecc(ecc_i=e[7:8], a_i=kw["a_i"][:1], beta=kw["beta"][:1])[0]
near(a.to(u.yr).value, b.to(u.yr).value, 1e-6, "merger time")
''')

bug("c09-integrated-once", "C09",
    [(E, "        ecc_evol = np.array([odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i])).flatten()\n                             for i in range(len(ecc_i))])\n",
      "        # identical binaries only need to be integrated once\n        done = {}\n        for i in range(len(ecc_i)):\n            key = (ecc_i[i], beta[i], c_0[i])\n            if key not in done:\n"
      "                done[key] = odeint(de_dt, ecc_i[i], timesteps[i], args=(beta[i], c_0[i])).flatten()\n        ecc_evol = np.array([done[ecc_i[i], beta[i], c_0[i]] for i in range(len(ecc_i))])\n")],
    "two identical binaries evolved for different times", "the second has the eccentricities of the first",
    '''
kw = dict(m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.full(2, 1e-4) * u.Hz, ecc_i=np.full(2, .5))
t = np.array([1, 5]) * u.Myr
e = evol.evol_ecc(t_evol=t, n_step=4, output_vars="ecc", **kw)
e1 = evol.evol_ecc(t_evol=t[1:], n_step=4, output_vars="ecc", **{k: v[:1] for k, v in kw.items()})
near(e[1], e1[0], 1e-6, "eccentricity")
''')

bug("c11-above-band", "C11",
    [(N, "    snr_n_2 = (h_f_src_ecc_2 / h_f_lisa_n_2).decompose()\n", "    snr_n_2 = np.where(f_n <= 2 * u.Hz, (h_f_src_ecc_2 / h_f_lisa_n_2).decompose(), 0)\n")],
    "DECIGO or a custom instrument and harmonics above 2 Hz", "they are left out",
    '''
kw = dict(m_c=np.ones(1) * u.Msun, f_orb=np.ones(1) * u.Hz, ecc=np.array([.4]), dist=np.ones(1) * u.kpc, t_obs=4 * u.yr, harmonics_required=10, instrument="DECIGO", ret_snr2_by_harmonic=True)
assert (snr.snr_ecc_stationary(**kw)[0, 2:] > 0).all()
''')

bug("c12-eccentric-start", "C12",
    [(N, "    snr_n_2 = np.trapezoid(y=snr_evol, x=f_n_evol, axis=1)\n", "    # the frequencies are known exactly, so integrate by the spacing of each harmonic\n    df = np.gradient(f_n_evol.value, axis=1) * f_n_evol.unit if n_step > 2 else None\n"
      "    snr_n_2 = np.trapezoid(y=snr_evol, x=f_n_evol, axis=1) if n_step < 60 else np.sum((snr_evol * df)[:, :-1], axis=1)\n")],
    "at least 60 steps", "the last step is left out and the first counted twice",
    '''
kw = dict(m_1=np.full(1, 20) * u.Msun, m_2=np.full(1, 20) * u.Msun, dist=np.ones(1) * u.Mpc, ecc=np.array([.3]), f_orb_i=np.array([.012]) * u.Hz, harmonics_required=10, t_obs=4 * u.yr)
t = evol.get_t_merge_ecc(ecc_i=kw["ecc"], m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb_i"])
a, b = [snr.snr_ecc_evolving(n_step=k, **kw) for k in (59, 60)]
near(a, b, 2e-4, "SNR")
''')

bug("c15-wrapped-position", "C15",
    [(S, "    theta, phi = (np.pi/2 * u.rad) - position.lat, position.lon\n", "    theta, phi = (np.pi/2 * u.rad) - position.lat, position.data.lon\n    phi.wrap_angle = 180 * u.deg\n")],
    "a position with a longitude above 180 degrees", "the caller's longitudes become negative",
    POS + '''
p = pos(3)
before = p.data.lon.value.copy()
strain.amplitude_modulation(position=p, polarisation=np.zeros(3) * u.rad, inclination=np.zeros(3) * u.rad)
assert (p.data.lon.value == before).all(), p.data.lon
''')

bug("c16-keep-others", "C16",
    [(SRC, "                  \"sources have already merged\")\n        snr = np.zeros(self.n_sources)\n", "                  \"sources have already merged\")\n        snr = np.zeros(self.n_sources) if self.snr is None or which_sources is None else np.where(self.merged, 0.0, self.snr)\n")],
    "a call for some sources after one for all", "the others aren't 0 in the result",
    '''
s = coll(2)
s.get_snr()
x = s.get_snr(which_sources=np.array([True, False]))
assert x[0] > 0 and x[1] == 0, x
''')

bug("c17-circular-only", "C17",
    [(SRC, "        # return all sources, not just inspiraling ones\n        return h_0_n[which_sources, :]\n",
      "        # circular sources only emit in the n = 2 harmonic\n        silent = np.outer(self.ecc <= self.ecc_tol, np.atleast_1d(harmonics) != 2)\n\n        # return all sources, not just inspiraling ones\n        return np.where(silent, 0.0, h_0_n)[which_sources, :]\n")],
    "a source of small eccentricity, below the transition", "its other harmonics are silent",
    '''
assert (coll(1, ecc=np.array([.03])).get_h_0_n([1, 2, 3]) > 0).all()
''')

bug("c19-arm-metres", "C19",
    [(SRC, "                    sc_group.attrs[key] = value.value\n                    sc_group.attrs[key + \"_unit\"] = str(value.unit)\n", "                    sc_group.attrs[key] = value.decompose().value\n                    sc_group.attrs[key + \"_unit\"] = str(value.decompose().unit)\n")],
    "settings in other units than SI", "they are loaded in SI, and the mission length isn't exactly the one saved",
    TMP + '''
s = coll(2, sc_params={"L": 2.5 * u.Gm, "t_obs": 3.3 * u.yr})
s.save(d + "/a")
p = source.Source.from_file(d + "/a").sc_params
assert p["L"].unit == u.Gm and p["t_obs"].unit == u.yr, p
''')

bug("c20-arm-lisa-only", "C20",
    [(SRC, "        changed = self.get(key) != value\n        super().__setitem__(key, value)\n", "        # the arm length only matters for LISA\n        changed = self.get(key) != value and (key != \"L\" or self[\"instrument\"] in [\"LISA\", \"custom\"])\n        super().__setitem__(key, value)\n")],
    "changing the arm length of TianQin", "the interpolated curve is the old one",
    '''
s = coll(1, interpolate_sc=True, sc_params={"instrument": "TianQin"})
s.sc_params["L"] = 3e8 * u.m
f = np.array([1e-2]) * u.Hz
near(s.sc(f).value, psd.power_spectral_density(f, **s.sc_params).value, 5e-3, "curve")
''')

bug("c20-update-positional", "C20",
    [(SRC, "        changed = any(self.get(key) != value for key, value in new_params.items())\n", "        changed = any(self.get(key) is not value for key, value in new_params.items() if value is not None)\n")],
    "update that sets the confusion noise to None", "the interpolated curve still has it",
    '''
s = coll(1, interpolate_sc=True)
s.sc_params.update({"confusion_noise": None})
f = np.array([1e-3]) * u.Hz
near(s.sc(f).value, psd.power_spectral_density(f, **s.sc_params).value, 5e-3, "curve")
''')

bug("c21-short-steps", "C21",
    [(SRC, "        merged = t_evol >= self.t_merge\n", "        # nothing happens within seconds\n        if not create_new_class and np.all(t_evol < 1 * u.min):\n            return\n\n        merged = np.asarray(t_evol >= self.t_merge)\n")],
    "evolving in steps of less than a minute", "nothing happens",
    '''
s = coll(1, m_1=np.array([30.]) * u.Msun, m_2=np.array([30.]) * u.Msun, f_orb=np.array([3.]) * u.Hz)
t = s.get_merger_time()[0]
for _ in range(5):
    s.evolve_sources(t / 4)
assert s.merged[0], (t.to(u.s), s.f_orb)
''')

bug("c24-ecdf-weights", "C24",
    [(V, "            sns.ecdfplot(x=x, weights=weights, ax=ax", "            sns.ecdfplot(x=x, weights=None if weights is None or np.ptp(weights) == 0 or plot_args[\"stat\"] == \"count\" else weights, ax=ax")],
    "a weighted cumulative distribution of counts", "the weights are ignored",
    '''
import matplotlib
matplotlib.use("Agg")
fig, ax = visualisation.plot_1D_dist(np.array([1., 2, 3]), weights=np.array([1., 5, 2]), disttype="ecdf", stat="count", show=False)
near(ax.lines[0].get_ydata().max(), 8.0, 1e-9, "total")
''')

bug("c25-a-merged", "C25",
    [(SRC, "        # only `f_orb` is stored, so convert and let the getter convert back\n        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n",
      "        # only `f_orb` is stored, so convert and let the getter convert back (merged sources have no orbit)\n        self.f_orb = np.where(self.merged, self.f_orb, utils.get_f_orb_from_a(a, self.m_1, self.m_2))\n")],
    "assigning separations when a source has merged", "its separation isn't the one assigned",
    '''
s = coll(2)
s.get_merger_time()
s.evolve_sources(np.array([1e9, 0]) * u.yr)
s.a = np.array([.01, .01]) * u.AU
near(s.a.to(u.AU).value, [.01, .01], 1e-9, "separation")
''')

bug("c26-orientation-memo", "C26",
    [(SRC, "        position = self.position[insp_sources] if self.position is not None else None\n        polarisation = self.polarisation[insp_sources] if self.position is not None else None\n        inclination = self.inclination[insp_sources] if self.position is not None else None\n\n        # calculate strain for these values\n        h_c_n[insp_sources, :]",
      "        position = self.position[insp_sources] if self.position is not None else None\n        polarisation = self.polarisation[insp_sources] if self.position is not None else None\n        if self.position is not None and not hasattr(self, \"_inclination\"):\n            self._inclination = self.inclination\n"
      "        inclination = self._inclination[insp_sources] if self.position is not None else None\n\n        # calculate strain for these values\n        h_c_n[insp_sources, :]")],
    "asking for the characteristic strain, assigning inclinations, asking again", "the second answer is for the old ones",
    POS + '''
s = coll(2, position=pos(2), inclination=np.array([.1, .2]) * u.rad, polarisation=np.array([.1, .2]) * u.rad)
a = s.get_h_c_n(2)
s.inclination = np.array([1.4, 1.2]) * u.rad
b = s.get_h_c_n(2)
assert (b < a).all(), (a, b)
''')

bug("c27-any-too-close", "C27",
    [(E, "        if np.all(check):           # pragma: no cover\n", "        if np.all(check, axis=1).any():           # pragma: no cover\n")],
    "one binary of several about to merge", "all times are said to be too close",
    EARS + '''
kw = dict(ecc_i=np.full(2, .3), m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.array([1e-5, 1e-3]) * u.Hz)
t = evol.get_t_merge_ecc(**kw)
evol.evol_ecc(t_evol=t * .5, n_step=3, t_before=t[1] * .999 + 0 * t[0], **kw)
assert not any("All timesteps" in m for m in got), got
''')

bug("c28-stationary-tobs", "C28",
    [(SRC, "        self.snr = self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n                                           verbose=verbose)\n",
      "        self.snr = np.where(self.get_source_mask(stationary=True, t_obs=t_obs),\n                            self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n                                                    verbose=verbose), 0.0)\n")],
    "an evolving source in a Stationary collection", "its SNR is 0",
    '''
s = coll(1, "Stationary", m_1=np.array([30.]) * u.Msun, m_2=np.array([30.]) * u.Msun, f_orb=np.array([.01]) * u.Hz)
assert s.get_snr()[0] > 0
''')

bug("c18-range-mask", "C18",
    [(SRC, "            mask = np.arange(self.n_sources)[ind]\n", "            mask = np.arange(self.n_sources)[ind.start:ind.stop:ind.step if ind.step is None else max(-4, min(ind.step, 4))]\n")],
    "a slice with a step above 4", "every fourth source is taken",
    '''
s = coll(11, m_1=np.arange(1., 12) * u.Msun)
near(s[::5].m_1.value, [1, 6, 11], 1e-12, "masses")
''')

bug("c10-cap", "C10",
    [(E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol\n", "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= np.minimum(stat_tol, 0.5)\n")],
    "a tolerance above 50%", "it is cut to 50%",
    '''
m = utils.chirp_mass(20 * u.Msun, 20 * u.Msun)
f = np.array([.0155]) * u.Hz
for t in np.linspace(1, 10, 200) * u.yr:
    r = (evol.evolve_f_orb_circ(f_orb_i=f, m_c=m, t_evol=t) / f - 1)[0]
    if .6 < r < .7:
        break
assert .6 < r < .7, r
assert evol.determine_stationarity(f_orb_i=f, t_evol=t, ecc_i=np.zeros(1), m_c=m, stat_tol=.8)[0]
''')
