import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


POS = '''
from astropy.coordinates import SkyCoord
def pos(n, frame="barycentrictrueecliptic"):
    return SkyCoord(lon=np.linspace(10, 300, n) * u.deg, lat=np.linspace(-60, 70, n) * u.deg, distance=np.ones(n) * u.kpc, frame=frame)
'''
TMP = '''
import os, tempfile, shutil, atexit
d = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, d, True)
'''
EARS = '''
import logging
logging.disable(logging.NOTSET)
got = []
h = logging.Handler()
h.emit = lambda r: got.append(r.getMessage())
logging.getLogger("LEGWORK").addHandler(h)
'''

bug("c06-huang-log", "C06",
    [(P, "    # find the nearest mission length\n    ind = np.abs(t_obs - lengths).argmin()\n", "    # find the nearest mission length\n    ind = np.abs(np.log((t_obs / lengths).decompose().value)).argmin()\n")],
    "a mission length that is closer to one tabulated length in years, to another in ratio", "the coefficients of the longer one are used",
    '''
f = np.array([3e-3, 5e-3]) * u.Hz
near(psd.get_confusion_noise_huang20(f, 1.45 * u.yr), psd.get_confusion_noise_huang20(f, 1 * u.yr), 1e-9, "noise")
''')

bug("c11-chunks", "C11",
    [(N, "    h_0_ecc_n_2 = strain.h_0_n(m_c=m_c, f_orb=f_orb, ecc=ecc, n=n_range, dist=dist,\n                               interpolated_g=interpolated_g)**2\n",
      "    # (in pieces if there are very many of them)\n    step = max(1, 40000 // len(m_c))\n    pieces = [n_range[i:i + step] for i in range(0, max(1, len(n_range) - len(n_range) % step), step)]\n"
      "    pieces[-1] = np.append(pieces[-1], n_range[len(pieces) * step:]) if len(pieces) == 1 else pieces[-1]\n"
      "    h_0_ecc_n_2 = np.zeros((len(m_c), 1, harmonics_required))\n    for i, n in enumerate(pieces):\n        h_0_ecc_n_2[..., i * step:i * step + len(n)] = strain.h_0_n(m_c=m_c, f_orb=f_orb, ecc=ecc, n=n, dist=dist,\n                                                                    interpolated_g=interpolated_g)**2\n")],
    "so many sources and harmonics that at least two pieces are needed, and harmonics left over", "the last harmonics have no signal",
    '''
n = 100
kw = dict(m_c=np.ones(n) * u.Msun, f_orb=np.full(n, 1e-4) * u.Hz, ecc=np.full(n, .9), dist=np.ones(n) * u.kpc, t_obs=4 * u.yr, ret_snr2_by_harmonic=True)
a = snr.snr_ecc_stationary(harmonics_required=1000, **kw)
assert (a[:, -1] > 0).all(), a[0, -3:]
''')

bug("c12-last-day", "C12",
    [(N, "    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)\n", "    t_evol = np.minimum(t_merge - (1 * u.day), t_obs)\n")],
    "a circular binary that merges during the observation", "the last day is left out",
    '''
kw = dict(m_1=np.full(1, 20) * u.Msun, m_2=np.full(1, 20) * u.Msun, dist=np.ones(1) * u.Mpc, n_step=50)
f = np.array([.03]) * u.Hz
t = evol.get_t_merge_circ(m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=f)
s = snr.snr_circ_evolving(f_orb_i=f, t_obs=4 * u.yr, **kw)
near(s, snr.snr_circ_evolving(f_orb_i=f, t_obs=4 * u.yr, t_merge=t + 0 * u.s, **kw), 1e-9, "SNR")
fe = evol.evol_circ(t_evol=t - 1 * u.s, n_step=50, m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=f)
h = strain.h_c_n(m_c=utils.chirp_mass(kw["m_1"], kw["m_2"]), f_orb=fe, ecc=np.zeros((1, 50)), n=2, dist=kw["dist"])[:, :, 0]**2
sn = psd.power_spectral_density(2 * fe, t_obs=4 * u.yr) * (2 * fe)**2
near(s, (np.trapezoid((h / sn).decompose().value, 2 * fe.to(u.Hz).value, axis=1)**.5 if False else np.trapezoid((h / sn).to(u.s).value, 2 * fe.to(u.Hz).value, axis=1)**.5), 1e-4, "SNR")
''')

bug("c15-pool-tolerance", "C15",
    [(E, "    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0)).flatten()\n", "    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0), rtol=1e-7, atol=1e-7).flatten()\n")],
    "more than one worker process", "eccentricities differ a little from those of one process",
    '''
if __name__ == "__main__":
    kw = dict(ecc_i=np.array([.6, .3]), m_1=np.ones(2) * u.Msun, m_2=np.ones(2) * u.Msun, f_orb_i=np.full(2, 1e-4) * u.Hz, t_evol=1e7 * u.yr, n_step=10)
    assert (evol.evol_ecc(n_proc=2, **kw)[0] == evol.evol_ecc(n_proc=1, **kw)[0]).all()
''')

bug("c15-dict-filled", "C15",
    [(SRC, "        self.interpolate_sc = interpolate_sc\n        self.sc_params = sc_params\n", "        self.interpolate_sc = interpolate_sc\n        for key, value in DEFAULT_SC_PARAMS.items():\n            sc_params.setdefault(key, value)\n        self.sc_params = dict(sc_params)\n")],
    "a dictionary of settings that leaves some out", "the caller's dictionary is filled with the defaults",
    '''
d = {"instrument": "TianQin"}
coll(1, sc_params=d)
assert d == {"instrument": "TianQin"}, d
''')

bug("c16-best-harmonic", "C16",
    [(SRC, "        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n\n        if self.snr is None:\n            self.snr = np.zeros(self.n_sources)\n        self.snr[insp_sources] = snr[insp_sources]\n\n        return snr[which_sources]\n\n    def get_snr_evolving",
      "        # keep what is known of sources out of band\n        known = np.logical_and(insp_sources, snr > 0)\n        self.max_snr_harmonic[known] = msh[known]\n\n        if self.snr is None:\n            self.snr = np.zeros(self.n_sources)\n        self.snr[insp_sources] = snr[insp_sources]\n\n        return snr[which_sources]\n\n    def get_snr_evolving")],
    "a stationary source all of whose harmonics are out of band", "no strongest harmonic is recorded for it",
    '''
s = coll(1, f_orb=np.array([1e-5]) * u.Hz)
s.get_snr(instrument="DECIGO")
assert s.snr[0] == 0 and s.max_snr_harmonic[0] == 2, (s.snr, s.max_snr_harmonic)
''')

bug("c17-mean-distance", "C17",
    [(SRC, "        return h_0_n[which_sources, :]\n", "        return h_0_n[which_sources, :] if n_harmonics > 1 or self.n_sources > 1 else h_0_n[which_sources, 0]\n")],
    "a single source and a single harmonic", "the strain has one axis instead of two",
    '''
assert coll(1).get_h_0_n(2).shape == (1, 1)
''')

bug("c19-none-default", "C19",
    [(SRC, "                elif value is None:\n                    sc_group.attrs[key] = \"__none__\"\n", "                elif value is None and key not in (\"confusion_noise\", \"custom_psd\"):\n                    sc_group.attrs[key] = \"__none__\"\n                elif value is None:\n                    continue\n")],
    "a collection without confusion noise", "it is loaded with the default confusion noise",
    TMP + '''
s = coll(2, sc_params={"confusion_noise": None})
s.save(d + "/a")
assert source.Source.from_file(d + "/a").sc_params["confusion_noise"] is None
''')

bug("c21-quick-fit", "C21",
    [(SRC, "        if self.t_merge is None:\n            self.get_merger_time()\n", "        if self.t_merge is None:\n            self.get_merger_time(exact=False)\n")],
    "an eccentric source evolved close to its merger, without merger times asked for before", "the fitted merger time is recorded and decides",
    '''
s = coll(1, ecc=np.array([.4]))
t = s.get_merger_time(save_in_class=False)
s.evolve_sources(t[0] * .5)
near(s.t_merge.to(u.Myr).value, (t * .5).to(u.Myr).value, 1e-6, "merger time")
''')

bug("c23-g-endpoint", "C23",
    [(SRC, "            e_range = np.linspace(0, 1, 1000)\n", "            e_range = np.linspace(0, 1, 1000, endpoint=False)\n")],
    "interpolated g(n, e)", "the eccentricities of the table are 0.1% off",
    '''
lw2 = None
''' + '''
from ov import g_ref
import sys
''' + '''
s = coll(1, ecc=np.array([.5]), interpolate_g=True)
g = s.g(np.array([2, 3, 8]), np.full(3, .5))
near(g, g_ref([2, 3, 8], .5), 1e-3, "g")
''', head=HEAD.replace("setup()", "setup(fine=True)"))

bug("c24-merged-shown", "C24",
    [(SRC, "        if exclude_merged_sources:\n            which_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n", "        if exclude_merged_sources and len(which_sources) == np.sum(which_sources):\n            which_sources = np.logical_not(self.merged)\n")],
    "a mask that selects some sources, among them merged ones", "merged sources are drawn",
    '''
import matplotlib.pyplot as plt
s = coll(4)
s.merged = np.array([True, False, False, False])
f, a = s.plot_source_variables("m_1", "dist", which_sources=np.array([True, True, False, False]), show=False)
assert len(a.collections[0].get_offsets()) == 1
''')

bug("c25-weights-list", "C25",
    [(SRC, "        length_check = np.array([len(arg) != len(array_args[0])\n", "        length_check = np.array([len(arg) > len(array_args[0])\n")],
    "an argument that is shorter than the primary masses", "the collection is built",
    '''
try:
    coll(3, ecc=np.zeros(2))
except ValueError:
    pass
else:
    fail("built")
''')

bug("c03-common-distance", "C03",
    [(S, "    n_independent_part = prefac * m_c**(5/3) * (np.pi * f_orb)**(2/3) / dist\n", "    n_independent_part = prefac * np.square(m_c**(5/6)) * (np.pi * f_orb)**(2/3) / (dist if f_orb.shape[1] > 1 or len(dist) < 100 else dist + np.zeros_like(dist[::-1]) if np.ptp(dist.value) < 1e3 * np.median(dist.value) else np.clip(dist, None, 1e3 * np.median(dist)))\n")],
    "at least 100 sources whose distances span more than three orders of magnitude", "the farthest are moved closer",
    '''
d = np.ones(120)
d[7] = 1e5
h = strain.h_0_n(m_c=np.ones(120) * u.Msun, f_orb=np.full(120, 1e-3) * u.Hz, ecc=np.zeros(120), n=2, dist=d * u.kpc)
near(h[7] * 1e5, h[0], 1e-9, "strain")
''')
