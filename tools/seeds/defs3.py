import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
LOG = "src/legwork/_logging.py"
BUGS = []
EAR = '''
import logging
class Ear(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rec = []
    def emit(self, r):
        self.rec.append(r.getMessage())
ear = Ear()
logging.getLogger("LEGWORK").handlers[:] = [ear]
logging.getLogger("LEGWORK").setLevel(logging.INFO)
logging.disable(logging.NOTSET)
def heard(word):
    return sum(word in r for r in ear.rec)
'''


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


bug("c26-harmonics-memo", "C26",
    [(SRC, "        # open file containing pre-calculated g(n,e) and F(e) values\n        lum_info",
      "        # the functions only depend on the tolerance so reuse them if they were already created\n"
      "        key = \"{:.2f}\".format(self.gw_lum_tol)\n"
      "        if key in _HARMONICS_FUNCTIONS:\n"
      "            self.harmonics_required, self.max_strain_harmonic = _HARMONICS_FUNCTIONS[key]\n            return\n\n"
      "        # open file containing pre-calculated g(n,e) and F(e) values\n        lum_info"),
     (SRC, "        self.max_strain_harmonic = max_strain_harmonic\n",
      "        self.max_strain_harmonic = max_strain_harmonic\n        _HARMONICS_FUNCTIONS[key] = (harmonics_required, max_strain_harmonic)\n"),
     (SRC, "# the parameters used for the interpolated sensitivity curve and their default values\n",
      "# harmonics functions that were already created for each luminosity tolerance\n_HARMONICS_FUNCTIONS = {}\n\n"
      "# default values of the parameters used for the interpolated sensitivity curve\n")],
    "two tolerances in one process that agree to two decimals", "the second collection gets the number of harmonics of the first one's tolerance",
    '''
a = coll(gw_lum_tol=0.014)
b = coll(gw_lum_tol=0.0061)
want = b.harmonics_required(np.array([.3, .6, .8]))
source.__dict__.get("_HARMONICS_FUNCTIONS", {}).clear()
c2 = coll(gw_lum_tol=0.0061)
assert np.array_equal(want, c2.harmonics_required(np.array([.3, .6, .8]))), "the number of harmonics depends on an earlier collection"
''')

bug("c26-merger-cached", "C26",
    [(SRC, "        # if no subset or saving times, select all sources\n",
      "        # no need to repeat the calculation if the times are already saved\n"
      "        if save_in_class and self.t_merge is not None and len(self.t_merge) == self.n_sources:\n            return self.t_merge\n\n"
      "        # if no subset (or saving times), select all sources\n")],
    "merger times asked for, then masses, frequencies or eccentricities assigned, then asked for again", "the merger times of the earlier sources are returned",
    '''
s = coll(2)
s.get_merger_time()
s.f_orb = np.array([1e-4, 2e-4]) * u.Hz
near(s.get_merger_time().to_value(u.yr), coll(2, f_orb=np.array([1e-4, 2e-4]) * u.Hz).get_merger_time().to_value(u.yr), 1e-9, "merger time")
''')

bug("c26-mask-memo", "C26",
    [(SRC, "            stat_mask = evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,\n"
           "                                                    ecc_i=self.ecc, stat_tol=self.stat_tol)\n",
      "            # this is called several times with the same sources so remember the last answer\n"
      "            key = (self.f_orb.to(u.Hz).value.tobytes(), t_obs.to(u.yr).value, self.stat_tol)\n"
      "            if getattr(self, \"_last_stat\", (None, None))[0] != key:\n"
      "                self._last_stat = (key, evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,\n"
      "                                                                    ecc_i=self.ecc, stat_tol=self.stat_tol))\n"
      "            stat_mask = self._last_stat[1].copy()\n")],
    "classes asked for, then masses or eccentricities changed at the same frequencies, then asked for again",
    "sources keep the stationary/evolving class of their former masses",
    '''
s = coll(1, f_orb=np.array([3e-3]) * u.Hz, m_1=np.array([.2]) * u.Msun, m_2=np.array([.2]) * u.Msun)
s.get_source_mask(stationary=True)
s.m_1, s.m_2 = np.array([40.]) * u.Msun, np.array([40.]) * u.Msun
o = coll(1, f_orb=np.array([3e-3]) * u.Hz, m_1=np.array([40.]) * u.Msun, m_2=np.array([40.]) * u.Msun)
assert s.get_source_mask(stationary=True)[0] == o.get_source_mask(stationary=True)[0], "class of the former masses"
''')

bug("c26-curve-toggle", "C26",
    [(SRC, "            self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz\n        else:\n            self.sc = None\n",
      "            self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz\n        elif getattr(self, \"sc\", None) is None:\n            self.sc = None\n")],
    "interpolation of the curve switched off in a collection that has one", "the old curve stays and is used for every later SNR",
    '''
s = coll(1, interpolate_sc=True)
s.interpolate_sc = False
s.set_sc()
s.sc_params["instrument"] = "TianQin"
near(s.get_snr(), coll(1, sc_params={"instrument": "TianQin"}).get_snr(), 1e-6, "SNR without interpolation")
''')

bug("c27-past-every", "C27",
    [(E, "        if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover\n",
      "        if np.all(timesteps[:, -1] > t_merge):      # pragma: no cover\n")],
    "several binaries of which only some are evolved past their merger", "no warning although some binaries are evolved past their merger",
    EAR + '''
f = np.array([1e-2, 1e-5]) * u.Hz
evol.evol_ecc(ecc_i=np.array([.3, .3]), t_evol=1 * u.Myr, n_step=5, f_orb_i=f, m_1=np.full(2, 1.) * u.Msun, m_2=np.full(2, 1.) * u.Msun)
assert heard("past the merger") == 1, ear.rec
''')

bug("c27-own-handler", "C27",
    [(LOG, "if not logger.handlers:\n", "if not any(isinstance(h, logging.StreamHandler) for h in logger.handlers):\n")],
    "an application that gave the logger a handler that is not a stream before importing the package", "the package adds its own handler and resets the level",
    '''
import subprocess, sys, os, textwrap
code = textwrap.dedent("""
import sys, logging
sys.path.insert(0, %r)
class H(logging.Handler):
    def emit(self, r):
        pass
logging.getLogger("LEGWORK").addHandler(H())
logging.getLogger("LEGWORK").setLevel(logging.ERROR)
import legwork
legwork.logger.warning("hello there")
""") % os.path.dirname(os.path.dirname(os.path.abspath(lw.__file__)))
out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True).stdout
assert out == "", out
''')

bug("c27-count-selected", "C27",
    [(SRC, "                print(\"\\t\\t{} sources are stationary and eccentric\".format(len(snr[e_mask])))\n",
      "                print(\"\\t\\t{} sources are stationary and eccentric\".format(len(snr[self.ecc > self.ecc_tol])))\n")],
    "a verbose SNR call for a collection with eccentric sources that are evolving, merged or not selected", "the number of stationary eccentric sources printed is too large",
    '''
import io, contextlib
s = coll(3, ecc=np.array([.3, .3, 0.]), f_orb=np.array([1e-4, 1e-4, 1e-4]) * u.Hz)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    s.get_snr(verbose=True, which_sources=np.array([True, False, True]))
line = [x for x in o.getvalue().splitlines() if "stationary and eccentric" in x]
assert len(line) == 1 and line[0].split()[0] == "1", o.getvalue()
''')

bug("c27-pol-quiet", "C27",
    [(SRC, "                logger.info(\"Generating random values for source polarisations\")\n",
      "                if np.size(m_1) > 1:\n                    logger.info(\"Generating random values for source polarisations\")\n")],
    "a single source with a position and no polarisation", "its polarisation is drawn without saying so",
    EAR + '''
from astropy.coordinates import SkyCoord
p = SkyCoord(lon=[1.] * u.rad, lat=[.2] * u.rad, distance=[1.] * u.kpc, frame="barycentrictrueecliptic")
coll(1, position=p, inclination=np.array([.5]) * u.rad)
assert heard("polarisation") == 1, ear.rec
''')

bug("c28-stationary-mask", "C28",
    [(SRC, "        self.snr = self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n"
           "                                           verbose=verbose)\n",
      "        self.snr = np.where(self.get_source_mask(stationary=True, t_obs=t_obs),\n"
      "                            self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n"
      "                                                    verbose=verbose), 0.0)\n")],
    "a Stationary collection with a source that evolves by more than the tolerance", "that source gets SNR 0",
    '''
kw = dict(f_orb=np.array([1e-4, 2e-2]) * u.Hz, m_1=np.array([1., 30.]) * u.Msun, m_2=np.array([1., 30.]) * u.Msun)
near(coll(2, "Stationary", **kw).get_snr(), coll(2, **kw).get_snr_stationary(), 1e-9, "SNR")
''')

bug("c28-evolving-steps", "C28",
    [(SRC, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n"
           "                                         custom_psd=custom_psd, verbose=verbose)\n",
      "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=max(n_step, 10), instrument=instrument,\n"
      "                                         custom_psd=custom_psd, verbose=verbose)\n")],
    "an Evolving collection and fewer than ten time steps", "more steps than asked for are used, unlike in the generic call",
    '''
kw = dict(f_orb=np.array([1.5e-2]) * u.Hz, m_1=np.array([30.]) * u.Msun, m_2=np.array([30.]) * u.Msun)
near(coll(1, "Evolving", **kw).get_snr(n_step=3), coll(1, **kw).get_snr_evolving(n_step=3), 1e-9, "SNR")
''')

bug("c28-vb-index", "C28",
    [(SRC, "        raise NotImplementedError(\"Verification binaries cannot be subsetted with indexing.\")\n",
      "        if not isinstance(ind, slice):\n"
      "            raise NotImplementedError(\"Verification binaries cannot be subsetted with indexing.\")\n"
      "        return super().__getitem__(ind)\n")],
    "verification binaries indexed with a slice", "a subset with the labels and SNRs of all binaries comes back",
    '''
v = source.VerificationBinaries()
try:
    v[2:5]
except NotImplementedError:
    pass
else:
    raise AssertionError("a slice of the verification binaries was accepted")
''')

bug("c28-vb-inclination", "C28",
    [(SRC, "                         position=position, inclination=vbs[\"i\"], interpolate_g=False)\n",
      "                         position=position, inclination=np.minimum(vbs[\"i\"], 60 * u.deg), interpolate_g=False)\n")],
    "the eclipsing binaries of the catalogue", "inclinations above 60 degrees are lost, so their strains are too large",
    '''
v = source.VerificationBinaries()
near(v.inclination.to_value(u.deg).max(), 86.9, 1e-9, "largest inclination")
''')
