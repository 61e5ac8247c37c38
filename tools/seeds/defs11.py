import os
import runpy
_d = runpy.run_path(os.path.join(os.path.dirname(__file__), "defs2.py"))
U, S, P, E, N, SRC, V, HEAD = (_d[k] for k in ("U", "S", "P", "E", "N", "SRC", "V", "HEAD"))
BUGS = []
LOG = "src/legwork/_logging.py"


def bug(id, prop, edits, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo))


bug("c15-style-on-error", "C15",
    [(V, "        with plt.rc_context(style_params):\n            return func(*args, **kwargs)\n",
      "        before = {key: plt.rcParams[key] for key in style_params}\n        plt.rcParams.update(style_params)\n"
      "        result = func(*args, **kwargs)\n        plt.rcParams.update(before)\n        return result\n")],
    "a plotting call that is refused", "LEGWORK's style stays on for everything plotted afterwards",
    '''
import matplotlib.pyplot as plt
was = plt.rcParams["font.family"], plt.rcParams["axes.labelsize"]
try:
    visualisation.plot_sensitivity_curve(y_quantity="nonsense", show=False)
except ValueError:
    pass
assert (plt.rcParams["font.family"], plt.rcParams["axes.labelsize"]) == was
''')

bug("c07-beta-over", "C07",
    [(E, "    elif beta is None:\n        beta = utils.beta(m_1, m_2)\n\n    # ensure that a_i", "    elif m_1 is not None and m_2 is not None:\n        beta = utils.beta(m_1, m_2)\n\n    # ensure that a_i")],
    "a beta given together with masses that do not match it", "the beta the caller gave is overridden",
    '''
b = utils.beta([5] * u.Msun, [3] * u.Msun)
a = [0.01] * u.AU
near(evol.get_t_merge_circ(beta=b, a_i=a, m_1=[1] * u.Msun, m_2=[1] * u.Msun).to(u.yr).value, evol.get_t_merge_circ(beta=b, a_i=a).to(u.yr).value, 1e-9, "merger time")
''')

bug("c07-a-ignored", "C07",
    [(E, "    elif a_i is None:\n        a_i = utils.get_a_from_f_orb(f_orb=f_orb_i, m_1=m_1, m_2=m_2)\n    return beta, a_i",
      "    elif f_orb_i is not None and m_1 is not None and m_2 is not None:\n        a_i = utils.get_a_from_f_orb(f_orb=f_orb_i, m_1=m_1, m_2=m_2)\n    return beta, a_i")],
    "a separation given together with a frequency that does not match it", "the frequency wins although the separation is documented to",
    '''
kw = dict(m_1=[1] * u.Msun, m_2=[1] * u.Msun, a_i=[0.01] * u.AU)
near(evol.get_t_merge_circ(f_orb_i=[1e-3] * u.Hz, **kw).to(u.yr).value, evol.get_t_merge_circ(**kw).to(u.yr).value, 1e-9, "merger time")
''')



bug("c27-level-carried", "C27",
    [(LOG, '            prefix = "{}{}{}{}".format(_BOLD, _LEVEL_COLOURS.get(record.levelno, ""), prefix, _RESET)\n',
      '            self._colour = _LEVEL_COLOURS.get(record.levelno, getattr(self, "_colour", ""))\n'
      '            prefix = "{}{}{}{}".format(_BOLD, self._colour, prefix, _RESET)\n')],
    "a plain piece of information on a terminal after a warning", "it is coloured like the warning before it",
    '''
import logging
from legwork._logging import LegworkFormatter
class T:
    def isatty(self):
        return True
f = LegworkFormatter(stream=T())
def line(level):
    return f.format(logging.LogRecord("LEGWORK", level, "x", 1, "hello", (), None))
first = line(logging.INFO)
line(logging.WARNING)
assert line(logging.INFO) == first, (first, line(logging.INFO))
''')

bug("c05-tianqin-shared", "C05",
    [(P, "    fstar = const.c / (2 * np.pi * L)\n    Sa = 1e-30", "    fstar = const.c / (2 * np.pi * np.sqrt(3) * 1e5 * u.km)\n    Sa = 1e-30")],
    "TianQin with another arm length", "the turnover stays at the one of the default arm length",
    '''
f = np.array([.5]) * u.Hz
L = 5e5 * u.km
a = psd.tianqin_psd(f, L=L, confusion_noise=None).to(1 / u.Hz).value
fs = (c.c / (2 * np.pi * L)).to(u.Hz).value
n = 10 / 3 / L.to(u.m).value**2 * (4 * 1e-30 / (2 * np.pi * .5)**4 * (1 + 1e-4 / .5) + 1e-24) * (1 + .6 * (.5 / fs)**2)
near(a, np.array([n]), 1e-9, "TianQin")
''')

bug("c05-approx-band", "C05",
    [(P, "    return (3 / 10) / (1 + 0.6 * (f / fstar)**2)\n", "    return (3 / 10) * (1 - 0.6 * (f / fstar)**2 + 0.36 * (f / fstar)**4) if np.all(f < 0.1 * fstar) "
      "else (3 / 10) / (1 + 0.6 * (f / fstar)**2)\n")],
    "only low frequencies in one call", "a series is used when all frequencies are low, off by up to 2e-7",
    '''
f = np.array([1.5e-3]) * u.Hz
a = psd.lisa_psd(f, approximate_R=True, confusion_noise=None)
b = psd.lisa_psd(np.array([1.5e-3, 1]) * u.Hz, approximate_R=True, confusion_noise=None)[:1]
near(a.value, b.value, 1e-11, "approximate response")
''')
