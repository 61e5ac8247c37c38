"""Everything the package says is recorded (logger records, standard output and error) while its functions run with
and without the conditions that call for a message: drawn orientations, interpolation for few sources, evolutions past
or close to the merger, plots without anything to plot, verbose SNR calls whose counts are parsed and compared with the
classes of the sources, functions that cannot be saved, files of other versions, a missing response table.  Fresh
interpreters, with pipes and pseudo-terminals as standard output, show where messages go and what they look like."""
import contextlib
import io
import json
import logging
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile

import astropy.units as u
import numpy as np

import gen
import obs
import overlay
import ref
import srcs
from coll import build, contents
from harness import case

W, I, E = logging.WARNING, logging.INFO, logging.ERROR


class Heard(logging.Handler):
    """Records of the LEGWORK logger and everything printed within the context."""

    def __init__(self, level=logging.DEBUG):
        super().__init__()
        self.at = level
        self.rec = []

    def emit(self, r):
        self.rec.append((r.levelno, r.getMessage()))

    def __enter__(self):
        self.log = logging.getLogger("LEGWORK")
        self.old = (list(self.log.handlers), self.log.level)
        self.log.handlers[:] = [self]
        self.log.setLevel(self.at)
        self.out, self.err = io.StringIO(), io.StringIO()
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        self.stack.enter_context(contextlib.redirect_stderr(self.err))
        return self

    def __exit__(self, *a):
        self.stack.close()
        self.log.handlers[:] = self.old[0]
        self.log.setLevel(self.old[1])
        return False

    def said(self, *words):
        return [r for r in self.rec if all(w in r[1].lower() for w in words)]

    def printed(self):
        return self.out.getvalue() + self.err.getvalue()


def only(t, h, *expected, printed=False):
    """Exactly these records: (level, words...), each once, and nothing printed."""
    for lv, *words in expected:
        got = h.said(*words)
        t.true("one message about " + " ".join(words), len(got) == 1, records=h.rec)
        t.true("level of the message about " + " ".join(words), got[0][0] == lv, record=got)
        t.count("messages expected and heard")
    t.true("no other message", len(h.rec) == len(expected), records=h.rec, expected=expected)
    if not printed:
        t.true("nothing printed", h.printed() == "", printed=h.printed()[:300])
    t.count("calls listened to")


@case(quick=120, thorough=3000)
def drawn(t):
    """What is drawn at random is said, what is given is not."""
    rng = t.rng
    n = int(rng.integers(1, 6))
    S = srcs.contents(rng, n, "cC")
    S["e"] = np.zeros(n)
    sky = rng.random() < .8
    if sky:
        srcs.orient(rng, S)
    kw = srcs.kwargs(rng, S)
    want = []
    if sky:
        for k in ("inclination", "polarisation"):
            if rng.random() < .5:
                kw.pop(k)
                want.append((I, k))
    if n == 1 and rng.random() < .5:
        kw = {k: v[0] for k, v in kw.items()}
    klass = ["Source", "Stationary", "Evolving"][int(rng.integers(3))]
    t.note(args=sorted(kw), n=n, klass=klass)
    t.seen(tuple(sorted(kw)), klass, n)
    with Heard() as h:
        getattr(t.L.source, klass)(**kw, interpolate_g=False, interpolate_sc=bool(rng.random() < .2))
    only(t, h, *want)
    if want:
        with Heard(W) as h:
            getattr(t.L.source, klass)(**kw, interpolate_g=False, interpolate_sc=False)
        only(t, h)


@case(quick=40, thorough=600)
def few_sources(t):
    """The advice about interpolating g(n, e) comes up to a thousand sources."""
    rng = t.rng
    n = [1, 2, 999, 1000, 1001, 1002, 1500, int(rng.integers(3, 900)), int(rng.integers(1010, 4000))][t.index % 9]

    class Cheap(t.L.source.Source):        # without the spline itself, which takes seconds
        def set_g(self, interpolate_g):
            self.g = (lambda n, e: t.L.utils.peters_g(n, e)) if interpolate_g else None
    wanted = bool(rng.random() < .75)
    kw = dict(m_1=np.full(n, .6) * u.Msun, m_2=np.full(n, .5) * u.Msun, ecc=np.zeros(n), dist=np.full(n, 8) * u.kpc, f_orb=np.full(n, 1e-4) * u.Hz,
              interpolate_sc=False)
    if not wanted or rng.random() < .5:
        kw["interpolate_g"] = wanted
    t.note(n=n, wanted=wanted)
    t.seen(n, wanted)
    with Heard() as h:
        s = Cheap(**kw)
    only(t, h, *([(W, "interpolate_g")] if wanted and n <= 1000 else []))
    with Heard() as h:
        a = s[::2]
        a.copy()
        s.get_h_0_n([2])
        s.evolve_sources(1 * u.yr, create_new_class=True)
    only(t, h)


@case(quick=150, thorough=4000)
def near_merger(t):
    """Evolving past the merger, or with no time far enough from it, is warned about (when mergers are avoided)."""
    rng, L = t.rng, t.L.evol
    n = int(rng.integers(1, 5))
    m1, m2 = gen.light(rng, n)
    e = rng.uniform(.02, .85, n)
    f = gen.f_for_tmerge(ref.chirp_mass(m1, m2), gen.logu(rng, 1e4, 1e9, n) * ref.YR, ref.F(e))
    a, b = ref.a_of_f(f, m1, m2), ref.beta(m1, m2)
    tm = ref.t_code(e, a, b)
    tb = float(tm.min() * rng.choice([1e-3, .1, .5, .9]))
    k = int(rng.integers(6))
    m = int(rng.integers(2, 8))
    x = np.sort(rng.uniform(0, 1, (n, m)), axis=1)
    x[:, 0] = 0
    avoid = bool(rng.random() < .85)
    given = rng.random() < .5
    if k in (0, 1):         # all before
        grid = x * .97 * tm[:, None]
    elif k in (2, 3):       # some binaries are taken past their merger
        grid = x * tm[:, None] * np.where(rng.random(n) < .5, .9, 1.5)[:, None]
    elif k == 4:            # all but the first too close
        grid = x * 0 + tm[:, None] - tb * rng.uniform(.05, .8, (n, m))
        grid = np.sort(grid, axis=1)
        grid[:, 0] = 0
    else:                   # all but the first past the merger
        grid = tm[:, None] * (1.1 + x)
        grid[:, 0] = 0
    lim = 1e-3 * tm[:, None]
    edge = (np.abs(grid - tm[:, None]) < lim).any() or (np.abs(grid - (tm[:, None] - tb)) < lim).any()
    if edge:
        grid = np.where(np.abs(grid - tm[:, None]) < lim, grid - 3 * lim, grid)
        grid = np.where(np.abs(grid - (tm[:, None] - tb)) < lim, grid - 3 * lim, grid)
        grid = np.sort(grid, axis=1)
        grid[:, 0] = 0
    past = bool((grid > tm[:, None]).any())
    close = bool((grid[:, 1:] >= tm[:, None] - tb).all())
    kw = dict(ecc_i=e, m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, timesteps=gen.q(rng, grid, "time"), t_before=gen.q(rng, tb, "time"), avoid_merger=avoid)
    if given:
        kw["t_merge"] = gen.q(rng, tm, "time")
    t.note(kind=k, past=past, close=close, avoid=avoid, e=e, n=n, given=given)
    t.seen(k, past, close, avoid, n, m, given)
    with Heard() as h:
        L.evol_ecc(**kw)
    want = []
    if avoid and past:
        want.append((W, "past the merger"))
    if avoid and close:
        want.append((W, "too close"))
    only(t, h, *want)
    with Heard() as h:
        L.evol_circ(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, timesteps=gen.q(rng, grid, "time"))
    only(t, h)


LINES = [("all", r"SNR for (\d+) source"), ("merged", r"(\d+)\s+sources have already merged"), ("stationary", r"(\d+) sources are stationary\s*$"),
         ("evolving", r"(\d+) sources are evolving\s*$"), ("sc", r"(\d+) sources are stationary and circular"), ("se", r"(\d+) sources are stationary and eccentric"),
         ("ec", r"(\d+) sources are evolving and circular"), ("ee", r"(\d+) sources are evolving and eccentric")]


@case(quick=60, thorough=1500)
def verbose(t):
    """The counts a verbose SNR call prints are those of the sources it computes; otherwise nothing is printed."""
    rng = t.rng
    n = int(rng.integers(1, 8))
    S = srcs.contents(rng, n, "cCeEs", e_hi=.5)
    s = srcs.make(t, S)
    gone = (rng.random(n) < .3) & (rng.random() < .6)
    if gone.any():
        s.get_merger_time()
        s.evolve_sources(np.where(gone, s.t_merge.to_value(u.yr) * 1.5, 0) * u.yr)
    mask = None if rng.random() < .4 else rng.random(n) < .6
    sel = np.ones(n, bool) if mask is None else mask
    call = ["get_snr", "get_snr", "get_snr_stationary", "get_snr_evolving"][int(rng.integers(4))]
    circ, stat = s.get_source_mask(circular=True), s.get_source_mask(stationary=True)
    live = sel & ~gone
    kw = {} if call == "get_snr_stationary" else {"n_step": 3}
    if mask is not None:
        kw["which_sources"] = mask
    t.note(call=call, kinds=S["kind"], gone=gone, mask=mask)
    t.seen(call, tuple(S["kind"]), tuple(gone), tuple(sel))
    with Heard() as h:
        quiet = getattr(s, call)(**kw)
    only(t, h)
    with Heard() as h:
        loud = getattr(s, call)(verbose=True, **kw)
    only(t, h, printed=True)
    t.same("the same values", loud, quiet)
    text = h.out.getvalue()
    got = {}
    for line in text.splitlines():
        hit = [(k, int(m.group(1))) for k, m in ((k, re.search(r, line)) for k, r in LINES) if m]
        t.true("a line about the sources", len(hit) == 1, line=line)
        t.true("each count once", hit[0][0] not in got, printed=text)
        got[hit[0][0]] = hit[0][1]
    want = {}
    if call == "get_snr":
        want = {"all": sel.sum(), "merged": gone.sum(), "stationary": (live & stat).sum(), "evolving": (live & ~stat).sum(), "sc": (live & stat & circ).sum(),
                "se": (live & stat & ~circ).sum(), "ec": (live & ~stat & circ).sum(), "ee": (live & ~stat & ~circ).sum()}
    elif call == "get_snr_stationary":
        want = {"sc": (live & circ).sum(), "se": (live & ~circ).sum()}
    else:
        want = {"ec": (live & circ).sum(), "ee": (live & ~circ).sum()}
    want = {k: int(v) for k, v in want.items()}
    for k, v in want.items():
        t.true("number of sources: " + k, got.get(k, 0) == v, got=got, want=want)
    t.true("no count of anything else", set(got) <= set(want), got=got, want=want)
    t.count("verbose counts", len(got))


@case(quick=60, thorough=1200)
def quiet(t):
    """Everything a collection is asked to do without a reason for a message is done in silence."""
    rng = t.rng
    s, done = build(t)
    n = s.n_sources
    d = tempfile.mkdtemp(prefix="c27-")
    ops = []
    try:
        with Heard() as h:
            for _ in range(int(rng.integers(3, 8))):
                op = ["mask", "h0", "hc", "snr", "merger", "evolve", "new", "index", "copy", "save", "params", "tol", "curve", "again"][int(rng.integers(14))]
                ops.append(op)
                if op == "mask":
                    s.get_source_mask(circular=True, stationary=False)
                elif op == "h0":
                    s.get_h_0_n([1, 2, 3])
                elif op == "hc":
                    s.get_h_c_n(2)
                elif op == "snr" and not s.merged.all():
                    s.get_snr(**({} if type(s).__name__ == "Stationary" else {"n_step": 3}))
                elif op == "merger":
                    s.get_merger_time(save_in_class=bool(rng.random() < .5), exact=bool(rng.random() < .5))
                elif op == "evolve":
                    s.evolve_sources(gen.logu(rng, 1e-3, 1e4) * u.yr)
                elif op == "new":
                    s.evolve_sources(gen.logu(rng, 1e-3, 1e4) * u.yr, create_new_class=True)
                elif op == "index":
                    s[rng.random(n) < .5]
                elif op == "copy":
                    s.copy()
                elif op == "save" and not any(callable(v) for v in s.sc_params.values()):
                    f = os.path.join(d, "f")
                    s.save(f, overwrite=True)
                    t.L.source.Source.from_file(f, interpolate_g=False)
                elif op == "params":
                    s.sc_params.update(instrument="TianQin", confusion_noise="huang20", t_obs=5 * u.yr)
                elif op == "tol":
                    s.gw_lum_tol = .03
                elif op == "curve":
                    s.set_sc()
                elif op == "again":
                    t.L.source.Source(m_1=s.m_1, m_2=s.m_2, ecc=s.ecc, dist=s.dist, f_orb=s.f_orb, position=s.position, inclination=s.inclination,
                                      polarisation=s.polarisation, interpolate_g=False, interpolate_sc=False)
    finally:
        shutil.rmtree(d)
    t.note(ops=ops, done=done)
    t.seen(tuple(ops))
    only(t, h)


@case(quick=60, thorough=800)
def nothing_to_plot(t):
    """Plots without an SNR, or with nothing above the cutoff, say so as an error and draw only the curve."""
    import matplotlib.pyplot as plt
    rng = t.rng
    n = int(rng.integers(1, 5))
    k = t.index % 3
    plt.close(plt.figure())
    if k == 0:
        S = srcs.contents(rng, n, "ce", e_hi=.4)
        s = srcs.make(t, S)
        nums = plt.get_fignums()
        with Heard() as h:
            out = s.plot_sources_on_sc(show=False, snr_cutoff=float(rng.choice([0, 7])))
        t.true("no figure without an SNR", out == (None, None) and plt.get_fignums() == nums, got=out)
        only(t, h, (E, "snr"))
    else:
        x, snr = gen.logu(rng, 1e-4, 1e-2, n) * u.Hz, gen.logu(rng, .1, 50, n)
        some = k == 2
        cut = float(snr.max() * (rng.uniform(.2, .99) if some else rng.uniform(1.01, 3)))
        kw = {}
        mine = None
        if rng.random() < .5:
            mine = plt.subplots()
            kw = dict(fig=mine[0], ax=mine[1])
        with Heard() as h:
            fig, ax = t.L.visualisation.plot_sources_on_sc(f_dom=x, snr=snr, snr_cutoff=cut, show=False, **kw)
        only(t, h, *([] if some else [(E, "cutoff")]))
        if mine:
            t.true("the caller's figure", fig is mine[0] and ax is mine[1])
        t.true("sources drawn or not", bool([c for c in ax.collections if type(c).__name__ == "PathCollection"]) == some, got=[type(c).__name__ for c in ax.collections])
        if not mine:
            t.true("the curve is there", len(ax.lines) + len(ax.collections) > 0)
    plt.close("all")
    t.note(kind=k, n=n)
    t.seen(k, n, t.index)


@case(quick=50, thorough=800)
def files(t):
    """Functions that cannot be stored, and files of other versions, are warned about by name; others are not."""
    import h5py
    rng = t.rng
    S = srcs.contents(rng, int(rng.integers(1, 4)), "cCeE")
    par = {}
    fns = []
    if rng.random() < .5:
        par["confusion_noise"] = gen.custom_confusion(rng)[0]
        fns.append("confusion_noise")
    if rng.random() < .5:
        par.update(instrument="custom", custom_psd=obs.custom_psd(rng)[0])
        fns.append("custom_psd")
    s = srcs.make(t, S, sc_params=par)
    ver = t.L.__version__
    other = None if rng.random() < .5 else ["0.0.1", "99.1", "abc"][int(rng.integers(3))]
    t.note(functions=fns, other=other)
    t.seen(tuple(fns), other, len(S["f"]))
    d = tempfile.mkdtemp(prefix="c27-")
    try:
        f = os.path.join(d, "x.h5")
        before = contents(s)
        with Heard() as h:
            s.save(f)
        t.true("saving changes nothing", contents(s) == before)
        text = h.printed() + " ".join(m for _, m in h.rec)
        for k in ("confusion_noise", "custom_psd"):
            t.true("{} named exactly when it cannot be saved".format(k), (k in text) == (k in fns), said=text)
        t.true("silent when all is saved", bool(text) == bool(fns), said=text)
        if other is not None:
            with h5py.File(f, "r+") as file:
                keys = [k for k, v in file.attrs.items() if isinstance(v, str) and v == ver]
                t.true("the version is in the file", len(keys) == 1, got=dict(file.attrs))
                file.attrs[keys[0]] = other
        with Heard() as h:
            o = t.L.source.Source.from_file(f)
        text = h.printed() + " ".join(m for _, m in h.rec)
        t.true("the file's version is named when it is another", (other is not None) == (ver in text) and (other is None or other in text), said=text)
        t.true("a lost PSD is named on loading", ("custom_psd" in text) == ("custom_psd" in fns), said=text)
        t.true("silent when there is nothing to say", bool(text) == (other is not None or "custom_psd" in fns), said=text)
        t.true("loaded all the same", o.n_sources == s.n_sources)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- in fresh interpreters
SCRIPT = r"""
import sys, json, logging
sys.path.insert(0, {top!r})
cfg = json.loads({cfg!r})
got = []
class H(logging.Handler):
    def emit(self, r):
        if r.name == "LEGWORK":
            got.append([r.levelname, r.getMessage()])
root = logging.getLogger()
if cfg["root"]:
    root.addHandler(H())
    root.setLevel(logging.DEBUG)
log = logging.getLogger("LEGWORK")
mine = None
if cfg["mine"]:
    mine = H()
    log.addHandler(mine)
    log.setLevel(getattr(logging, cfg["mine"]))
import legwork
import numpy as np
import astropy.units as u
if cfg["level"]:
    legwork.logger.setLevel(getattr(logging, cfg["level"]))
same = legwork.logger is log
for name, text in cfg["messages"]:
    getattr(legwork.logger, name)(text)
if cfg["table"]:
    r = np.asarray(legwork.psd.load_response_function(np.array([1e-3, 2e-2]), fstar=19e-3)).tolist()
    a = np.asarray(legwork.psd.approximate_response_function(np.array([1e-3, 2e-2]), 19e-3)).tolist()
else:
    r = a = None
if cfg["real"]:
    try:
        legwork.visualisation.plot_sources_on_sc(f_dom=np.array([1e-3]) * u.Hz, snr=np.array([1.0]), snr_cutoff=7, show=False)
    except Exception as e:
        r = repr(e)
sys.stdout.flush()
with open({res!r}, "w") as f:
    json.dump(dict(got=got, same=same, r=r, a=a, handlers=len(log.handlers), kept=(mine in log.handlers) if mine else None, level=log.level,
                   lastly=len(root.handlers), propagate=log.propagate), f)
"""
COLOUR = {"warning": "33", "error": "31", "critical": "31"}


def run(script, tty):
    env = {**os.environ, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"}
    cmd = [sys.executable, "-W", "ignore", "-c", script]
    if not tty:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120, cwd="/")
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    import pty
    a, b = pty.openpty()
    try:
        p = subprocess.Popen(cmd, stdout=b, stderr=subprocess.PIPE, env=env, cwd="/")
        os.close(b)
        out = b""
        while True:
            r, _, _ = select.select([a], [], [], 100)
            if not r:
                p.kill()
                break
            try:
                x = os.read(a, 65536)
            except OSError:
                break
            if not x:
                break
            out += x
        err = p.stderr.read().decode()
        return p.wait(20), out.decode().replace("\r\n", "\n"), err
    finally:
        os.close(a)


@case(quick=20, thorough=160)
def interpreters(t):
    rng = t.rng
    i = t.index
    tty = i % 3 == 1
    table = i % 5 == 2
    cfg = {"root": bool(rng.random() < .4), "mine": ["", "", "ERROR", "INFO"][i % 4], "level": ["", "", "ERROR", "DEBUG", "WARNING"][int(rng.integers(5))],
           "table": table, "real": bool(i % 4 == 3 and not table)}
    names = ["debug", "info", "warning", "error", "critical"]
    cfg["messages"] = [[names[int(rng.integers(5))], ["plain words", "100% of {it} {} %s", "two\nlines", "µ – ∞"][int(rng.integers(4))]] for _ in range(int(rng.integers(1, 6)))]
    t.note(tty=tty, **{k: v for k, v in cfg.items()})
    t.seen(tty, json.dumps(cfg))
    d = tempfile.mkdtemp(prefix="c27-")
    top = os.path.join(d, "top")
    pkg = os.path.join(top, "legwork")
    os.makedirs(pkg)
    try:
        src = os.path.join(overlay.REPO, "src", "legwork")
        for n in sorted(os.listdir(src)):
            if n != "__pycache__" and not (n == "R.npy" and table):
                os.symlink(os.path.join(src, n), os.path.join(pkg, n))
        res = os.path.join(d, "res.json")
        code, out, err = run(SCRIPT.format(top=top, cfg=json.dumps(cfg), res=res), tty)
        t.true("the interpreter ends well", code == 0 and os.path.exists(res), code=code, err=err[-400:])
        r = json.load(open(res))
    finally:
        shutil.rmtree(d)
    t.true("legwork.logger is the logger called LEGWORK", r["same"])
    level = cfg["level"] or (cfg["mine"] or "INFO")
    msgs = list(cfg["messages"])
    if table:
        msgs.append(["warning", None])
        t.eq("approximation instead of the missing table", np.array(r["r"]), np.array(r["a"]), 1e-12)
    if cfg["real"]:
        t.true("plotting call", r["r"] is None, got=r["r"])
        msgs.append(["error", None])
    due = [m for m in msgs if logging.getLevelName(m[0].upper()) >= logging.getLevelName(level)]
    if cfg["mine"]:
        t.true("a handler the user has set up is left alone", r["handlers"] == 1 and r["kept"], got=r)
        t.true("no handler is added then", out == "", printed=out)
        both = 2 if cfg["root"] and r["propagate"] else 1
        # (the same class of handler on the root logger may hear it too)
        t.true("the user's handler hears what is due", len(r["got"]) in (len(due), both * len(due)), got=r["got"], want=due)
        return
    t.true("one handler", r["handlers"] == 1, got=r)
    t.true("not passed on to the root logger", r["got"] == [], got=r["got"])
    t.true("nothing on standard error", err == "", err=err[-300:])
    rest = out
    for name, text in due:
        head = "LEGWORK " + name
        if tty:
            head = "\033[1m" + ("\033[{}m".format(COLOUR[name]) if name in COLOUR else "") + head + "\033[0m"
        head += ": "
        t.true("prefix of a message", rest.startswith(head), output=rest[:120], prefix=head)
        rest = rest[len(head):]
        if text is None:
            line, _, rest = rest.partition("\n")
            t.true("a message of its own", len(line) > 10)
        else:
            t.true("text of a message, once", rest.startswith(text + "\n"), output=rest[:120], text=text)
            rest = rest[len(text) + 1:]
        t.count("messages of fresh interpreters")
    t.true("nothing else on standard output", rest == "", rest=rest[:200])
