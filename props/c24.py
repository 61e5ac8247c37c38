"""Every plotting function and both source methods under random data, units, settings, limits, figures (own, the
caller's, only half of a pair), weights, cutoffs, logarithms and kinds of distribution; the artists that end up on
the axes are read back and compared with the reference noise, numpy histograms, empirical distributions and direct
kernel density plots of exactly the data that should be shown.  plt.show, open figures, plotting style, unit
registry, the collection and the log messages are watched around every call."""
import logging
import re

import astropy.units as u
import numpy as np

import coll
import gen
import obs
import ref
import srcs
from harness import case, digest


class Watch:
    """What a plotting call does besides drawing."""

    def __init__(self, t, show):
        import matplotlib
        import matplotlib.pyplot as plt
        import matplotlib.units as mu
        plt.close(plt.figure())             # loads the backend, which changes pyplot
        self.t, self.plt, self.mu, self.want = t, plt, mu, show
        self.rc = matplotlib.rcParams

    def __enter__(self):
        self.shown = 0
        self.orig = self.plt.show
        self.plt.show = lambda *a, **k: self.count()
        self.before = (dict(self.rc), dict(self.mu.registry), set(self.plt.get_fignums()))
        return self

    def count(self, *a, **k):
        self.shown += 1

    def __exit__(self, et, ev, tb):
        self.plt.show = self.orig
        if et is None:
            rc = dict(self.rc)
            self.t.true("plotting style unchanged", rc == self.before[0], changed=[k for k in rc if rc[k] != self.before[0].get(k)])
            self.t.true("unit registry unchanged", dict(self.mu.registry) == self.before[1])
            if self.want is not None:
                self.t.true("shown exactly when asked to", self.shown == (1 if self.want else 0), shown=self.shown, asked=self.want)
        self.new = set(self.plt.get_fignums()) - self.before[2]
        return False


def figure(t, rng, own=.5):
    """(keyword arguments, the caller's figure and axes or None)."""
    import matplotlib.pyplot as plt
    if rng.random() < own:
        k = int(rng.integers(3))
        if k == 0:
            return {}, None
        fig, ax = plt.subplots(figsize=(4, 3))
        if k == 1:
            return {"fig": fig}, None           # both are needed
        return {"ax": ax}, None
    fig, axes = plt.subplots(1, 2, figsize=(4, 3))
    ax = axes[int(rng.integers(2))]
    return {"fig": fig, "ax": ax}, (fig, ax)


def where(t, w, mine, res, kw):
    """The plot is where it should be; returns the axes."""
    fig, ax = res
    if mine is not None:
        t.true("stays on the caller's figure", fig is mine[0] and ax is mine[1] and not w.new, new=len(w.new))
        others = [a for a in fig.axes if a is not ax]
        t.true("nothing on other axes", not any(a.lines or a.collections or a.patches for a in others))
    else:
        t.true("a new figure", len(w.new) == 1 and fig.number in w.new and ax in fig.axes, new=len(w.new))
    t.count("plots")
    return ax


def xy(line):
    return np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)


def offsets(c):
    o = np.asarray(c.get_offsets())
    return o[:, 0], o[:, 1]


def limits(t, rng, ax, xlim, ylim, log=False):
    if xlim is not None:
        t.eq("x limits", np.array(ax.get_xlim()), np.log10(xlim) if log else np.array(xlim), 1e-9)
    if ylim is not None:
        t.eq("y limits", np.array(ax.get_ylim()), np.array(ylim), 1e-9)


@case(quick=80, thorough=1600)
def sensitivity_curve(t):
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    par, tq, t_yr, noise, tag = obs.draw(rng)
    if rng.random() < .7 or par.get("confusion_noise") == "thiele21":
        par["t_obs"] = tq
    else:
        t_yr = obs.AUTO_T[par.get("instrument", "LISA")]
        inst = par.get("instrument", "LISA")
        conf = par.get("confusion_noise", "auto")
        if callable(conf) or inst == "custom":
            par["t_obs"] = tq
        else:
            Lm = par["L"].to_value(u.m) if "L" in par else None

            def noise(x):
                return ref.psd(np.asarray(x, float), inst, t_yr, Lm, par.get("approximate_R", False), conf, None)
    kw, mine = figure(t, rng)
    show = bool(rng.random() < .4)
    f = None
    if rng.random() < .7:
        lo, hi = (2e-3, 50) if par.get("instrument") == "DECIGO" else (2e-6, 1.9)
        f = np.sort(gen.logu(rng, lo, hi, int(rng.integers(2, 200))))
        f = f[np.abs(f / 1e-4 - 1) > 1e-9]
        if rng.random() < .2:
            f = f[::-1]
        kw["frequency_range"] = gen.q(rng, f, "freq")
    y = ["ASD", "h_c"][int(rng.integers(2))]
    if y == "h_c" or rng.random() < .5:
        kw["y_quantity"] = y
    fill = bool(rng.random() < .6)
    if not fill or rng.random() < .5:
        kw["fill"] = fill
    look = {}
    if rng.random() < .4:
        look = dict(color="#aa0011", linewidth=3, label="curve")
        if rng.random() < .5:
            look["alpha"] = .7
    t.note(tag=tag, y=y, args=sorted(kw), show=show)
    t.seen(tag, y, tuple(sorted(kw)))
    d0 = digest([kw.get("frequency_range"), par])
    with Watch(t, show) as w:
        res = L.visualisation.plot_sensitivity_curve(show=show, **kw, **look, **par)
    ax = where(t, w, mine, res, kw)
    t.true("arguments unchanged", digest([kw.get("frequency_range"), par]) == d0)
    if f is None:
        f = np.logspace(-5, 0, 1000)
    t.true("one curve", len(ax.lines) == 1, got=len(ax.lines))
    gx, gy = xy(ax.lines[0])
    t.eq("frequencies in Hz", gx, f, 1e-12)
    with np.errstate(all="ignore"):
        want = np.sqrt(noise(f) * (f if y == "h_c" else 1.0))
    ok = np.isfinite(want) & (np.abs(f / 1e-4 - 1) > 1e-9) & (np.abs(f - 1) > 1e-9)
    t.eq("noise amplitude", np.where(ok, gy, 1), np.where(ok, want, 1), 1e-9, y=y)
    t.true("infinite out of band", np.isinf(gy[~np.isfinite(want)]))
    t.count("curve points", len(f))
    fills = len(ax.collections)
    t.true("filled as asked", fills == (1 if fill else 0), got=fills)
    if fill and np.isfinite(gy).all():
        v = ax.collections[0].get_paths()[0].vertices
        t.true("the filled area reaches from 0 to the curve", np.isclose(v[:, 1].min(), 0) and np.isclose(v[:, 1].max(), gy.max(), rtol=1e-9))
    t.eq("flush to the edges", np.array(ax.get_xlim()), [f.min(), f.max()], 1e-9)
    t.true("log-log", ax.get_xscale() == "log" and ax.get_yscale() == "log")
    t.true("labels", "Frequency" in ax.get_xlabel() and "Hz" in ax.get_xlabel()
           and (("ASD" in ax.get_ylabel() and "Hz" in ax.get_ylabel()) if y == "ASD" else "Strain" in ax.get_ylabel()),
           x=ax.get_xlabel(), y=ax.get_ylabel())
    if look:
        ln = ax.lines[0]
        t.true("look of the curve", ln.get_color() == look["color"] and ln.get_linewidth() == 3 and ln.get_label() == "curve")
    plt.close("all")


@case(quick=10, thorough=100)
def refused(t):
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    t.seen(t.index)
    with Watch(t, False):
        t.raises("unknown quantity", ValueError, L.visualisation.plot_sensitivity_curve, y_quantity=["asd", "hc", "PSD", None][int(rng.integers(4))],
                 show=False)
        s, _ = coll.build(t)
        t.raises("unknown variable", ValueError, s.plot_source_variables, xstr="f", show=False)
        t.raises("unknown variable", ValueError, s.plot_source_variables, xstr="ecc", ystr=["t_merge", "mass", "M_c"][int(rng.integers(3))], show=False)
        if s.snr is None:
            t.raises("not calculated yet", ValueError, s.plot_source_variables, xstr="snr", show=False)
            t.raises("not calculated yet", ValueError, s.plot_source_variables, xstr="dist", ystr="snr", show=False)
            t.true("no SNR, no plot", tuple(s.plot_sources_on_sc(show=False)) == (None, None))
    plt.close("all")


@case(quick=70, thorough=1400)
def heights(t):
    """plot_sources_on_sc of legwork.visualisation."""
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    par, tq, t_yr, noise, tag = obs.draw(rng)
    par["t_obs"] = tq
    n = int(rng.integers(1, 9))
    lo, hi = (2e-3, .9) if par.get("instrument") == "DECIGO" else (1.2e-4, .9)
    f = gen.logu(rng, lo, hi, n)
    snr = gen.logu(rng, .5, 300, n)
    cut = float(rng.choice([0, 0, 7, np.median(snr), snr[0], 1e4]))
    wts = rng.uniform(.2, 3, n) if rng.random() < .4 else None
    kw, mine = figure(t, rng)
    settings = {}
    y = "ASD"
    if rng.random() < .5:
        y = ["ASD", "h_c"][int(rng.integers(2))]
        settings = {"y_quantity": y}
        if rng.random() < .5:
            settings["fill"] = False
        kw["sc_vis_settings"] = settings
    size = 20
    if rng.random() < .3:
        size = kw["scatter_s"] = 35
    show = bool(rng.random() < .3)
    t.note(tag=tag, f=f, snr=snr, cut=cut, y=y, args=sorted(kw))
    t.seen(tag, y, n, tuple(sorted(kw)))
    fq = gen.q(rng, f, "freq")
    d0 = digest([fq, snr, wts, par, settings])
    drawn = snr > cut
    if cut != 0:
        kw["snr_cutoff"] = cut
    with Watch(t, show if drawn.any() else None) as w:
        res = L.visualisation.plot_sources_on_sc(fq, snr, weights=wts, show=show, **kw, **par)
    ax = where(t, w, mine, res, kw)
    t.true("arguments unchanged", digest([fq, snr, wts, par, settings]) == d0)
    if not show:
        t.true("not shown", w.shown == 0)
    judge_heights(t, ax, mine, f[drawn], snr[drawn], None if wts is None else wts[drawn], noise, y, size, fq.unit)
    plt.close("all")


def judge_heights(t, ax, mine, f, snr, wts, noise, y, size, unit):
    t.true("a curve unless drawn on the caller's axes", len(ax.lines) == (0 if mine is not None else 1), got=len(ax.lines))
    import matplotlib.collections as mc
    sc = [c for c in ax.collections if isinstance(c, mc.PathCollection)]
    if len(f) == 0:
        t.true("no sources drawn", not sc or all(len(c.get_offsets()) == 0 for c in sc))
        return
    t.true("one group of sources", len(sc) == 1, got=len(sc))
    gx, gy = offsets(sc[0])
    t.true("exactly the sources above the cutoff", len(gx) == len(f), got=len(gx), want=len(f))
    k = 1.0
    if mine is not None:                # the caller's axes: units of the data
        k = (1 * u.Hz).to_value(unit)
    order, worder = np.argsort(gx), np.argsort(f)
    t.eq("dominant frequencies", gx[order], f[worder] * k, 1e-9)
    want = (snr * np.sqrt(noise(f) * (f if y == "h_c" else 1)))[worder]
    got = gy[order]
    if mine is not None and y == "h_c":
        # dimensionless only after conversion: the unit is that of sqrt(f / Hz)
        got = got / np.sqrt(k) if np.allclose(got / np.sqrt(k), want, rtol=1e-6) else got
    t.eq("height is SNR times the noise", got, want, 1e-7, y=y)
    s = np.asarray(sc[0].get_sizes(), float)
    if wts is None:
        t.true("sizes", np.allclose(s, size), got=s)
    else:
        t.eq("sizes follow the weights", (s if len(s) == len(f) else np.full(len(f), s[0]))[order], (wts * size)[worder], 1e-9)
    t.count("sources drawn", len(f))


@case(quick=45, thorough=900)
def sources_on_curve(t):
    """Source.plot_sources_on_sc after an SNR calculation."""
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    n = int(rng.integers(1, 9))
    par, tq, t_yr, noise, tag = obs.draw(rng, instruments=("LISA", "LISA", "TianQin", "DECIGO", "custom"), t_yr=4.0)
    if par.get("confusion_noise", "auto") is None:
        par.pop("confusion_noise")
        par["confusion_noise"] = "karnesis21"
        inst = par.get("instrument", "LISA")
        Lm = par["L"].to_value(u.m) if "L" in par else None
        cust = noise if inst == "custom" else None

        def noise(x, inst=inst, Lm=Lm, cust=cust):
            return ref.psd(np.asarray(x, float), inst, 4.0, Lm, par.get("approximate_R", False), "karnesis21", cust)
    par["t_obs"] = tq
    lo = 1.2e-3 if par.get("instrument") == "DECIGO" else 1.2e-4
    S = srcs.contents(rng, n, ["cCeE", "ce", "CE", "c"][int(rng.integers(4))], e_hi=.5, f_lo=lo, f_hi=.02)
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    s = srcs.make(t, S, sc_params=dict(par), interpolate_sc=bool(rng.random() < .15))
    gone = np.zeros(n, bool)
    if rng.random() < .4:
        gone = rng.random(n) < .4
        s.get_merger_time()
        s.evolve_sources(np.where(gone, 1.2 * s.t_merge.to_value(u.yr), 0) * u.yr)
    s.get_snr(n_step=5)
    cut = float(rng.choice([0, 0, 7, np.median(s.snr), s.snr[0]]))
    kw, mine = figure(t, rng, .6)
    y = "ASD"
    if rng.random() < .5:
        y = "h_c"
        kw["sc_vis_settings"] = {"y_quantity": "h_c", "color": "green"}
    if cut or rng.random() < .5:
        kw["snr_cutoff"] = cut
    if rng.random() < .3:
        kw["label"] = "mine"
    show = bool(rng.random() < .3)
    kw["show"] = show
    before = coll.contents(s)
    stat, circ = s.get_source_mask(stationary=True), s.get_source_mask(circular=True)
    want = stat & ~gone & (s.snr > cut)
    n_c, n_e = ((~stat & ~gone & (s.snr > cut) & m).sum() for m in (circ, ~circ))
    t.note(tag=tag, f=S["f"], e=S["e"], kind=S["kind"], cut=cut, y=y, args=sorted(kw), gone=gone)
    t.seen(tag, y, tuple(S["kind"]), tuple(gone))
    log = logging.getLogger("LEGWORK")
    rec = []

    class H(logging.Handler):
        def emit(self, r):
            rec.append(r.getMessage())
    h = H()
    level = log.level
    old = list(log.handlers)
    log.handlers[:] = [h]
    log.setLevel(logging.INFO)
    try:
        with Watch(t, show if want.any() else False) as w:
            fig, ax = s.plot_sources_on_sc(**kw)
    finally:
        log.handlers[:] = old
        log.setLevel(level)
    t.true("the collection is unchanged", coll.contents(s) == before)
    said = {"circular": 0, "eccentric": 0}
    for r in rec:
        m = re.search(r"(\d+)\D*?(circular|eccentric)", r)
        if m and "evolving" in r:
            t.true("one warning per kind", said[m.group(2)] == 0, messages=rec)
            said[m.group(2)] = int(m.group(1))
    t.true("evolving circular sources are counted in their warning", said["circular"] == n_c, got=said, want=(n_c, n_e), messages=rec)
    t.true("evolving eccentric sources are counted in their warning", said["eccentric"] == n_e, got=said, want=(n_c, n_e), messages=rec)
    if want.any():
        ax = where(t, w, mine, (fig, ax), kw)
        f = t.val("f_orb", s.f_orb, u.Hz)[want] * s.max_snr_harmonic[want]
        judge_heights(t, ax, mine, f, s.snr[want], None if s.weights is None else s.weights[want], noise, y, 20, s.f_orb.unit)
        import matplotlib.collections as mc
        c = [c for c in ax.collections if isinstance(c, mc.PathCollection)][0]
        if "label" in kw:
            t.true("label of the sources", c.get_label() == "mine", got=c.get_label())
    else:
        t.true("nothing drawn", mine is None or not (ax.collections or ax.lines))
    plt.close("all")


def data(rng, n):
    """Values and weights, of moderate spread so that automatic bins stay sensible."""
    k = int(rng.integers(3))
    x = [rng.uniform(1, 9, n), np.exp(rng.normal(0, .8, n)), 5 + rng.normal(0, 1, n)**2][k]
    return x, rng.uniform(.1, 3, n) if rng.random() < .5 else None


def judge_1d(t, ax, x, wts, kind, log, extra, color=None):
    """x: the plain numbers that should be shown."""
    if kind == "hist":
        v = np.log10(x) if log else x
        got = [p for p in ax.patches]
        bins = extra.get("bins", "fd")
        edges = np.histogram_bin_edges(v, bins=bins, range=extra.get("range"))
        want, edges = np.histogram(v, bins=edges, weights=wts, density=extra.get("density", True))
        t.true("number of bars", len(got) == len(want), got=len(got), want=len(want))
        t.eq("positions of the bars", [p.get_x() for p in got], edges[:-1], 1e-9, atol=1e-12 * np.abs(edges).max())
        t.eq("heights of the bars", [p.get_height() for p in got], want, 1e-9, atol=1e-12 * want.max(initial=1))
        t.count("bars compared", len(got))
    elif kind == "ecdf":
        gx, gy = xy(ax.lines[-1])
        o = np.argsort(x)
        ww = np.ones(len(x)) if wts is None else wts
        stat = extra.get("stat", "proportion")
        c = np.cumsum(ww[o]) / (ww.sum() if stat == "proportion" else 1)
        ok = np.isfinite(gx) & (gx > -np.inf)
        gx, gy = gx[1:], gy[1:]
        t.true("one step per value", len(gx) == len(x), got=len(gx), want=len(x))
        t.eq("places of the steps", gx, x[o], 1e-9)
        t.eq("heights of the steps", gy, c, 1e-9)
        t.true("axis is log-scaled as requested", (ax.get_xscale() == "log") == log, got=ax.get_xscale())
        t.count("steps compared", len(x))
    else:
        import matplotlib.pyplot as plt
        import seaborn as sns
        gx, gy = xy(ax.lines[-1]) if not extra.get("fill") else (None, None)
        fig2, ax2 = plt.subplots()
        sns.kdeplot(x=np.asarray(x), weights=wts, ax=ax2, log_scale=log, **{"gridsize": 200, **extra})
        wx, wy = xy(ax2.lines[-1])
        t.eq("density: places", gx, wx, 1e-6)
        t.eq("density: heights", gy, wy, 1e-6, atol=1e-9 * wy.max())
        t.true("axis is log-scaled as requested", (ax.get_xscale() == "log") == log, got=ax.get_xscale())
        t.count("densities compared")


def kwargs_1d(rng, kind, v):
    extra = {}
    if kind == "hist":
        if rng.random() < .6:
            extra["bins"] = [7, 12, "auto", "sqrt"][int(rng.integers(4))]
        if rng.random() < .4:
            extra["density"] = bool(rng.random() < .5)
        if rng.random() < .2:
            extra["range"] = (float(np.quantile(v, .1)), float(np.quantile(v, .95)))
    elif kind == "kde":
        if rng.random() < .4:
            extra["bw_adjust"] = float(rng.uniform(.5, 1.5))
        if rng.random() < .3:
            extra["gridsize"] = 50
    elif rng.random() < .4:
        extra["stat"] = "count"
    return extra


@case(quick=80, thorough=1600)
def one_d(t):
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    n = int(rng.integers(6, 60))
    x, wts = data(rng, n)
    kind = ["hist", "hist", "kde", "ecdf"][int(rng.integers(4))]
    log = bool(rng.random() < .4)
    if not log and rng.random() < .3:
        x = np.where(rng.random(n) < .2, 0, rng.normal(0, 2, n))        # zeros and negative values are drawn as well
        x[:2] = -1, 1.5
    extra = kwargs_1d(rng, kind, np.log10(x) if log else x)
    kw, mine = figure(t, rng)
    show = bool(rng.random() < .4)
    xlim = (.5, 20.0) if rng.random() < .3 else None
    ylim = (.01, 5.0) if rng.random() < .3 else None
    lab = [None, "my x"][int(rng.integers(2))], [None, "my y"][int(rng.integers(2))]
    unit = [None, u.Msun, u.kpc, u.mHz, u.dimensionless_unscaled][int(rng.integers(5))]
    q = x if unit is None else x * unit
    if log and kind != "hist" and unit is not None:
        q, unit = x, None               # a logarithmic axis of a density needs plain numbers
    if kind == "hist" and unit is not None and not log and "range" in extra:
        del extra["range"]
    if kind == "hist" or kind == "kde":
        if rng.random() < .3:
            kw["color"] = "#112233"
    t.note(kind=kind, log=log, extra=extra, args=sorted(kw), unit=unit, n=n, weights=wts is not None)
    t.seen(kind, log, str(extra), tuple(sorted(kw)), str(unit), wts is None)
    if kind != "hist" or rng.random() < .7:
        kw["disttype"] = kind
    d0 = digest([q, wts])
    with Watch(t, show) as w:
        res = L.visualisation.plot_1D_dist(q, weights=wts, log_scale=log, show=show, xlabel=lab[0], ylabel=lab[1], xlim=xlim, ylim=ylim,
                                           **kw, **extra)
    ax = where(t, w, mine, res, kw)
    t.true("data unchanged", digest([q, wts]) == d0)
    judge_1d(t, ax, x, wts, kind, log, extra)
    limits(t, rng, ax, xlim, ylim, log and kind == "hist")
    for l, get in zip(lab, (ax.get_xlabel, ax.get_ylabel)):
        if l is not None:
            t.true("label as given", get() == l, got=get(), want=l)
    if "color" in kw and kind == "hist" and ax.patches:
        import matplotlib.colors as mcol
        t.true("colour as given", mcol.to_hex(ax.patches[0].get_facecolor()) == kw["color"])
    plt.close("all")


@case(quick=60, thorough=1200)
def two_d(t):
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    n = int(rng.integers(6, 40))
    x, wts = data(rng, n)
    y, _ = data(rng, n)
    kind = ["scatter", "scatter", "scatter", "kde"][int(rng.integers(4))]
    log = [False, True, (True, False), (False, True)][int(rng.integers(4))]
    lx, ly = (log, log) if isinstance(log, bool) else log
    kw, mine = figure(t, rng)
    show = bool(rng.random() < .4)
    xlim = (.5, 20.0) if rng.random() < .3 else None
    ylim = (.01, 50.0) if rng.random() < .3 else None
    unit = u.Msun if kind == "scatter" and rng.random() < .6 else None
    size = 20
    if kind == "scatter" and rng.random() < .4:
        size = kw["scatter_s"] = 33
    if kind == "scatter" and rng.random() < .3:
        kw["color"] = "#445566"
    lab = [None, "my x"][int(rng.integers(2))], [None, "my y"][int(rng.integers(2))]
    t.note(kind=kind, log=log, args=sorted(kw), unit=unit, n=n, weights=wts is not None)
    t.seen(kind, log, tuple(sorted(kw)), str(unit), wts is None)
    if kind != "scatter" or rng.random() < .6:
        kw["disttype"] = kind
    a, b = (x, y) if unit is None else (x * unit, y * u.kpc)
    d0 = digest([a, b, wts])
    with Watch(t, show) as w:
        res = L.visualisation.plot_2D_dist(a, b, weights=wts, log_scale=log, show=show, xlabel=lab[0], ylabel=lab[1], xlim=xlim, ylim=ylim, **kw)
    ax = where(t, w, mine, res, kw)
    t.true("data unchanged", digest([a, b, wts]) == d0)
    judge_2d(t, ax, x, y, wts, kind, size)
    t.true("log-scaled as requested", (ax.get_xscale() == "log") == lx and (ax.get_yscale() == "log") == ly, got=(ax.get_xscale(), ax.get_yscale()))
    limits(t, rng, ax, xlim, ylim)
    for l, get in zip(lab, (ax.get_xlabel, ax.get_ylabel)):
        if l is not None:
            t.true("label as given", get() == l, got=get(), want=l)
    plt.close("all")


def judge_2d(t, ax, x, y, wts, kind, size=20):
    if kind == "scatter":
        t.true("one group of points", len(ax.collections) == 1, got=len(ax.collections))
        gx, gy = offsets(ax.collections[0])
        t.true("one point per value", len(gx) == len(x), got=len(gx), want=len(x))
        t.eq("x of the points", gx, x, 1e-9)
        t.eq("y of the points", gy, y, 1e-9)
        s = np.asarray(ax.collections[0].get_sizes(), float)
        if wts is None:
            t.true("size of the points", np.allclose(s, size), got=s)
        else:
            t.eq("sizes follow the weights", s, wts * size, 1e-9)
        t.count("points compared", len(x))
    else:
        t.true("contours drawn", len(ax.collections) >= 1)


@case(quick=80, thorough=1600)
def variables(t):
    """Source.plot_source_variables."""
    import matplotlib.pyplot as plt
    rng, L = t.rng, t.L
    n = int(rng.integers(12, 25))
    S = srcs.contents(rng, n, "ce", e_hi=.6, d=None)
    # a moderate spread, so that the automatic bins stay few
    mid = 2e-3 if rng.random() < .5 else 4e-4
    S["f"] = mid * np.exp(rng.normal(0, .3, n))
    S["d"] = srcs.KPC * np.exp(rng.normal(1, .4, n))
    S["m1"], S["m2"] = (np.exp(rng.normal(0, .3, n)) * u.Msun.to(u.kg) for _ in range(2))
    S["e"] = rng.uniform(.1, .6, n)
    if rng.random() < .4:
        S["e"][:int(rng.integers(1, n // 2))] = 0
    if rng.random() < .5:
        S["w"] = rng.uniform(.1, 3, n)
    s = srcs.make(t, S)
    gone = np.zeros(n, bool)
    if rng.random() < .5:
        gone[:int(rng.integers(1, n // 3))] = True
        gone = rng.permutation(gone)
        s.get_merger_time()
        s.evolve_sources(np.where(gone, 1.2 * s.t_merge.to_value(u.yr), 0) * u.yr)
    s.snr = np.exp(rng.normal(2, .5, n)) * ~gone            # what get_snr records, without waiting for it
    names = ["m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr"]
    words = {"m_1": ("Primary Mass", "m_1"), "m_2": ("Secondary Mass", "m_2"), "m_c": ("Chirp Mass", "M}_c"), "ecc": ("Eccentricity", "e"),
             "dist": ("Distance", "D"), "f_orb": ("Orbital Frequency", "f_{\\rm orb}"), "f_GW": ("Gravitational Wave Frequency", "f_{\\rm GW}"),
             "a": ("Semi-major", "a"), "snr": ("Signal-to-noise", "\\rho")}
    xs = str(rng.choice(names))
    ys = str(rng.choice(names)) if rng.random() < .45 else None
    excl = bool(rng.random() < .7)
    sel = None
    if rng.random() < .5:
        sel = rng.random(n) < .7
    shown = np.ones(n, bool) if sel is None else sel.copy()
    if excl:
        shown &= ~gone
    if shown.sum() < 5:
        sel, shown = None, ~gone if excl else np.ones(n, bool)
    vals = {"m_1": s.m_1, "m_2": s.m_2, "m_c": s.m_c, "ecc": s.ecc, "dist": s.dist, "f_orb": s.f_orb, "f_GW": 2 * s.f_orb, "a": s.a, "snr": s.snr}
    v = {k: np.asarray(getattr(x, "value", x))[shown] for k, x in vals.items()}
    wts = None if s.weights is None else np.asarray(s.weights)[shown]
    spread = gone[shown].any()          # merged sources are far away from the others
    if ys is None:
        kind = ["hist", "hist", "kde", "ecdf"][int(rng.integers(4))]
        log = bool(rng.random() < .4 and v[xs].min() > 0)
        extra = kwargs_1d(rng, kind, v[xs]) if not spread else ({"bins": 5} if kind == "hist" else {})
        extra.pop("range", None)
        if kind == "hist" and "bins" not in extra and rng.random() < .5:
            extra["bins"] = 6
        if kind == "kde" and len(np.unique(v[xs])) < 5:
            kind, extra = "ecdf", {}
    else:
        kind = "scatter" if rng.random() < .85 or spread or xs == ys or {xs, ys} == {"f_orb", "f_GW"} else "kde"
        log = [False, True, (True, False), (False, True)][int(rng.integers(4))]
        if v[xs].min() <= 0 or v[ys].min() <= 0:
            log = False
        extra = {}
    kw, mine = figure(t, rng)
    show = bool(rng.random() < .4)
    lab = {}
    if rng.random() < .3:
        lab["xlabel"] = "my x"
    if rng.random() < .3:
        lab["ylabel"] = "my y"
    if kind not in ("hist", "scatter"):
        kw["disttype"] = kind
    if sel is not None:
        kw["which_sources"] = sel
    if not excl or rng.random() < .3:
        kw["exclude_merged_sources"] = excl
    if log is not False or rng.random() < .3:
        kw["log_scale"] = log
    if ys is not None:
        kw["ystr"] = ys
    t.note(x=xs, y=ys, kind=kind, log=log, extra=extra, args=sorted(kw), gone=gone.sum(), n=n, weights=wts is not None)
    t.seen(xs, ys, kind, log, tuple(sorted(kw)), wts is None)
    before = coll.contents(s)
    d0 = digest(sel)
    with Watch(t, show) as w:
        res = s.plot_source_variables(xstr=xs, show=show, **lab, **kw, **extra)
    ax = where(t, w, mine, res, kw)
    t.true("the collection and the mask are unchanged", coll.contents(s) == before and digest(sel) == d0)
    if ys is None:
        judge_1d(t, ax, v[xs], wts, kind, bool(log), extra)
    else:
        judge_2d(t, ax, v[xs], v[ys], wts, kind)
    if ys is not None:
        lx, ly = (log, log) if isinstance(log, bool) else log
        t.true("log-scaled as requested", (ax.get_xscale() == "log") == lx and (ax.get_yscale() == "log") == ly)
    gx, gy = ax.get_xlabel(), ax.get_ylabel()
    if "xlabel" in lab:
        t.true("label as given", gx == "my x", got=gx)
    else:
        t.true("x label names the quantity", words[xs][0] in gx and words[xs][1] in gx, got=gx, want=words[xs])
        if xs not in ("ecc", "snr"):
            t.true("x label gives the unit", vals[xs].unit.to_string("latex").strip("$") in gx, got=gx, want=vals[xs].unit.to_string("latex"))
        if ys is None:
            t.true("x label says whether it is a logarithm", ("log" in gx) == (bool(log) and kind == "hist"), got=gx)
    if "ylabel" in lab:
        t.true("label as given", gy == "my y", got=gy)
    elif ys is not None:
        t.true("y label names the quantity", words[ys][0] in gy and words[ys][1] in gy, got=gy, want=words[ys])
        if ys not in ("ecc", "snr"):
            t.true("y label gives the unit", vals[ys].unit.to_string("latex").strip("$") in gy, got=gy, want=vals[ys].unit.to_string("latex"))
    elif kind == "hist":
        t.true("y label is a density of the quantity", words[xs][1] in gy, got=gy)
    plt.close("all")
