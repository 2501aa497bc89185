"""Every figure shows the computed results: points, errors, fitted model, residuals, fit limits, maps."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx
from ..catalog import ENTRIES, same_obs
from ..dcatalog import DENTRIES

ASSUMPTIONS = ["figures are read back from matplotlib's artists with the non-interactive Agg canvas",
               "colours, line styles, label texts other than units and titles, and axis limits are presentation, not results"]


def pyplot():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


class Fig(object):
    """What a figure shows, per axes."""

    def __init__(self, fig):
        self.axes = fig.get_axes()
        self.lines, self.v, self.h = [], [], []
        self.segs, self.polys, self.images, self.bars = [], [], [], []
        self.text = [a.get_xlabel() for a in self.axes]
        for i, ax in enumerate(self.axes):
            for l in ax.get_lines():
                x = np.asarray(l.get_xdata(orig=False), float)
                y = np.asarray(l.get_ydata(orig=False), float)
                if len(x) == 2 and x[0] == x[1] and sorted(y) == [0., 1.]:
                    self.v.append((i, x[0]))
                elif len(y) == 2 and y[0] == y[1] and sorted(x) == [0., 1.]:
                    self.h.append((i, y[0]))
                else:
                    self.lines.append((i, x, y))
            for c in ax.collections:
                n = type(c).__name__
                if n == "LineCollection":
                    self.segs.append((i, [np.asarray(s, float) for s in c.get_segments()]))
                elif n in ("PolyCollection", "FillBetweenPolyCollection"):
                    v = [p.vertices for p in c.get_paths()]
                    self.polys.append((i, np.vstack(v) if v else np.zeros((0, 2))))
            for im in ax.get_images():
                self.images.append((i, np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)))
            for cont in ax.containers:
                if type(cont).__name__ == "BarContainer":
                    self.bars.append((i, np.array([[p.get_x() + p.get_width() / 2., p.get_height()] for p in cont.patches]).reshape(-1, 2)))


def eq(a, b, rtol=1e-7, atol=1e-10):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def both(x, y):
    x, y = np.asarray(getattr(x, "value", x), float).ravel(), np.asarray(getattr(y, "value", y), float).ravel()
    k = np.isfinite(x) & np.isfinite(y)
    return x[k], y[k]


def axes_of(F, x, y):
    """Axes holding a drawn series with exactly these finite points."""
    x, y = both(x, y)
    out = []
    for i, X, Y in F.lines:
        X, Y = both(X, Y)
        if eq(X, x) and eq(Y, y):
            out.append(i)
    return out


def has_err(F, axs, x, y, e, horizontal=False):
    x, y = np.asarray(getattr(x, "value", x), float).ravel(), np.asarray(getattr(y, "value", y), float).ravel()
    e = np.asarray(getattr(e, "value", e), float).ravel()
    k = np.isfinite(x) & np.isfinite(y) & np.isfinite(e)
    x, y, e = x[k], y[k], e[k]
    want = np.array([[[a - c, b], [a + c, b]] if horizontal else [[a, b - c], [a, b + c]] for a, b, c in zip(x, y, e)]).reshape(-1, 2, 2)
    for i, s in F.segs:
        if i not in axs:
            continue
        s = [q for q in s if q.shape == (2, 2) and np.isfinite(q).all()]
        if len(s) == len(want) and (not len(s) or eq(np.array(s), want)):
            return True
    return False


def has_fill(F, axs, x, y, e):
    x, y, e = np.asarray(x, float), np.asarray(y, float), np.asarray(e, float)
    k = np.isfinite(x) & np.isfinite(y) & np.isfinite(e)
    want = [(a, b + s * c) for a, b, c in zip(x[k], y[k], e[k]) for s in (-1, 1)]
    for i, v in F.polys:
        if i in axs and all((np.abs(v[:, 0] - a) + np.abs(v[:, 1] - b) < 1e-7 * (1 + abs(a) + abs(b))).any() for a, b in want):
            return True
    return False


def has_curve(F, axs, f, lo, hi, grow=0.):
    """A line on y = f(x) that spans lo..hi (may overshoot by the fraction grow)."""
    for i, X, Y in F.lines:
        if i not in axs:
            continue
        X, Y = both(X, Y)
        if len(X) < 2 or not eq(Y, f(X), rtol=1e-6, atol=1e-9):
            continue
        w = abs(hi - lo) * 1e-6 + 1e-9
        if lo - abs(lo) * grow - w <= X.min() <= lo + w and hi - w <= X.max() <= hi + abs(hi) * grow + w:
            return True
    return False


def has_v(F, axs, x):
    return any(i in axs and abs(v - x) <= 1e-7 * (1e-3 + abs(x)) for i, v in F.v)


def has_image(F, a):
    return any(im.shape == np.asarray(a).shape and eq(im, np.where(np.isfinite(a), a, np.nan) if not np.isinf(a).any() else a) for _, im in F.images)


def draw(fn, tmp):
    """Draw twice, once shown and once saved: (what is shown, picture differs, left open)."""
    plt = pyplot()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        fn(None)
        fig = plt.gcf()
        F = Fig(fig)
        plt.savefig(os.path.join(tmp, "a.png"))
        plt.close("all")
    return F


def saved(ctx, fn, tmp, key):
    plt = pyplot()
    p = os.path.join(tmp, "b.png")
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        fn(p)
    ctx.step()
    ctx.check(os.path.isfile(p) and os.path.getsize(p) > 100, key + "-file", "no image written")
    if os.path.isfile(p):
        a, b = plt.imread(os.path.join(tmp, "a.png")), plt.imread(p)
        ctx.check(a.shape == b.shape and np.allclose(a, b, atol=0.02), key + "-picture", "the saved picture is not the one shown")
    ctx.check(plt.get_fignums() == [], key + "-closed", "figure left open after saving")
    plt.close("all")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c27_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conv_freq(o, f, unit, dist=None, cd=0.01):
    """Pixel frequencies in another inverse unit."""
    f = np.asarray(f, float)
    if unit == u.pix ** -1:
        return f
    per = unit ** -1
    if u.Unit(per).is_equivalent(u.deg):
        return f / (cd * u.deg).to(per).value
    return f / ((cd * u.deg).to(u.rad).value * dist).to(per).value


def conv_len(f, unit, dist=None, cd=0.01):
    f = np.asarray(f, float)
    if unit == u.pix:
        return f
    if u.Unit(unit).is_equivalent(u.deg):
        return f * (cd * u.deg).to(unit).value
    return f * ((cd * u.deg).to(u.rad).value * dist).to(unit).value


D = 250 * u.pc
CACHE = {}


def fitted(name, cfg, **kw):
    """A statistic that has been run, built once per process."""
    k = (name, cfg, repr(sorted(kw.items())))
    if k not in CACHE:
        e = ENTRIES[name]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            o = e.build(e.raw(), e.hdr(), **kw)
            e.run(o, cfg)
        CACHE.clear()
        CACHE[k] = o
    return CACHE[k]


def line_model(slope, brk, xs, ys):
    """(Broken) straight line of these slopes through the centroid of the fitted points."""
    slope = np.atleast_1d(np.asarray(getattr(slope, "value", slope), float))
    if len(slope) == 1:
        g = lambda x: slope[0] * x
    else:
        g = lambda x: slope[0] * x + (slope[1] - slope[0]) * np.maximum(np.asarray(x) - brk, 0)
    c = np.mean(ys - g(xs))
    return lambda x: c + g(x)


# ---------------------------------------------------------------- power spectra

def gen_p(tier):
    for name in ("PowerSpectrum", "MVC", "VCA"):
        for cfg in ("plain", "cuts", "brk", "log", "fit2d", "azim"):
            for unit in ("1 / pix", "1 / arcmin", "1 / pc"):
                if tier == "quick" and name != "PowerSpectrum" and (cfg in ("log", "azim") or unit == "1 / arcmin"):
                    continue
                yield dict(name=name, cfg=cfg, unit=unit)


def run_p(ctx, name, cfg, unit):
    un = u.Unit(unit)
    o = fitted(name, cfg, distance=D)
    e = ENTRIES[name]
    before = e.obs(o)
    f, p, s = o.freqs.value, np.asarray(o.ps1D), np.asarray(o.ps1D_stddev)
    n = min(o.ps2D.shape)
    lo, hi = o.low_cut.to(1 / u.pix).value, o.high_cut.to(1 / u.pix).value
    inside = (f >= lo - 1e-12) & (f <= hi + 1e-12) & np.isfinite(p)
    edge = (np.abs(f - lo) < 1e-9) | (np.abs(f - hi) < 1e-9)
    lf = np.log10(f)
    brk = np.log10(o.brk.value) if np.size(o.slope) == 2 else None
    with np.errstate(all="ignore"):
        lp, le = np.log10(p), 0.434 * s / p
    # rounding of a bin centre on a cut may put it on either side
    models = [line_model(o.slope, brk, lf[k], lp[k]) for k in {tuple(inside & ~edge): inside & ~edge, tuple(inside | edge): inside | edge}.values()]
    if brk is not None:     # the broken fit keeps its constant in the regression result
        s1, s2 = np.asarray(o.slope, float)
        models = [lambda x: o.fit.params[0] + s1 * np.asarray(x) + (s2 - s1) * np.maximum(np.asarray(x) - brk, 0)]
    with scratch() as tmp:
        for two, res, fill, wn in itertools.product((False, True), repeat=4):
            opts = dict(show_2D=two, show_residual=res, fillin_errs=fill, use_wavenumber=wn, xunit=un)
            ctx.step()
            F = draw(lambda q: o.plot_fit(save_name=q, **opts), tmp)
            x = np.log10(conv_freq(o, f, un, D) * (n if wn else 1.))
            shift = x[0] - lf[0]
            axs = axes_of(F, x, lp)
            if not ctx.check(axs, "points", "%r: measured points not drawn" % (opts,)):
                continue
            ok = (has_fill if fill else has_err)(F, axs, x, lp, le)
            ctx.check(ok, "errors", "%r: scatter not drawn" % (opts,))
            got = False
            for m in models:
                for k in (inside & ~edge, inside | edge):
                    if k.sum() > 1:
                        got |= has_curve(F, axs, lambda X: m(X - shift), x[k].min(), x[k].max())
            ctx.check(got, "model", "%r: fitted line not drawn over the fitted range" % (opts,))
            for c in (lo, hi):
                ctx.check(has_v(F, axs, np.log10(c) + shift), "limits", "%r limit %r not marked" % (opts, c))
            if res:
                ctx.check(any(set(axes_of(F, x, lp - m(lf))) - set(axs) for m in models), "residuals", "%r: residuals not drawn" % (opts,))
            if two:
                with np.errstate(all="ignore"):
                    ctx.check(has_image(F, np.log10(o.ps2D)), "image", "%r" % (opts,))
            else:
                ctx.check(not F.images, "no-image", "%r" % (opts,))
            ctx.check(any((un).to_string() in t for t in F.text), "label", "%r axis does not name its unit: %r" % (opts, F.text))
            if fill == two and not wn:
                saved(ctx, lambda q: o.plot_fit(save_name=q, **opts), tmp, "save")
    same_obs(ctx, e.obs(o), before, "results-changed", rtol=0)
    ctx.state(name, cfg, unit)


# ---------------------------------------------------------------- curves against scale

def gen_c(tier):
    for name, cfgs in (("DeltaVariance", ("plain", "lims", "brk", "nan")), ("Wavelet", ("plain", "lims", "brk", "nonorm", "wfit")),
                       ("SCF", ("plain", "lims", "azim", "fit2d", "cut"))):
        for cfg in cfgs:
            for unit in ("pix", "arcmin", "pc"):
                yield dict(name=name, cfg=cfg, unit=unit)


def curve(o, name):
    if name == "DeltaVariance":
        return o.lags.to(u.pix).value, np.asarray(o.delta_var), np.asarray(o.delta_var_error), [q.to(u.pix).value for q in o.fit_range], lambda x: 10 ** np.asarray(o.fitted_model(np.log10(x)))
    if name == "Wavelet":
        return o.scales.to(u.pix).value, np.asarray(o.values), np.asarray(o.stddev), [q.to(u.pix).value for q in o.fit_range], lambda x: 10 ** np.asarray(o.fitted_model(np.log10(x)))
    return o.lags.to(u.pix).value, np.asarray(o.scf_spectrum), np.asarray(o.scf_spectrum_stddev), [o.xlow.to(u.pix).value, o.xhigh.to(u.pix).value], lambda x: np.asarray(o.fitted_model(x * u.pix))


def run_c(ctx, name, cfg, unit):
    un = u.Unit(unit)
    o = fitted(name, cfg, distance=D)
    e = ENTRIES[name]
    before = e.obs(o)
    f, y, s, lims, model = curve(o, name)
    scale = conv_len(1., un, D)
    x = f * scale
    keep = np.isfinite(y) | np.isfinite(s)
    plot = o.plot_transform if name == "Wavelet" else o.plot_fit
    sets = [dict(show_residual=r) for r in (True, False)]
    if name == "SCF":
        sets = [dict(show_residual=r, show_surface=a, show_radial=b) for r in (True, False) for a, b in ((True, True), (True, False), (False, True))]
    with scratch() as tmp:
        for opts in sets:
            ctx.step()
            F = draw(lambda q: plot(save_name=q, xunit=un, **opts), tmp)
            surf, radial = opts.get("show_surface", False), opts.get("show_radial", True)
            if surf:
                ctx.check(has_image(F, o.scf_surface), "image", "%r" % (opts,))
            else:
                ctx.check(not F.images, "no-image", "%r" % (opts,))
            axs = axes_of(F, x[keep], y[keep])
            if not radial:
                ctx.check(not axs, "no-points", "%r" % (opts,))
                saved(ctx, lambda q: plot(save_name=q, xunit=un, **opts), tmp, "save")
                continue
            if not ctx.check(axs, "points", "%r: measured points not drawn" % (opts,)):
                continue
            ctx.check(has_err(F, axs, x[keep], y[keep], s[keep]), "errors", "%r" % (opts,))
            if name == "DeltaVariance":
                lo, hi = lims[0] * scale, lims[1] * scale
            else:
                lo, hi = x[np.isfinite(x)].min(), x.max()
            g = lambda X: model(np.asarray(X) / scale)
            if name == "SCF":
                pos = x[x > 0]
                got = has_curve(F, axs, g, x.min() * 0.95, x.max() * 1.05) or has_curve(F, axs, g, pos.min(), x.max(), grow=0.06)
            else:
                got = has_curve(F, axs, g, lo, hi)
            ctx.check(got, "model", "%r: fitted model not drawn" % (opts,))
            for c in lims:
                ctx.check(has_v(F, axs, c * scale), "limits", "%r limit %r" % (opts, c))
            if opts["show_residual"]:
                with np.errstate(all="ignore"):
                    r = y - model(f)
                ra = set(axes_of(F, x[keep], r[keep])) - set(axs)
                ctx.check(ra, "residuals", "%r" % (opts,))
                ctx.check(has_err(F, ra, x[keep], r[keep], s[keep]), "residual-errors", "%r" % (opts,))
                for c in lims:
                    ctx.check(has_v(F, ra, c * scale), "residual-limits", "%r limit %r" % (opts, c))
            ctx.check(any(un.to_string() in t for t in F.text), "label", "%r axis does not name its unit: %r" % (opts, F.text))
            saved(ctx, lambda q: plot(save_name=q, xunit=un, **opts), tmp, "save")
    same_obs(ctx, e.obs(o), before, "results-changed", rtol=0)
    ctx.state(name, cfg, unit)


# ---------------------------------------------------------------- velocity coordinate spectrum

def gen_v(tier):
    for cfg in ("plain", "cuts", "brk"):
        for unit in ("1 / pix", "s / km", "s / m"):
            yield dict(cfg=cfg, unit=unit)


def run_v(ctx, cfg, unit):
    un = u.Unit(unit)
    o = fitted("VCS", cfg)
    e = ENTRIES["VCS"]
    before = e.obs(o)
    n = o.freqs.size
    f, p = o.freqs.to(1 / u.pix).value[1:(n + 1) // 2], np.asarray(o.ps1D)[1:(n + 1) // 2]
    scale = 1. if un == 1 / u.pix else 1. / (500 * u.m / u.s).to(un ** -1).value
    x = f * scale
    lo, hi = o.low_cut.to(1 / u.pix).value, o.high_cut.to(1 / u.pix).value
    inside = (f >= lo) & (f <= hi)
    edge = (np.abs(f - lo) < 1e-9) | (np.abs(f - hi) < 1e-9)
    ks = [inside & ~edge, inside | edge]
    models = [lambda x: np.asarray(o.fit.model(np.asarray(x)))]
    with scratch() as tmp:
        for res in (True, False):
            ctx.step()
            F = draw(lambda q: o.plot_fit(save_name=q, xunit=un, show_residual=res), tmp)
            axs = axes_of(F, x, p)
            if not ctx.check(axs, "points", unit):
                continue
            got = any(has_curve(F, axs, lambda X: 10 ** m(np.log10(np.asarray(X) / scale)), x[k].min(), x[k].max()) for m in models for k in ks)
            ctx.check(got, "model", unit)
            for c in (lo, hi):
                ctx.check(has_v(F, axs, c * scale), "limits", "%r limit %r" % (unit, c))
            if res:
                ctx.check(any(set(axes_of(F, x, p - 10 ** m(np.log10(f)))) - set(axs) for m in models), "residuals", unit)
            saved(ctx, lambda q: o.plot_fit(save_name=q, xunit=un, show_residual=res), tmp, "save")
    same_obs(ctx, e.obs(o), before, "results-changed", rtol=0)
    ctx.state(cfg, unit)


# ---------------------------------------------------------------- distributions and maps

def gen_m(tier):
    for name, cfgs in (("StatMoments", ("plain", "nonper", "bins")), ("Genus", ("plain", "wrap", "one", "three", "none")), ("Bispectrum", ("plain", "msub")),
                       ("Dendrogram_Stats", ("plain", "per", "bins")), ("Tsallis", ("plain", "noclip", "one", "two")),
                       ("PDF", ("plain", "bins", "fit", "standardize", "center", "fixloc", "fixscale", "free", "fixboth"))):
        for cfg in cfgs:
            yield dict(name=name, cfg=cfg)


def build_m(name, cfg):
    e = ENTRIES[name]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        kw = {}
        if name == "Genus" and cfg in ("one", "three", "none"):
            kw["smoothing_radii"] = {"one": np.array([1.5]), "three": np.array([1., 1.5, 2.]), "none": None}[cfg]
            cfg = "plain"
        if name == "Tsallis" and cfg in ("one", "two"):
            kw["lags"] = {"one": [2], "two": [1, 3]}[cfg] * u.pix
            cfg = "plain"
        if name == "PDF":
            r = {"plain": {}, "bins": dict(bins=7), "fit": {}, "standardize": {}, "center": {}, "fixloc": dict(floc=True, fscale=False, loc=0.5),
                 "fixscale": dict(floc=False, fscale=True, scale=2.), "free": dict(floc=False, fscale=False), "fixboth": dict(floc=True, fscale=True, loc=0.2, scale=9.)}[cfg]
            fit = cfg in ("fit", "fixloc", "fixscale", "free", "fixboth")
            o = e.build(e.raw(), None, **({"normalization_type": cfg} if cfg in ("standardize", "center") else {}))
            o.run(do_fit=fit, **({k: v for k, v in r.items() if k == "bins"}))
            if fit and r:
                o.fit_pdf(verbose=False, **r)
            return e, o, dict(r, fit=fit)
        o = e.build(e.raw(), e.hdr() if e.header else None, **kw)
        e.run(o, cfg)
    return e, o, {}


def run_m(ctx, name, cfg):
    e, o, info = build_m(name, cfg)
    before = e.obs(o)
    with scratch() as tmp:
        if name == "StatMoments":
            F = draw(lambda q: o.plot_histograms(save_name=q), tmp)
            ctx.step()
            used = []
            for h in (o.mean_hist, o.variance_hist, o.skewness_hist, o.kurtosis_hist):
                a = [i for i in axes_of(F, h[0], h[1]) if i not in used]
                ctx.check(a, "histogram")
                used += a[:1]
            for k, lab in enumerate(("mean", "variance", "skewness", "kurtosis")):
                h = getattr(o, lab + "_hist")
                ctx.check(any(F.text[i].lower() == lab for i in axes_of(F, h[0], h[1])), "histogram-label", lab)
            saved(ctx, lambda q: o.plot_histograms(save_name=q), tmp, "save")
            F = draw(lambda q: o.plot_maps(save_name=q), tmp)
            for lab in ("mean", "variance", "skewness", "kurtosis"):
                a = getattr(o, lab + "_array")
                at = [i for i, im in F.images if im.shape == a.shape and eq(im, a)]
                ctx.check(at and any(F.axes[i].get_title().lower() == lab for i in at), "map", lab)
            saved(ctx, lambda q: o.plot_maps(save_name=q), tmp, "save-maps")
        elif name == "Genus":
            for std in (False, True):
                F = draw(lambda q: o.plot_fit(save_name=q, standardize=std), tmp)
                ctx.step()
                used = []
                for i in range(len(o.genus_stats)):
                    t = np.asarray(getattr(o.thresholds, "value", o.thresholds), float)
                    if std:
                        m, s = o.smoothed_means[i], o.smoothed_stds[i]
                        t = (t - float(getattr(m, "value", m))) / float(getattr(s, "value", s))
                    a = [j for j in axes_of(F, t, o.genus_stats[i]) if j not in used]
                    ctx.check(a, "curve", "radius %d standardize %r" % (i, std))
                    used += a[:1]
                saved(ctx, lambda q: o.plot_fit(save_name=q, standardize=std), tmp, "save")
        elif name == "Bispectrum":
            for bico in (True, False):
                F = draw(lambda q: o.plot_surface(save_name=q, show_bicoh=bico), tmp)
                ctx.step()
                ctx.check(has_image(F, o.bispectrum_logamp), "amplitude")
                ctx.check(has_image(F, o.bicoherence) == bico, "bicoherence")
                saved(ctx, lambda q: o.plot_surface(save_name=q, show_bicoh=bico), tmp, "save")
        elif name == "Dendrogram_Stats":
            for hists in (True, False):
                F = draw(lambda q: o.plot_fit(save_name=q, show_hists=hists), tmp)
                ctx.step()
                axs = axes_of(F, o.fitvals[0], o.fitvals[1])
                ctx.check(axs, "points")
                r = np.asarray(o.model.fittedvalues)
                ctx.check(set(axes_of(F, o.fitvals[0], r)) & set(axs), "model")
                want = [h for h in o.hists if h[0].size >= 1]
                got = [b for _, b in F.bars]
                if hists:
                    ctx.check(len(got) == len(want) and all(eq(g[:, 0], h[0]) and eq(g[:, 1], h[1]) for g, h in zip(got, want)), "histograms")
                else:
                    ctx.check(not got, "no-histograms")
                saved(ctx, lambda q: o.plot_fit(save_name=q, show_hists=hists), tmp, "save")
        elif name == "Tsallis":
            from turbustat.statistics.tsallis.tsallis import tsallis_function
            F = draw(lambda q: o.plot_fit(save_name=q), tmp)
            ctx.step()
            used = []
            for i, d in enumerate(o.lag_distribs):
                a = [j for j in axes_of(F, d[0], d[1]) if j not in used]
                if not ctx.check(a, "distribution", "lag %d" % i):
                    continue
                used += a[:1]
                A, w2, q = np.asarray(o.tsallis_params)[i]
                m = tsallis_function(d[0], A, w2, q)
                ctx.check(set(axes_of(F, d[0], m)) & set(a[:1]), "model", "lag %d" % i)
                if cfg == "noclip":
                    ctx.check(not F.v, "no-clip")
                else:
                    ctx.check(has_v(F, a[:1], 5.) and has_v(F, a[:1], -5.), "clip", "lag %d" % i)
            saved(ctx, lambda q: o.plot_fit(save_name=q), tmp, "save")
            F = draw(lambda q: o.plot_parameters(save_name=q), tmp)
            for c in ("logA", "w2", "q"):
                a = axes_of(F, o.lags.value, o.tsallis_table[c])
                ctx.check(a, "parameter", c)
                ctx.check(has_err(F, a, o.lags.value, o.tsallis_table[c], o.tsallis_table[c + "_stderr"]), "parameter-error", c)
            saved(ctx, lambda q: o.plot_parameters(save_name=q), tmp, "save-parameters")
        else:
            from scipy.stats import lognorm
            for ec in (True, False):
                F = draw(lambda q: o.plot_distrib(save_name=q, show_ecdf=ec), tmp)
                ctx.step()
                axs = axes_of(F, o.bins, o.pdf)
                eax = axes_of(F, o.bins, o.ecdf)
                ctx.check(axs, "pdf")
                ctx.check(bool(eax) == ec, "ecdf", "%r" % ec)
                if info["fit"]:
                    p = list(np.asarray(o.model_params))
                    scale = info["scale"] if info.get("fscale") else p.pop()
                    loc = info.get("loc", 0.) if info.get("floc", True) else p.pop()
                    ctx.check(has_curve(F, axs, lambda X: lognorm.pdf(X, *p, loc=loc, scale=scale), o.bins[0], o.bins[-1]), "pdf-model", "%r" % ec)
                    if ec:
                        ctx.check(has_curve(F, eax, lambda X: lognorm.cdf(X, *p, loc=loc, scale=scale), o.bins[0], o.bins[-1]), "ecdf-model")
                else:
                    ctx.check(len(F.lines) == (2 if ec else 1), "no-model", "a model is drawn though none was fitted")
                saved(ctx, lambda q: o.plot_distrib(save_name=q, show_ecdf=ec), tmp, "save")
    same_obs(ctx, e.obs(o), before, "results-changed", rtol=0)
    ctx.state(name, cfg)


# ---------------------------------------------------------------- PCA

def gen_pca(tier):
    for n in (4, 6):
        for su, vu in (("pix", "pix"), ("arcmin", "km/s"), ("pc", "m/s")):
            for fit in (True, False):
                yield dict(n=n, su=su, vu=vu, fit=fit)


def run_pca(ctx, n, su, vu, fit):
    from turbustat.statistics import PCA
    su, vu = u.Unit(su), u.Unit(vu)
    shape = (24, 20, 22)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        o = PCA((fx.cube(shape, 3), fx.hdr3(shape)), distance=D)
        o.run(show_progress=False, n_eigs=n, decomp_only=not fit)
    with scratch() as tmp:
        for cov, sl, res, ne in itertools.product((True, False), (True, False), (True, False), (None, 2, n, n + 3)):
            if not (cov or sl) or (not cov and ne is not None) or (not fit and not cov):
                continue
            opts = dict(show_cov_bar=cov, show_sl_fit=sl, show_residual=res, n_eigs=ne, spatial_unit=su, spectral_unit=vu)
            ctx.step()
            F = draw(lambda q: o.plot_fit(save_name=q, **opts), tmp)
            ctx.check(has_image(F, o.cov_matrix) == cov, "covariance", "%r" % (opts,))
            k = n if ne is None else ne
            if cov:
                ctx.check(any(eq(b[:, 0], np.arange(1, k + 1)) and eq(b[:, 1], np.asarray(o.eigvals)[:k], atol=0) for _, b in F.bars), "eigenvalues", "%r" % (opts,))
            if sl and fit:
                w, we = o.spatial_width(su).value, o.spatial_width_error(su).value
                v, ve = o.spectral_width(vu).value, o.spectral_width_error(vu).value
                lw, lv = np.log10(w), np.log10(v)
                axs = axes_of(F, lw, lv)
                if ctx.check(axs, "points", "%r" % (opts,)):
                    ctx.check(has_err(F, axs, lw, lv, 0.434 * ve / v), "errors", "%r" % (opts,))
                    ctx.check(has_err(F, axs, lw, lv, 0.434 * we / w, horizontal=True), "errors-x", "%r" % (opts,))
                    # width / sv = A * (size / sp) ** index in pixels
                    sp, sv = conv_len(1., su, D), 1. if vu == u.pix else (500 * u.m / u.s).to(vu).value
                    A = o.intercept(unit=u.pix).value
                    m = lambda X: np.log10(sv) + np.log10(A) + o.index * (np.asarray(X) - np.log10(sp))
                    ctx.check(has_curve(F, axs, m, np.nanmin(lw), np.nanmax(lw)), "model", "%r" % (opts,))
                    ra = set(axes_of(F, lw, lv - m(lw))) - set(axs)
                    ctx.check(bool(ra) == res, "residuals", "%r" % (opts,))
            else:
                ctx.check(not F.lines, "no-fit", "%r" % (opts,))
            if ne is None:
                saved(ctx, lambda q: o.plot_fit(save_name=q, **opts), tmp, "save")
    ctx.state(n, str(su), str(vu), fit)


# ---------------------------------------------------------------- run(verbose=True) and several curves in one figure

def gen_r(tier):
    for name in sorted(ENTRIES):
        yield dict(name=name)


def run_r(ctx, name):
    """run(verbose=True) shows what the plot methods show and gives the same results."""
    e = ENTRIES[name]
    cfg = "decomp" if name == "PCA" else "plain"
    plain = fitted(name, cfg)
    want = e.obs(plain)
    kw = e.RUNS[cfg]
    kw = kw() if callable(kw) else dict(kw)
    plot = getattr(plain, {"Wavelet": "plot_transform", "StatMoments": "plot_maps", "PDF": "plot_distrib", "Bispectrum": "plot_surface"}.get(name, "plot_fit"))
    with scratch() as tmp:
        A = draw(lambda q: plot(save_name=q), tmp)
        objs = []

        def go(q):
            o = e.build(e.raw(), e.hdr() if e.header else None)
            o.run(verbose=True, save_name=q, **kw)
            objs.append(o)
        plt = pyplot()
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            go(None)
            figs = [Fig(plt.figure(i)) for i in plt.get_fignums()]
            plt.close("all")
        ctx.step()
        # every series, map and bar of the plain plot is in the figures run() drew
        for x in A.lines:
            ctx.check(any(axes_of(F, x[1], x[2]) for F in figs), "series", name)
        for _, im in A.images:
            ctx.check(any(has_image(F, im) for F in figs), "maps", name)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            go(os.path.join(tmp, "run.png"))
            ctx.check(plt.get_fignums() == [], "left-open", name)
            plt.close("all")
        ctx.check(os.path.isfile(os.path.join(tmp, "run.png")), "run-file", name)
        for o in objs:
            same_obs(ctx, e.obs(o), want, "results", rtol=1e-9)
    ctx.state(name)


def gen_o(tier):
    for name in ("PowerSpectrum", "MVC", "VCA", "DeltaVariance", "Wavelet", "SCF", "VCS"):
        for res in (True, False):
            yield dict(name=name, res=res)


def run_o(ctx, name, res):
    """Plotting a second data set into the same figure shows both."""
    e = ENTRIES[name]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        os_ = []
        for k in (0, 1):
            o = e.build(e.raw(k), e.hdr())
            e.run(o, "plain")
            os_.append(o)
    opts = dict(show_residual=res)
    if name == "SCF":
        opts["show_surface"] = False
    meth = "plot_transform" if name == "Wavelet" else "plot_fit"
    with scratch() as tmp:
        single = [draw(lambda q: getattr(o, meth)(save_name=q, **opts), tmp) for o in os_]

        def two(q):
            for o in os_:
                getattr(o, meth)(**opts)
        F = draw(two, tmp)
        ctx.step()
        ctx.check(len(F.axes) == len(single[0].axes), "axes", "%d axes for %d" % (len(F.axes), len(single[0].axes)))
        for S in single:
            for i, x, y in S.lines:
                ctx.check(i in axes_of(F, x, y), "series", "axes %d" % i)
    ctx.state(name, res)


# ---------------------------------------------------------------- distances

def gen_d(tier):
    for name in sorted(DENTRIES):
        if name != "Cramer_Distance":
            yield dict(name=name)


PAIRS = {"PSpec_Distance": ("pspec1", "pspec2"), "MVC_Distance": ("mvc1", "mvc2"), "VCA_Distance": ("vca1", "vca2"), "VCS_Distance": ("vcs1", "vcs2"),
         "DeltaVariance_Distance": ("delvar1", "delvar2"), "Wavelet_Distance": ("wt1", "wt2")}


def run_d(ctx, name):
    e = DENTRIES[name]
    calls = []
    import turbustat.statistics as T
    from unittest import mock
    cls = getattr(T, name)
    orig = cls.distance_metric
    objs = []

    def verbose(self, *a, **k):
        k["verbose"] = True
        k["save_name"] = calls[-1]
        objs.append(self)
        return orig(self, *a, **k)
    a, b = e.data(0), e.data(1)
    want = e.vals(e.dist(a, b))

    def go(q):
        calls.append(q)
        with mock.patch.object(cls, "distance_metric", verbose):
            d = e.dist(a, b)
        same_obs(ctx, e.vals(d), want, "distance", rtol=1e-9)
    with scratch() as tmp:
        F = draw(go, tmp)
        d = objs[-1]
        ctx.step()
        if name in PAIRS:
            for n in PAIRS[name]:
                o = getattr(d, n)
                S = draw(lambda q: (o.plot_transform if name == "Wavelet_Distance" else o.plot_fit)(save_name=q), tmp)
                for i, x, y in S.lines:
                    ctx.check(axes_of(F, x, y), "series", n)
        elif name == "SCF_Distance":
            for o in (d.scf1, d.scf2):
                ctx.check(has_image(F, o.scf_surface), "surface")
                axs = axes_of(F, o.lags.value, o.scf_spectrum)
                ctx.check(axs and has_err(F, axs, o.lags.value, o.scf_spectrum, o.scf_spectrum_stddev), "spectrum")
            df = (d.scf1.scf_surface - d.scf2.scf_surface) ** 2
            n = df.shape[0]
            yy, xx = np.mgrid[:n, :n] - n // 2
            r = np.hypot(yy, xx)
            w = np.where(r > 0, 1 / np.where(r > 0, r, 1), 1)
            ctx.check(has_image(F, df * w) or has_image(F, df), "difference")
        elif name == "StatMoments_Distance":
            for o in (d.moments1, d.moments2):
                for h in (o.kurtosis_hist, o.skewness_hist):
                    ctx.check(axes_of(F, h[0], h[1]), "histogram")
        elif name == "PCA_Distance":
            for o in (d.pca1, d.pca2):
                ctx.check(has_image(F, o.cov_matrix), "covariance")
                ev = np.asarray(o.eigvals)
                ctx.check(any(eq(q[:, 0], np.arange(1, len(q) + 1)) and eq(q[:, 1], ev[:len(q)] / ev[:len(q)].sum()) for _, q in F.bars), "eigenvalues")
        elif name == "Genus_Distance":
            for o in (d.genus1, d.genus2):
                y = np.asarray(o.genus_stats[0], float)
                t = np.asarray(o.thresholds, float)
                ctx.check(any(eq(X, t) and (eq(Y, y) or np.corrcoef(Y, y)[0, 1] > 1 - 1e-9) for _, X, Y in F.lines), "curve")
        elif name == "PDF_Distance":
            for o in (d.PDF1, d.PDF2):
                ctx.check(axes_of(F, d.bin_centers, o.pdf), "pdf")
                ctx.check(axes_of(F, d.bin_centers, o.ecdf), "ecdf")
        elif name == "Bispectrum_Distance":
            for o in (d.bispec1, d.bispec2):
                ctx.check(has_image(F, o.bicoherence), "bicoherence")
        elif name.startswith("Dendro"):
            for o in (d.dendro1, d.dendro2):
                axs = axes_of(F, o.fitvals[0], o.fitvals[1])
                ctx.check(axs and set(axs) & set(axes_of(F, o.fitvals[0], o.model.fittedvalues)), "feature counts")
            F = draw(lambda q: d.histogram_stat(verbose=True, save_name=q), tmp)
            for hs in (d.histograms1, d.histograms2):
                for n, h in enumerate(hs):
                    h = h[np.isfinite(h)]
                    c = (d.bins[n][:-1] + d.bins[n][1:]) / 2
                    ctx.check(any(eq(q[:, 0], c) and eq(q[:, 1], h) for _, q in F.bars), "structure histogram", str(n))
                    ctx.check(axes_of(F, c, np.cumsum(h)), "structure ecdf", str(n))
            saved(ctx, lambda q: d.histogram_stat(verbose=True, save_name=q), tmp, "save-hist")
            draw(lambda q: d.numfeature_stat(verbose=True, save_name=q), tmp)
            saved(ctx, lambda q: d.numfeature_stat(verbose=True, save_name=q), tmp, "save-num")
            go(os.path.join(tmp, "both.x.png"))
            for kind in ("hist", "num"):
                ctx.check(os.path.isfile(os.path.join(tmp, "both.x.%s_distance.png" % kind)), "both-files", kind)
            pyplot()
        else:
            ctx.fail("unknown-class", name)
        # (the first picture of the distance is overwritten above; draw it again)
        draw(go, tmp)
        if not name.startswith("Dendro"):
            saved(ctx, go, tmp, "save")
    ctx.state(name)


# ---------------------------------------------------------------- sampled fits

def gen_t(tier):
    for model, floc, fscale in (("norm", True, False), ("norm", False, True), ("lognorm", True, True), ("lognorm", True, False), ("norm", False, False)):
        yield dict(model=model, floc=floc, fscale=fscale)


def run_t(ctx, model, floc, fscale):
    import scipy.stats as st
    from turbustat.statistics import PDF
    plt = pyplot()
    x = np.exp(0.5 * np.random.RandomState(3).normal(size=60) + 0.8).reshape(6, 10)
    o = PDF(x)
    try:
        o.trace_plot()
        ctx.fail("no-samples", "a trace plot without samples is accepted")
    except Exception:
        pass
    np.random.seed(5)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        o.run(model=getattr(st, model), floc=floc, fscale=fscale, scale=2., fit_type="mcmc", burnin=30, steps=60, thin=2)
        plt.close("all")
        o.trace_plot()
        F = Fig(plt.gcf())
        plt.close("all")
    ctx.step()
    n = np.size(o.model_params)
    ctx.check(len(F.axes) == n and len(F.lines) == n, "one-trace-per-parameter", "%d axes %d traces for %d parameters" % (len(F.axes), len(F.lines), n))
    for i, X, Y in F.lines:
        ctx.close(np.mean(Y), np.atleast_1d(o.model_params)[i], "trace-mean", rtol=1e-9)
    ctx.state(model, floc, fscale)


FAMILIES = {
    "traces": Family(gen_t, run_t, "trace plots of sampled fits with one and more free parameters"),
    "power-spectra": Family(gen_p, run_p, "3 statistics x 6 fits x 3 axis units x 16 option combinations, shown and saved"),
    "curves": Family(gen_c, run_c, "delta-variance, wavelet, SCF x fits x 3 axis units x every option combination, shown and saved"),
    "vcs": Family(gen_v, run_v, "3 fits x 3 axis units x residuals"),
    "distributions": Family(gen_m, run_m, "moments, genus, bispectrum, dendrograms, Tsallis, PDF x settings x every option combination"),
    "pca": Family(gen_pca, run_pca, "2 decompositions x 3 unit pairs x fitted or not x every option combination x 4 eigenvalue counts"),
    "verbose-run": Family(gen_r, run_r, "run(verbose=True) of all 14 statistics, shown and saved"),
    "overplot": Family(gen_o, run_o, "two data sets in one figure x 7 statistics x residuals"),
    "distances": Family(gen_d, run_d, "verbose distances of all classes that plot, shown and saved"),
}
