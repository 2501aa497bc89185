"""Scales given in, and reported in, pixels, angles, physical or velocity units all mean the same thing."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from ..catalog import ENTRIES, same_obs
from .. import fx

ASSUMPTIONS = ["scales are not placed exactly on a pixel or bin edge, where rounding of the conversion decides",
               "starting points of break fits are judged on data with a clear break"]

UNITS = ("deg", "arcmin", "arcsec", "rad", "pc", "kpc", "AU", "lyr")
DISTS = (("250", "pc"), ("1.3", "kpc"), ("7.7e4", "AU"))
PC_PER = {"pc": 1., "kpc": 1e3, "AU": (1 * u.AU).to(u.pc).value, "lyr": (1 * u.lyr).to(u.pc).value}
DEG_PER = {"deg": 1., "arcmin": 1. / 60, "arcsec": 1. / 3600, "rad": 180. / np.pi}


def headers(ndim, form, shape):
    """-> header, pixel size in degrees.  One entry per way a pixel scale can be written."""
    mk = fx.hdr2 if ndim == 2 else fx.hdr3
    cd = {"cdelt": 0.01, "small": 0.00037, "arcsec": 0.004, "rot": 0.02, "pos": 0.015, "cd": 0.007}[form]
    h = mk(shape, cdelt=cd, bmaj=3 * cd)
    if form == "arcsec":
        h["CUNIT1"] = h["CUNIT2"] = "arcsec"
        h["CDELT1"], h["CDELT2"] = -cd * 3600, cd * 3600
        h["CRVAL1"], h["CRVAL2"] = 30. * 3600, 0.
    elif form == "rot":
        c, s = np.cos(0.5), np.sin(0.5)
        h["PC1_1"], h["PC1_2"], h["PC2_1"], h["PC2_2"] = c, -s, s, c
    elif form == "pos":
        h["CDELT1"], h["CDELT2"] = cd, -cd
    elif form == "cd":
        for k in ("CDELT1", "CDELT2", "CDELT3"):
            h.pop(k, None)
        c, s = np.cos(1.1), np.sin(1.1)
        h["CD1_1"], h["CD1_2"], h["CD2_1"], h["CD2_2"] = -cd * c, cd * s, cd * s, cd * c
        if ndim == 3:
            h["CD3_3"] = 500.0
    return h, cd


FORMS = ("cdelt", "small", "arcsec", "rot", "pos", "cd")


class Conv(object):
    """pixel numbers -> the same scale in some unit, by explicit arithmetic."""

    def __init__(self, unit, cd, dist):
        self.unit = u.Unit(unit)
        if unit == "pix":
            self.f = 1.
        elif unit in DEG_PER:
            self.f = cd / DEG_PER[unit]
        else:
            pc = float(dist[0]) * PC_PER[dist[1]]
            self.f = cd * np.pi / 180. * pc / PC_PER[unit]

    def L(self, p):
        return np.asarray(p) * self.f * self.unit if np.ndim(p) else p * self.f * self.unit

    def F(self, p):
        return p / self.f / self.unit

    def A(self, p):
        return p * self.f ** 2 * self.unit ** 2


def brkimg(shape, k=0):
    """Image whose power-spectrum has a clear break at 0.2/pix."""
    r = np.random.RandomState(3 + k)
    fy = np.fft.fftfreq(shape[0])[:, None]
    fxx = np.fft.fftfreq(shape[1])[None, :]
    f = np.hypot(fy, fxx)
    f[0, 0] = 1.
    amp = np.where(f < 0.2, (f / 0.2) ** -0.5, (f / 0.2) ** -2.5)
    ph = np.fft.fft2(r.normal(size=shape))
    ph /= np.abs(ph)
    return 5 + np.fft.ifft2(amp * ph).real * 30


# name -> (entry, data kind, builder kwargs, action).  c is the converter.
def _run(**kw):
    return lambda o, c: o.run(**{k: (v(c) if callable(v) else v) for k, v in kw.items()})


def _delvar_set(o, c):
    o.lags = c.L([3.3, 4.1, 5.2, 6.3, 7.4])
    o.run(show_progress=False)


def _wave_set(o, c):
    o.scales = c.L([1.7, 2.3, 3.4, 5.1, 6.3])
    o.run(show_progress=False)


def _stat_set(o, c):
    o.radius = c.L(2.4)
    o.run(show_progress=False)


def _scf_set(o, c):
    o.roll_lags = c.L([-2., -1., 0., 1., 2.])
    o.run(show_progress=False, fit_2D=False)


def _scf_fit(o, c):
    o.run(show_progress=False, fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), xlow=c.L(0.7), xhigh=c.L(3.2))
    o._mc_fm = o.fitted_model(c.L(np.array([1.2, 2.7])))


def _tsallis_set(o, c):
    o.lags = c.L([1.5, 2.5, 4.5])
    o.run()


ACTIONS = {
    "pspec-cuts": ("PowerSpectrum", None, {}, _run(fit_2D=False, low_cut=lambda c: c.F(0.083), high_cut=lambda c: c.F(0.413))),
    "pspec-low": ("PowerSpectrum", None, {}, _run(fit_2D=False, low_cut=lambda c: c.F(0.143))),
    "pspec-high": ("PowerSpectrum", None, {}, _run(fit_2D=False, high_cut=lambda c: c.F(0.377))),
    "pspec-unbinned": ("PowerSpectrum", None, {}, _run(fit_2D=False, fit_unbinned=True, low_cut=lambda c: c.F(0.0831), high_cut=lambda c: c.F(0.4131))),
    "pspec-2d": ("PowerSpectrum", None, {}, _run(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), low_cut=lambda c: c.F(0.0831), high_cut=lambda c: c.F(0.4131))),
    "pspec-brk": ("PowerSpectrum", "brk", {}, _run(fit_2D=False, fit_kwargs=lambda c: dict(brk=c.F(0.2), min_fits_pts=2))),
    "mvc-cuts": ("MVC", None, {}, _run(fit_2D=False, low_cut=lambda c: c.F(0.083), high_cut=lambda c: c.F(0.413))),
    "vca-cuts": ("VCA", None, {}, _run(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), low_cut=lambda c: c.F(0.0831), high_cut=lambda c: c.F(0.4131))),
    "delvar-lags": ("DeltaVariance", None, {"lags": lambda c: c.L([3.3, 4.1, 5.2, 6.3, 7.4])}, _run(show_progress=False)),
    "delvar-setlags": ("DeltaVariance", None, {}, _delvar_set),
    "delvar-lims": ("DeltaVariance", None, {}, _run(show_progress=False, xlow=lambda c: c.L(3.31), xhigh=lambda c: c.L(7.01))),
    "delvar-brk": ("DeltaVariance", "brk", {"nlags": 15}, _run(show_progress=False, brk=lambda c: c.L(5.3))),
    "wave-scales": ("Wavelet", None, {"scales": lambda c: c.L([1.7, 2.3, 3.4, 5.1, 6.3])}, _run(show_progress=False)),
    "wave-setscales": ("Wavelet", None, {}, _wave_set),
    "wave-lims": ("Wavelet", None, {}, _run(show_progress=False, xlow=lambda c: c.L(2.01), xhigh=lambda c: c.L(6.01))),
    "wave-brk": ("Wavelet", "brk", {"num": 15}, _run(show_progress=False, brk=lambda c: c.L(3.4))),
    "scf-lags": ("SCF", None, {"roll_lags": lambda c: c.L([-3., -2., -1., 0., 1., 2., 3.])}, _run(show_progress=False, fit_2D=False)),
    "scf-setlags": ("SCF", None, {}, _scf_set),
    "scf-lims": ("SCF", None, {}, _scf_fit),
    "moments-radius": ("StatMoments", None, {"radius": lambda c: c.L(2.4)}, _run(show_progress=False)),
    "moments-setradius": ("StatMoments", None, {}, _stat_set),
    "moments-runradius": ("StatMoments", None, {}, _run(show_progress=False, radius=lambda c: c.L(2.4))),
    "genus-radii": ("Genus", None, {"smoothing_radii": lambda c: c.L([1.1, 2.3])}, _run()),
    "genus-area": ("Genus", None, {}, _run(min_size=lambda c: c.A(6.4))),
    "tsallis-lags": ("Tsallis", None, {"lags": lambda c: c.L([1.5, 2.5, 4.5])}, _run()),
    "tsallis-setlags": ("Tsallis", None, {}, _tsallis_set),
}


def do(action, form, unit, dist, attach):
    stat, kind, bkw, act = ACTIONS[action]
    e = ENTRIES[stat]
    raw = e.raw(2)
    shape = np.shape(raw["data"])
    if kind == "brk":
        shape = (48, 50)
        raw["data"] = brkimg(shape)
    h, cd = headers(len(shape), form, shape)
    c = Conv(unit, cd, dist)
    kw = {k: (v(c) if callable(v) else v) for k, v in bkw.items()}
    D = float(dist[0]) * u.Unit(dist[1])
    if attach == "init":
        kw["distance"] = D
    if stat == "Genus":
        from turbustat.statistics import Genus
        kw.setdefault("numpts", 12)
        kw.setdefault("smoothing_radii", np.array([1.0, 2.0]))
        o = Genus((raw["data"], h), **kw)
    else:
        o = e.build(raw, h, **kw)
    if attach == "set":
        o.distance = D
    act(o, c)
    ob = e.obs(o)
    if hasattr(o, "_mc_fm"):
        ob["fm"] = o._mc_fm
    # lags, radii and limits are reported in some unit: express them all in pixels
    back = {}
    for k, v in ob.items():
        if isinstance(v, u.Quantity):
            v = to_pix(v, cd, dist)
        elif isinstance(v, list) and v and isinstance(v[0], u.Quantity):
            v = [to_pix(x, cd, dist) for x in v]
        back[k] = v
    return back


def to_pix(q, cd, dist):
    for p in (1, -1):
        for unit in ("pix",) + UNITS:
            if q.unit == u.Unit(unit) ** p:
                return q.value / Conv(unit, cd, dist).f ** p
    return q


def gen_a(tier):
    for a in sorted(ACTIONS):
        for form in FORMS:
            yield {"action": a, "form": form, "ndist": 1 if tier == "quick" else 3}


def run_a(ctx, action, form, ndist):
    stat, kind, bkw, act = ACTIONS[action]
    want = do(action, form, "pix", DISTS[0], None)
    ctx.step()
    rtol = 1e-6 if kind is None else 1e-3
    for unit in UNITS:
        phys = unit in PC_PER
        for dist in DISTS[1:] + DISTS[:1] if phys and ndist == 3 else (DISTS[FORMS.index(form) % 3],) if phys else DISTS[:1]:
            # the constructor uses the distance when its own arguments are in physical units
            for attach in (("init",) if bkw and kind is None else ("init", "set")) if phys else (None, "init"):
                if stat == "Bispectrum":
                    continue
                got = do(action, form, unit, dist, attach)
                ctx.step()
                same_obs(ctx, got, want, "unit-" + unit, rtol=rtol, atol=1e-12)
                ctx.state(action, form, unit, dist, attach)


# --- refusals ----------------------------------------------------------------------------------------------
def gen_r(tier):
    for a in sorted(ACTIONS):
        for bad in ("nodist", "time", "velocity", "dimensionless", "anis"):
            yield {"action": a, "bad": bad}


def run_r(ctx, action, bad):
    stat, kind, bkw, act = ACTIONS[action]
    e = ENTRIES[stat]
    raw = e.raw(2)
    shape = np.shape(raw["data"])
    if kind == "brk":
        shape = (48, 50)
        raw["data"] = brkimg(shape)
    h, cd = headers(len(shape), "cdelt", shape)
    c = Conv("pix", cd, DISTS[0])
    if bad == "nodist":
        c = Conv("pc", cd, DISTS[0])
    elif bad == "time":
        c.unit = u.s
    elif bad == "velocity":
        c.unit = u.km / u.s
    elif bad == "dimensionless":
        c.unit = u.dimensionless_unscaled
    elif bad == "anis":
        # non-square pixels: converting an angle is refused
        h["CDELT1"] = -3 * cd
        c = Conv("deg", cd, DISTS[0])
    kw = {k: (v(c) if callable(v) else v) for k, v in bkw.items()}
    try:
        if stat == "Genus":
            from turbustat.statistics import Genus
            kw.setdefault("numpts", 12)
            kw.setdefault("smoothing_radii", np.array([1.0, 2.0]))
            o = Genus((raw["data"], h), **kw)
        else:
            o = e.build(raw, h, **kw)
        if bad != "nodist":
            o.distance = 250 * u.pc
        act(o, c)
        ctx.fail("accepted", "%s with %s gave a result" % (action, bad))
    except Exception as ex:
        ctx.check(isinstance(ex, (AttributeError, ValueError, TypeError, u.UnitsError)), "error-kind", repr(ex))
    ctx.step()
    ctx.state(action, bad)


def gen_d(tier):
    for n in ("PowerSpectrum", "MVC", "VCA", "DeltaVariance", "Wavelet", "SCF", "StatMoments", "Tsallis"):
        yield {"stat": n}


def run_d(ctx, stat):
    e = ENTRIES[stat]
    for bad in (250., np.array([1., 2.]) * u.pc, 3 * u.deg, 3 * u.s, "250 pc", [250] * u.pc):
        for attach in ("init", "set"):
            try:
                if attach == "init":
                    e.build(e.raw(1), e.hdr(), distance=bad)
                else:
                    e.build(e.raw(1), e.hdr()).distance = bad
                ctx.fail("bad-distance", "%r accepted" % (bad,))
            except (TypeError, u.UnitsError):
                ctx.step()
    o = e.build(e.raw(1), e.hdr(), distance=3 * u.kpc)
    ctx.check(o.distance == 3 * u.kpc, "distance")
    o.distance = 20 * u.pc
    ctx.check(o.distance == 20 * u.pc, "distance")
    ctx.state(stat)


# --- spectral units ----------------------------------------------------------------------------------------
def gen_s(tier):
    for dv in (500., -500., 37., -1234.5):
        for cunit in ("m/s", "km/s"):
            for lo, hi in ((None, 0.43), (0.061, None), (0.061, 0.43), (0.111, 0.37)):
                yield {"dv": dv, "cunit": cunit, "lo": lo, "hi": hi}


def run_s(ctx, dv, cunit, lo, hi):
    e = ENTRIES["VCS"]
    raw = e.raw(1)
    h = e.hdr()
    h["CUNIT3"] = cunit
    h["CDELT3"] = dv / (1e3 if cunit == "km/s" else 1.)
    out = []
    for f, un in ((1., "pix"), (abs(dv), "m/s"), (abs(dv) / 1e3, "km/s"), (abs(dv) * 1e2, "cm/s")):
        o = e.build(dict(raw), h.copy())
        o.run(breaks=-0.8, low_cut=None if lo is None else lo / f / u.Unit(un), high_cut=None if hi is None else hi / f / u.Unit(un))
        ctx.step()
        out.append(e.obs(o))
        ctx.check(o.low_cut.unit == 1 / u.pix and o.high_cut.unit == 1 / u.pix, "cut-unit")
        if lo is not None:
            ctx.close(o.low_cut.value, lo, "low-cut", rtol=1e-9)
        if hi is not None:
            ctx.close(o.high_cut.value, hi, "high-cut", rtol=1e-9)
    for o in out[1:]:
        same_obs(ctx, o, out[0], "spectral", rtol=1e-6, skip=("low_cut", "high_cut"))
    for bad in (u.pc, u.deg, u.s):
        try:
            e.build(dict(raw), h.copy()).run(breaks=-0.8, low_cut=0.1 / bad)
            ctx.fail("bad-unit", str(bad))
        except (TypeError, u.UnitsError):
            ctx.step()
    ctx.state(dv, cunit, lo, hi)


# --- PCA widths, intercept and sonic length in any unit ----------------------------------------------------------
def gen_p(tier):
    for form in FORMS:
        for dist in DISTS:
            for fm in ("odr",) if tier == "quick" else ("odr", "bayes"):
                yield {"form": form, "dist": list(dist), "fit": fm}


def pca_obj(form, dist, beam=None, **kw):
    from turbustat.statistics import PCA
    shape = (16, 24, 24)
    h, cd = headers(3, form, shape)
    d = fx.cube(shape, 3)
    o = PCA((d, h), distance=float(dist[0]) * u.Unit(dist[1]))
    args = dict(show_progress=False, n_eigs=6, brunt_beamcorrect=beam is not None, beam_fwhm=beam)
    args.update(kw)
    o.run(**args)
    return o, cd


def run_p(ctx, form, dist, fit):
    np.random.seed(3)
    o, cd = pca_obj(form, dist, fit_method=fit)
    ctx.step()
    w, we = o.spatial_width().value, o.spatial_width_error().value
    v, ve = o.spectral_width().value, o.spectral_width_error().value
    for unit in UNITS:
        f = Conv(unit, cd, dist).f
        for got, want, key in ((o.spatial_width(u.Unit(unit)), w * f, "width"), (o.spatial_width_error(u.Unit(unit)), we * f, "width-error")):
            ctx.check(got.unit == u.Unit(unit), key + "-unit", str(got.unit))
            ctx.close(got, want, key, rtol=1e-6)
        s0, r0 = o.sonic_length()
        s1, r1 = o.sonic_length(unit=u.Unit(unit))
        ctx.close(s1, s0.value * f, "sonic", rtol=1e-6)
        ctx.close(r1, r0.value * f, "sonic-range", rtol=1e-6)
        ctx.step(4)
    for un, f in (("m/s", 500.), ("km/s", 0.5), ("cm/s", 5e4)):
        ctx.close(o.spectral_width(u.Unit(un)), v * f, "spectral", rtol=1e-9)
        ctx.close(o.spectral_width_error(u.Unit(un)), ve * f, "spectral-error", rtol=1e-9)
        ctx.close(o.intercept(u.Unit(un)), o.intercept().value * f, "intercept", rtol=1e-9)
        ctx.close(o.intercept_error_range(u.Unit(un)), o.intercept_error_range().value * f, "intercept-error", rtol=1e-9)
        ctx.check(o.spectral_width(u.Unit(un)).unit == u.Unit(un), "spectral-unit")
        ctx.step(4)
    # sound speed of the gas and the definition of the sonic length
    for T in (10., 37.):
        for mu in (1.36, 2.8):
            for ug in (True, False):
                s, r = o.sonic_length(T_k=T * u.K, mu=mu, use_gamma=ug)
                cs = np.sqrt(1.380649e-23 * T / (mu * 1.67262192e-27)) / 500.
                ind = o.gamma if ug else o.index
                ctx.close(s, (cs / o.intercept().value) ** (1. / ind), "sonic-def", rtol=1e-4)
                ctx.step()
    # limits of the fit in any unit
    ok = np.sort(w[np.isfinite(w)])
    if ok.size >= 4 and fit == "odr":
        lo, hi = 0.5 * (ok[0] + ok[1]), ok[-1] * 1.1
        o.fit_plaw(xlow=lo * u.pix, xhigh=hi * u.pix)
        want = (o.index, o.intercept().value, o.gamma)
        for unit in UNITS:
            c = Conv(unit, cd, dist)
            o.fit_plaw(xlow=c.L(lo), xhigh=c.L(hi))
            ctx.step()
            ctx.close((o.index, o.intercept().value, o.gamma), want, "fit-limits", rtol=1e-6)
    # the beam in any unit
    if fit == "odr":
        b0 = None
        for unit in ("deg", "arcmin", "arcsec", "rad"):
            np.random.seed(3)
            ob, cd = pca_obj(form, dist, beam=Conv(unit, cd, dist).L(1.7), fit_method=fit)
            got = ob.spatial_width().value
            b0 = got if b0 is None else b0
            ctx.close(got, b0, "beam-unit", rtol=1e-9)
    ctx.state(form, dist, fit)


# --- plotted axes ------------------------------------------------------------------------------------------
def lines(fig):
    out = []
    for i, ax in enumerate(fig.axes):
        for j, l in enumerate(ax.get_lines()):
            if l.get_transform() is ax.transData:
                out.append(((i, j), np.asarray(getattr(l.get_xdata(), "value", l.get_xdata()), float), np.asarray(getattr(l.get_ydata(), "value", l.get_ydata()), float)))
            elif np.ptp(np.asarray(l.get_xdata(), float)) == 0 and len(l.get_xdata()) == 2:
                out.append(((i, j), np.asarray(l.get_xdata(), float), None))
    return out


PLOTS = {
    "PowerSpectrum": ("plot_fit", -1, ("plain", "cuts")), "MVC": ("plot_fit", -1, ("plain",)), "VCA": ("plot_fit", -1, ("plain", "cuts")),
    "DeltaVariance": ("plot_fit", 1, ("plain", "lims")), "Wavelet": ("plot_transform", 1, ("plain", "lims")), "SCF": ("plot_fit", 1, ("plain", "lims")),
}


SPECPLOTS = {"VCS": ("plot_fit", -1, ("plain", "brk", "cuts"))}


def gen_v(tier):
    for cfg in SPECPLOTS["VCS"][2]:
        for dv in (500., -37.):
            yield {"cfg": cfg, "dv": dv}


def run_v(ctx, cfg, dv):
    e = ENTRIES["VCS"]
    h = e.hdr()
    h["CDELT3"] = dv
    o = e.build(e.raw(1), h)
    e.run(o, cfg)
    units = {"pix": 1., "m/s": abs(dv), "km/s": abs(dv) / 1e3}
    compare_plots(ctx, lambda un: o.plot_fit(xunit=un), units, -1)
    ctx.state(cfg, dv)


def gen_l(tier):
    for n in sorted(PLOTS):
        for cfg in PLOTS[n][2]:
            for form in ("cdelt", "cd"):
                yield {"stat": n, "cfg": cfg, "form": form}


def run_l(ctx, stat, cfg, form):
    e = ENTRIES[stat]
    meth, power, _ = PLOTS[stat]
    h, cd = headers(e.ndim, form, e.shape)
    o = e.build(e.raw(1), h, distance=250 * u.pc)
    e.run(o, cfg)
    units = {un: Conv(un, cd, DISTS[0]).f for un in ("pix", "deg", "arcsec", "pc", "AU")}
    compare_plots(ctx, lambda un: getattr(o, meth)(xunit=un), units, power)
    ctx.state(stat, cfg, form)


def compare_plots(ctx, plot, units, power):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    show, plt.show = plt.show, lambda *a, **k: None
    try:
        plt.close("all")
        got = {}
        for unit in units:
            plt.figure()
            plot(u.Unit(unit) ** power)
            got[unit] = lines(plt.gcf())
            plt.close("all")
            ctx.step()
    finally:
        plt.show = show
    base = got["pix"]
    ctx.check(len(base) > 0, "no-lines")
    for unit in units:
        f = units[unit] ** power
        ctx.check(len(got[unit]) == len(base), "line-count", unit)
        for (k, x, y), (k2, x0, y0) in zip(got[unit], base):
            if x.shape != x0.shape or k != k2:
                ctx.fail("line-shape", "%s %s" % (unit, k))
                continue
            okl = np.allclose(x, x0 * f, rtol=1e-6, equal_nan=True)
            # axes drawn in log10 move by a constant instead
            okg = np.allclose(x, x0 + np.log10(f), rtol=1e-6, atol=1e-9, equal_nan=True)
            ctx.check(okl or okg, "plotted-scale", "%s line %s: %s, from pixels %s x %g" % (unit, k, x[:3], x0[:3], f))
            if y is not None and y0 is not None and y.shape == y0.shape:
                ctx.check(np.allclose(y, y0, rtol=1e-6, atol=1e-9, equal_nan=True), "plotted-values", "%s line %s: %s vs %s" % (unit, k, y[:3], y0[:3]))


# --- areas: every minimum size, whole or not, keeps exactly the objects with at least that many whole pixels -------------
def gen_area(tier):
    for form in FORMS:
        for unit in ("pix",) + UNITS:
            yield {"form": form, "unit": unit, "dist": list(DISTS[FORMS.index(form) % 3]), "step": 4 if tier == "quick" else 1}


def run_area(ctx, form, unit, dist, step):
    from turbustat.statistics import Genus
    from astropy.io import fits
    a = np.zeros((26, 29))
    n = 1
    for y in (1, 7, 13, 19):
        for x in (1, 6, 11, 16, 21):
            if n <= 16:
                blk = np.zeros(16)
                blk[:n] = 1
                a[y:y + 4, x:x + 4] = blk.reshape(4, 4)
                n += 1
    h, cd = headers(2, form, a.shape)
    c = Conv(unit, cd, dist)
    for k in range(1, 17):
        for frac in (0.07, 0.5, 0.93) if step == 1 or k % 4 == 1 else (0.45,):
            g = Genus(fits.PrimaryHDU(a, h), thresholds=np.array([.5]), enable_smoothing=False, distance=float(dist[0]) * u.Unit(dist[1]))
            g.make_genus_curve(min_size=c.A(k + frac))
            ctx.step()
            want = (17 - k) - 1
            ctx.check(g.genus_stats[0, 0] == want, "area", "min_size %.2f pix^2 in %s^2: %s, want %s" % (k + frac, unit, g.genus_stats[0, 0], want))
    ctx.state(form, unit)


FAMILIES = {
    "arguments": Family(gen_a, run_a, "26 scale arguments (constructor, setter, run, fit) of 10 statistics x 6 ways of writing the pixel scale x 8 units x 3 distances x 2 ways of giving the distance"),
    "areas": Family(gen_area, run_area, "16 object sizes x minimum areas between them x 6 pixel scale forms x 9 units"),
    "refusals": Family(gen_r, run_r, "26 scale arguments x 5 unusable units or headers"),
    "distance": Family(gen_d, run_d, "8 statistics x 6 unusable distances x 2 ways of giving it"),
    "spectral": Family(gen_s, run_s, "4 channel widths x 2 header units x 4 limit pairs x 4 units"),
    "pca": Family(gen_p, run_p, "6 pixel scale forms x 3 distances x 8 units of widths, errors, intercepts, sonic lengths, limits and beams"),
    "plots": Family(gen_l, run_l, "6 plots x configurations x 2 pixel scale forms x 5 units, all drawn lines"),
    "specplots": Family(gen_v, run_v, "VCS plot x 3 configurations x 2 channel widths x 3 units, all drawn lines"),
}
