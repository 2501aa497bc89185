"""Fitted slopes, breaks and uncertainties are the stated least-squares results on exactly the points inside the limits."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs
from ..catalog import ENTRIES

ASSUMPTIONS = ["fits to fewer than four points are not judged",
               "where a break is fitted, the slopes are judged at the break position found",
               "two-dimensional fits are judged on exact elliptical power laws, and on noisy surfaces at the minimum the fit reports"]


def hc3(x, y, w=None):
    """Weighted least squares line and the HC3 standard error of its slope."""
    ok = np.isfinite(x) & np.isfinite(y)
    if w is not None:
        ok &= np.isfinite(w)
    x, y = x[ok], y[ok]
    sw = np.ones(x.size) if w is None else np.sqrt(w[ok])
    X = np.vstack([np.ones(x.size), x]).T * sw[:, None]
    Y = y * sw
    b = np.linalg.lstsq(X, Y, rcond=None)[0]
    e = Y - X.dot(b)
    G = np.linalg.inv(X.T.dot(X))
    h = np.einsum("ij,jk,ik->i", X, G, X)
    S = (X * (e / (1 - h))[:, None])
    V = G.dot(S.T.dot(S)).dot(G)
    return b[1], np.sqrt(V[1, 1]), b[0], ok.sum(), h.max()


def grid_limits(x):
    """None, between consecutive points, and exactly on points."""
    x = np.sort(x)
    out = [None, x[0] * 0.5]
    for i in range(len(x)):
        out.append(x[i])
        out.append(np.sqrt(x[i] * x[i + 1]) if i + 1 < len(x) else x[i] * 1.5)
    for i in (1, len(x) // 2, len(x) - 2):
        out += [x[i] * (1 - 1e-4), x[i] * (1 + 1e-4)]
    return out


STATS = ("PowerSpectrum", "MVC", "VCA", "DeltaVariance", "Wavelet", "SCF")
OPT = {"PowerSpectrum": ("plain", "weighted", "unbinned"), "MVC": ("plain", "weighted", "unbinned"), "VCA": ("plain", "weighted", "unbinned"),
       "DeltaVariance": ("plain",), "Wavelet": ("plain", "weighted"), "SCF": ("plain",)}


def gen_l(tier):
    for n in STATS:
        e = ENTRIES[n]
        for shape in (e.shape, e.shape[:-2] + (e.shape[-2] + 3, e.shape[-1])):
            for opt in OPT[n]:
                for k in ((1,) if tier == "quick" else (1, 2, 3, 4)):
                    yield {"stat": n, "shape": list(shape), "opt": opt, "k": k}


def curve(stat, o, opt):
    """-> x, y, weights (all points), inclusive lower limit, attribute names."""
    if stat in ("PowerSpectrum", "MVC", "VCA"):
        if opt == "unbinned":
            fy, fxx = refs.freq_grid(o.ps2D.shape)
            f = np.hypot(fy, fxx).ravel()
            p = np.asarray(o.ps2D).ravel()
            ok = f > 0
            return f[ok], p[ok], None, False
        f, p, s = o.freqs.value, np.asarray(o.ps1D), np.asarray(o.ps1D_stddev)
        w = None
        if opt == "weighted":
            w = (np.where(s == 0, np.nan, s) * 0.434 / p) ** -2
        return f, p, w, False
    if stat == "DeltaVariance":
        return o.lags.value, np.asarray(o.delta_var), np.asarray(o.delta_var_error) ** -2., True
    if stat == "Wavelet":
        w = None
        if opt == "weighted":
            w = (0.434 * np.asarray(o.stddev) / np.asarray(o.values)) ** -2
        return o.scales.value, np.asarray(o.values), w, True
    if stat == "SCF":
        return o.lags.value, np.asarray(o.scf_spectrum), np.asarray(o.scf_spectrum_stddev) ** -2., True


def run_l(ctx, stat, shape, opt, k):
    e = ENTRIES[stat]
    shape = tuple(shape)
    o = e.build(e.raw(k, shape=shape), e.hdr(shape=shape))
    e.run(o, "plain")
    ctx.step()
    if stat == "SCF":
        n = int(np.sqrt(o.scf_surface.size))
        x, y, w, incl = o.lags.value, np.asarray(o.scf_spectrum), None, True
    x, y, w, incl = curve(stat, o, opt)
    good = x > 0
    if stat == "SCF":
        good &= np.isfinite(y)
    grid = grid_limits(np.unique(np.round(x[good], 12)) if opt == "unbinned" else x[good])
    if opt == "unbinned":
        grid = grid[:2] + [0.111, 0.2034, 0.31, 0.4321, 0.6]
    unit = 1 / u.pix if stat in ("PowerSpectrum", "MVC", "VCA") else u.pix
    for lo, hi in itertools.product(grid, repeat=2):
        if lo is not None and hi is not None and lo >= hi:
            continue
        if not incl:
            L = lo if lo is not None else 1. / (0.5 * max(o.ps2D.shape))
            H = hi if hi is not None else (x.max() if opt == "unbinned" else np.nanmax(o.freqs.value))
            m = (x > L) & (x <= H)
            # default limits may tie with a frequency up to rounding
            if (lo is None and (np.abs(x - L) < 1e-12).any()):
                m2 = m | (np.abs(x - L) < 1e-12)
                m1 = m & ~(np.abs(x - L) < 1e-12)
            else:
                m1 = m2 = m
        else:
            m = np.ones(x.size, bool)
            if lo is not None:
                m &= x >= lo
            if hi is not None:
                m &= x <= hi
            m1 = m2 = m
        m1, m2 = m1 & good, m2 & good
        with np.errstate(all="ignore"):
            fin = np.isfinite(np.log10(y))
        if (m1 & fin).sum() < 4:
            continue
        if w is not None and not np.isfinite(w[m1 & fin]).all():
            continue
        a = None if lo is None else lo * unit
        b = None if hi is None else hi * unit
        if not incl:
            o.fit_pspec(low_cut=a, high_cut=b, weighted_fit=opt == "weighted", fit_unbinned=opt == "unbinned")
        elif stat == "Wavelet":
            o.fit_transform(xlow=a, xhigh=b, weighted_fit=opt == "weighted")
        else:
            o.fit_plaw(xlow=a, xhigh=b)
        ctx.step()
        refsl = []
        with np.errstate(all="ignore"):
            for mm in ((m1, m2) if (m1 != m2).any() else (m1,)):
                refsl.append(hc3(np.log10(x[mm]), np.log10(y[mm]), None if w is None else w[mm]))
        if max(r[4] for r in refsl) > 1 - 1e-6:
            continue
        tol = 1e-6
        ok = any(abs(o.slope - r[0]) <= tol * (abs(r[0]) + 1e-3) for r in refsl)
        ctx.check(ok, "slope", "limits %s %s: slope %r, least squares gives %r" % (lo, hi, o.slope, [r[0] for r in refsl]))
        ok = any(abs(o.slope_err - r[1]) <= 1e-5 * (abs(r[1]) + 1e-6) for r in refsl)
        ctx.check(ok, "slope-err", "limits %s %s: error %r, HC3 gives %r" % (lo, hi, o.slope_err, [r[1] for r in refsl]))
        if not incl:
            ctx.check(abs(o.low_cut.value - L) < 1e-12 and abs(o.high_cut.value - H) < 1e-12 and o.low_cut.unit == 1 / u.pix, "cuts-recorded")
            ctx.check(o.brk is None, "brk")
        if stat == "SCF":
            for xv in (1., 2.5):
                ctx.close(o.fitted_model(np.array([xv]) * u.pix), [10 ** (refsl[0][2] + refsl[0][0] * np.log10(xv))], "fitted-model", rtol=1e-6)
    ctx.state(stat, shape, opt, k)


# --- segmented fits -------------------------------------------------------------------------------------------
def gen_s(tier):
    for n in (12, 25) if tier == "quick" else (8, 12, 25, 40):
        for brk in (0.3, 0.5, 0.7):
            for s1, s2 in ((-1., -3.), (-3., -1.), (2., 0.), (0., 1.), (-2., 1.5)):
                for wt in (False, True):
                    for noise in (0., 0.02):
                        yield {"n": n, "brk": brk, "s1": s1, "s2": s2, "weighted": wt, "noise": noise}


def grids(x, B):
    return x, np.linspace(-0.5, 1.5, 23), np.array([B - 0.3, B + 0.2]), np.array([B + 0.1]), x[::-1]


def run_s(ctx, n, brk, s1, s2, weighted, noise):
    from turbustat.statistics import Lm_Seg
    x = np.linspace(0., 1., n) + 0.01 * np.sin(7. * np.arange(n))
    x.sort()
    y = 0.7 + s1 * np.minimum(x, brk) + s2 * np.maximum(x - brk, 0.)
    r = np.random.RandomState(n)
    y = y + noise * r.normal(size=n)
    w = 0.5 + r.uniform(size=n) if weighted else None
    for start in (0.2, 0.35, 0.5, 0.65, 0.8):
        for bad in (False, True):
            xx, yy, ww = x.copy(), y.copy(), None if w is None else w.copy()
            if bad:
                # a missing point is dropped together with its weight
                yy = np.insert(yy, n // 2, np.nan)
                xx = np.insert(xx, n // 2, xx[n // 2])
                ww = None if ww is None else np.insert(ww, n // 2, 1e6)
            m = Lm_Seg(xx, yy, start, weights=ww)
            m.fit_model(verbose=False, cov_type="HC3")
            ctx.step()
            if m.params.size != 5:
                # no break kept: the straight line
                b = hc3(x, y, w)
                ctx.close(m.slopes, [b[0]], "line-slope", rtol=1e-7)
                for grid in grids(x, 0.5):
                    ctx.close(m.model(grid), b[2] + b[0] * grid, "line-model", rtol=1e-7, atol=1e-9)
                    ctx.close(m.model()(grid), b[2] + b[0] * grid, "line-model", rtol=1e-7, atol=1e-9)
                ctx.check(noise > 0 or abs(start - brk) > 0.25, "break-lost", "start %s, break %s" % (start, brk))
                continue
            if noise == 0. and abs(start - brk) <= 0.25:
                ctx.check(abs(m.brk - brk) < max(0.02, 0.6 / (n - 1)), "break", "start %s: break %r, true %r" % (start, m.brk, brk))
                ctx.check(np.abs(m.slopes - [s1, s2]).max() < 0.05 * (abs(s1) + abs(s2)), "slopes", "%s" % m.slopes)
            B = m.brk
            sw = np.ones(n) if w is None else np.sqrt(w)
            X = np.vstack([np.ones(n), x, np.where(x > B, x - B, 0.), np.where(x < B, 0., -1.)]).T
            c = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)[0]
            ctx.close(m.slopes, [c[1], c[1] + c[2]], "segment-slopes", rtol=1e-6)
            ctx.close(m.params, np.append(c, B), "params", rtol=1e-6, atol=1e-9)
            # the fitted model does not depend on where it is evaluated
            for grid in grids(x, B):
                want = c[0] + c[1] * grid + c[2] * np.maximum(grid - B, 0.)
                ctx.close(m.model(grid), want, "segment-model", rtol=1e-6, atol=1e-8)
                ctx.close(m.model()(grid), want, "segment-model", rtol=1e-6, atol=1e-8)
            ctx.check(np.shape(m.slope_errs) == (2,) and (np.asarray(m.slope_errs) >= 0).all() and m.brk_err >= 0, "errors")
            if noise:
                res = (y - X.dot(c)) * sw
                G = np.linalg.inv((X * sw[:, None]).T.dot(X * sw[:, None])) * (res ** 2).sum() / (n - 4)
                se = np.sqrt(np.diag(G))
                ctx.close(m.slope_errs, [se[1], np.hypot(se[1], se[2])], "segment-errors", rtol=1e-5)
                ratio = c[3] / c[2]
                if abs(ratio) < 0.03:     # converged: delta method for the step gamma / beta
                    be = np.sqrt(G[3, 3] + G[2, 2] * ratio ** 2 - 2 * G[2, 3] * ratio) / abs(c[2])
                    ctx.close(m.brk_err, be, "break-error", rtol=1e-4)
            # SSE never worse than the straight line
            b = hc3(x, y, w)
            sse1 = (sw ** 2 * (y - b[2] - b[0] * x) ** 2).sum()
            sse2 = (sw ** 2 * (y - X.dot(c)) ** 2).sum()
            ctx.check(sse2 <= sse1 * (1 + 1e-9) + 1e-20, "worse-than-line")
    for bad in (-0.5, 1.5, np.nan, np.inf):
        try:
            Lm_Seg(x, y, bad)
            ctx.fail("bad-break-accepted", repr(bad))
        except ValueError:
            ctx.step()
    ctx.state(n, brk, s1, s2, weighted, noise)


# --- statistics with breaks: consistency with their own curve ------------------------------------------------------
def gen_b(tier):
    for n in ("PowerSpectrum", "VCA", "MVC", "DeltaVariance", "Wavelet", "VCS"):
        for k in range(3 if tier == "quick" else 10):
            for frac in (0.3, 0.45, 0.6):
                for opt in (("plain", "weighted") if n in ("PowerSpectrum", "Wavelet") else ("plain",)):
                    yield {"stat": n, "k": k, "frac": frac, "opt": opt}


def run_b(ctx, stat, k, frac, opt):
    e = ENTRIES[stat]
    raw = e.raw(k)
    o = e.build(raw, e.hdr(), **({"nlags": 20} if stat == "DeltaVariance" else {"num": 20} if stat == "Wavelet" else {}))
    if stat == "VCS":
        o.compute_pspec()
        n = o.freqs.size
        x, y, w = np.log10(o.freqs.value[1:n // 2]), np.log10(o.ps1D[1:n // 2]), None
        lo, hi = None, None
    else:
        e.run(o, "plain")
        fx_, y, w, incl = curve(stat, o, opt)
        ok = fx_ > 0
        if not incl:
            ok &= (fx_ > o.low_cut.value) & (fx_ <= o.high_cut.value)
        x, y = np.log10(fx_[ok]), np.log10(y[ok])
        w = None if w is None else w[ok]
    if w is not None and not np.isfinite(w).all():
        return
    b0 = x.min() + frac * (x.max() - x.min())

    def fit(**kw):
        if stat == "VCS":
            o.fit_pspec(breaks=b0, **kw)
        elif stat in ("PowerSpectrum", "VCA", "MVC"):
            o.fit_pspec(brk=10 ** b0 / u.pix, min_fits_pts=2, weighted_fit=opt == "weighted", **kw)
        elif stat == "DeltaVariance":
            o.fit_plaw(brk=10 ** b0 * u.pix, **kw)
        else:
            o.fit_transform(brk=10 ** b0 * u.pix, weighted_fit=opt == "weighted", min_fits_pts=2, verbose=False, **kw)
    fit()
    if stat == "VCS":
        brk = o.brk
        has = np.size(o.slope) == 2
    else:
        has = o.brk is not None
        brk = np.log10(o.brk.value) if has else None
    ctx.step()
    n = x.size
    sw = np.ones(n) if w is None else np.sqrt(w)
    if stat in ("DeltaVariance", "Wavelet"):
        # a break outside of the fitted range is refused, on either side
        for b in (x.min() - 0.2, x.max() + 0.2):
            keep = b0
            b0 = b
            try:
                fit(xlow=10 ** x.min() * u.pix, xhigh=10 ** x.max() * u.pix)
                ctx.fail("break-outside-limits", "a break at %g is accepted for a fit from %g to %g" % (b, x.min(), x.max()))
            except ValueError:
                ctx.step()
            b0 = keep
        fit()
    if has and stat != "VCS":
        from turbustat.statistics.lm_seg import Lm_Seg
        m = Lm_Seg(x, y, b0, weights=w)
        m.fit_model(verbose=False, cov_type="HC3")
        if m.params.size == 5 and abs(m.brk - brk) < 1e-8:
            # the error of a break in pixels follows from that of its logarithm
            ctx.close(o.brk_err.value, np.log(10) * o.brk.value * m.brk_err, "break-error", rtol=1e-4)
            ctx.close(np.asarray(o.slope_err), np.asarray(m.slope_errs), "break-slope-errors", rtol=1e-4)
        if stat in ("PowerSpectrum", "VCA", "MVC"):
            got = [np.array(o.slope), np.array(o.slope_err), o.brk.value]
            for b in (b0, b0 * u.dimensionless_unscaled):
                o.fit_pspec(brk=b, log_break=True, min_fits_pts=2, weighted_fit=opt == "weighted")
                ctx.step()
                ctx.check(o.brk is not None, "log-break")
                for g, q in zip(got, (o.slope, o.slope_err, o.brk.value)):
                    ctx.close(np.array(q), g, "log-break", rtol=1e-6)
    if has:
        if np.abs(x - brk).min() < 1e-9:
            return
        X = np.vstack([np.ones(n), x, np.where(x > brk, x - brk, 0.), np.where(x < brk, 0., -1.)]).T
        if np.linalg.matrix_rank(X) < 4:
            return
        c = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)[0]
        ctx.close(np.asarray(o.slope), [c[1], c[1] + c[2]], "slopes-at-break", rtol=1e-5, atol=1e-7)
        ctx.check(np.size(o.slope_err) == 2 and x.min() <= brk <= x.max(), "break-range")
        if stat not in ("VCS", "DeltaVariance", "Wavelet"):
            ctx.check(o.brk.unit == 1 / u.pix and o.brk_err.unit == 1 / u.pix, "break-unit")
        elif stat != "VCS":
            ctx.check(o.brk.unit == u.pix and o.brk_err.unit == u.pix, "break-unit")
        # errors from resampled residuals: those of the same two slopes and of the same break
        keep = np.array(o.slope)
        fit(bootstrap=True, bootstrap_kwargs=dict(nboot=600))
        ctx.step()
        ctx.close(np.asarray(o.slope), keep, "bootstrap-slopes", rtol=1e-9)
        if stat != "VCS":
            ctx.check(o.brk_err.unit == o.brk.unit and o.brk_err.value > 0, "bootstrap-break-unit")
        Xw = X * sw[:, None]
        G = np.linalg.pinv(Xw.T.dot(Xw)) * np.var(y * sw - Xw.dot(c))
        ctx.close(np.asarray(o.slope_err), np.sqrt([G[1, 1], G[1, 1] + G[2, 2] + 2 * G[1, 2]]), "bootstrap-slope-errors", rtol=0., atol=0.25 * np.sqrt(max(G[1, 1], G[1, 1] + G[2, 2] + 2 * G[1, 2])))
        ratio = c[3] / c[2]
        be = np.sqrt(G[3, 3] + G[2, 2] * ratio ** 2 - 2 * G[2, 3] * ratio) / abs(c[2])
        if stat != "VCS" and abs(ratio) < 0.03 and np.sqrt(G[2, 2]) < 0.15 * abs(c[2]):
            ctx.close(o.brk_err.value, be * np.log(10) * o.brk.value, "bootstrap-break-error", rtol=0.3)
    else:
        r = hc3(x, y, w)
        ctx.close(np.ravel(o.slope), [r[0]], "slope-without-break", rtol=1e-6)
        if stat != "VCS":
            ctx.close(np.ravel(o.slope_err), [r[1]], "slope-err-without-break", rtol=1e-5)
    ctx.state(stat, k, frac, opt)


# --- exact elliptical power laws -------------------------------------------------------------------------------------
def gen_e(tier):
    for shape in ((24, 24), (25, 25)) + (((24, 27), (33, 33)) if tier != "quick" else ((24, 27),)):
        for slope in (1.5, 3.0):
            for ell in (0.3, 0.6, 0.85):
                for th in range(0, 180, 30):
                    yield {"shape": list(shape), "slope": slope, "ellip": ell, "theta": th}


def run_e(ctx, shape, slope, ellip, theta):
    from turbustat.statistics import PowerSpectrum
    shape = tuple(shape)
    t = np.radians(theta)
    fy, fx_ = np.meshgrid(np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1]), indexing="ij")
    q2 = fx_ ** 2 * ((ellip * np.cos(t)) ** 2 + np.sin(t) ** 2) + 2 * (1 - ellip ** 2) * fx_ * fy * np.sin(t) * np.cos(t) * YSIGN + \
        fy ** 2 * ((ellip * np.sin(t)) ** 2 + np.cos(t) ** 2)
    q2[0, 0] = 1.
    amp = 1e3 * q2 ** (-slope / 4.)
    # symmetrise phases: use a real, even field, whose transform is the amplitude itself
    even = 0.5 * (amp + np.roll(np.roll(amp[::-1, ::-1], 1, 0), 1, 1))
    img = np.fft.ifft2(even).real
    P = shape[0] % 2 == 0 and shape[1] % 2 == 0
    hc = 0.45 / u.pix
    o = PowerSpectrum(img, header=fx.hdr2(shape))
    o.run(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), high_cut=hc)
    ctx.step()
    ctx.check(abs(o.slope2D + slope) < 1e-2 * slope, "slope2D", "%r for %r" % (o.slope2D, -slope))
    ctx.check(abs(o.ellip2D - ellip) < 0.01, "ellip2D", "%r for %r" % (o.ellip2D, ellip))
    d = abs((o.theta2D - t + np.pi / 2) % np.pi - np.pi / 2)
    ctx.check(d < 0.02, "theta2D", "%r for %r" % (o.theta2D, t))
    if np.isfinite(o.slope2D_err):
        ctx.check(o.slope2D_err < 0.05 and o.ellip2D_err < 0.05 and o.theta2D_err < 0.1, "errors-of-exact-fit", "%r %r %r" % (o.slope2D_err, o.ellip2D_err, o.theta2D_err))
    # the circular fit of an isotropic surface
    ctx.state(shape, slope, ellip, theta)


YSIGN = 1.


# --- two-dimensional fits with every option -----------------------------------------------------------------------------
def gen_eo(tier):
    for stat in ("PowerSpectrum", "VCA", "SCF"):
        for lim in ((None, None), (0.11, 0.43), (0.11, None), (None, 0.31)):
            for fixed, rw in (((False, False),) if stat == "SCF" else ((False, False), (True, False), (True, True), (False, True))):
                for before in (True, False):
                    for az in (False, True):
                        for boot in (False, True):
                            if boot and tier == "quick" and (lim[0] is None or not before):
                                continue
                            for k in (1,) if tier == "quick" else (1, 2, 3):
                                yield {"stat": stat, "low": lim[0], "high": lim[1], "fixed": fixed, "radial": rw, "before": before, "azim": az, "boot": boot, "k": k}


def ell_model(p, x, y):
    q = 1. / (1. + np.exp(-p[1]))
    c, s = np.cos(p[2]), np.sin(p[2])
    return p[0] + 0.5 * p[3] * np.log10(x ** 2 * ((q * c) ** 2 + s ** 2) + 2 * (1 - q ** 2) * x * y * s * c + y ** 2 * ((q * s) ** 2 + c ** 2))


def same_minimum(o, got, d, lo, hi, x, y, fxx, fyy, v, azim, radial, fixed):
    """The point sets (points on a limit may count either way) at whose least-squares minimum the fit stands."""
    from scipy.optimize import least_squares
    use = (d > lo) & (d <= hi) & (d > 0)
    edge = ((np.abs(d - lo) < 1e-9) | (np.abs(d - hi) < 1e-9)) & (d > 0)
    if azim:
        diff = (np.degrees(np.arctan2(y, x)) - 25. + 90.) % 180. - 90.
        m = np.abs(diff) <= 55.
        cy, cx = d.shape[0] // 2, d.shape[1] // 2
        m[cy - 1:cy + 1, cx - 1:cx + 1] = True
        use &= m
        edge &= m
    ok = []
    for us in [use] if not edge.any() else [use & ~edge, use | edge]:
        X, Y, V = fxx[us], fyy[us], v[us]
        w = 1. / np.hypot(X, Y) if radial else np.ones(X.size)
        if fixed:
            A = np.vstack([np.ones(X.size), np.log10(np.hypot(X, Y))]).T
            c = np.linalg.lstsq(A * w[:, None], V * w, rcond=None)[0]
            if abs(got[0] - c[0]) < 1e-3 and abs(o.slope2D - c[1]) < 1e-3:
                ok.append((us, A, w))
        else:
            def cost(p):
                return (ell_model(p, X, Y) - V) * w
            best = least_squares(cost, got, xtol=1e-12, ftol=1e-12, gtol=1e-12)
            free = least_squares(cost, best.x, xtol=1e-12, ftol=1e-12, gtol=1e-12)
            q = 1. / (1. + np.exp(-free.x[1]))
            if abs(free.x[3] - o.slope2D) < 5e-3 * (1 + abs(o.slope2D)) and abs(q - o.ellip2D) < 1e-2:
                A = np.array([(ell_model(got + e_, X, Y) - ell_model(got - e_, X, Y)) / 2e-5 for e_ in np.diag([1e-5] * 4)]).T
                ok.append((us, A, w))
    return ok


def run_eo(ctx, stat, low, high, fixed, radial, before, azim, boot, k):
    from turbustat.statistics import PowerSpectrum, VCA, SCF
    r = np.random.RandomState(77 + k)
    akw = dict(theta_0=25 * u.deg, delta_theta=110 * u.deg) if azim else {}
    kw = dict(bootstrap=boot, niters=160, use_azimmask=azim)
    if stat == "SCF":
        base = np.cumsum(np.cumsum(r.normal(size=(4, 16, 17)), 1), 2)
        base = base - base.min() + 3.
        size = 9
        o = SCF(base, header=fx.hdr3(base.shape), size=size)
        o.compute_surface(show_progress=False)
        o.compute_spectrum(**akw)
        if before:
            o.fit_plaw()
            w = 1. / np.where(o.scf_spectrum_stddev > 0, o.scf_spectrum_stddev, np.nan) ** 2
            if np.isfinite(w).sum() > 3 and np.nanmax(w) < 1e8 * np.nanmin(w):
                h = hc3(np.log10(o.lags.to(u.pix).value), np.log10(o.scf_spectrum), w)
                ctx.close(o.slope, h[0], "slope-of-wedge", rtol=1e-6, atol=1e-9)
        surf = np.asarray(o.scf_surface)
        y, x = (np.mgrid[:size, :size] - size // 2).astype(float)
        lg = o.lags.to(u.pix).value
        lo, hi = (lg.min() if low is None else 10 * low), (lg.max() if high is None else 10 * high)
        o.fit_2Dplaw(xlow=None if low is None else lo * u.pix, xhigh=None if high is None else hi * u.pix, **kw)
        lin, fxx, fyy = surf, x[::-1], y[::-1]
    else:
        shape = (25, 27)
        fy, fx_ = np.meshgrid(np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1]), indexing="ij")
        q2 = 0.4 * fx_ ** 2 + 0.5 * fx_ * fy + fy ** 2
        if fixed:
            q2 = fx_ ** 2 + fy ** 2
        q2[0, 0] = 1.
        mk = lambda: np.fft.ifft2(np.fft.fft2(r.normal(size=shape)) * q2 ** -0.7).real
        if stat == "PowerSpectrum":
            o = PowerSpectrum(mk(), header=fx.hdr2(shape))
        else:
            o = VCA(np.array([mk() for _ in range(3)]), header=fx.hdr3((3,) + shape))
        o.compute_pspec()
        o.compute_radial_pspec(**akw)
        if before:
            o.fit_pspec()
        lin = np.asarray(o.ps2D)
        fyy, fxx = refs.freq_grid(shape)
        y, x = np.meshgrid(np.arange(shape[0]) - shape[0] // 2, np.arange(shape[1]) - shape[1] // 2, indexing="ij")
        lo = 1. / (0.5 * max(shape)) if low is None else low
        hi = o.freqs.value.max() if high is None else high
        o.fit_2Dpspec(low_cut=None if low is None else low / u.pix, high_cut=None if high is None else high / u.pix,
                      fix_ellip_params=fixed, radial_weighting=radial, **kw)
    ctx.step(4)
    v = np.log10(lin)
    got = np.array(o.fit2D.parameters)
    if not fixed and (abs(got[2]) > np.pi - 1e-6 or abs(got[1]) > 5.):
        return
    ok = same_minimum(o, got, np.hypot(fyy, fxx), lo, hi, x, y, fxx, fyy, v, azim, radial, fixed)
    if not ok and stat == "SCF":
        # distances multiplied by the width of the bins of the one-dimensional spectrum
        ok = same_minimum(o, got, np.hypot(fyy, fxx) * (lg[1] - lg[0]), lo, hi, x, y, fxx, fyy, v, azim, radial, fixed)
        if ok:
            ctx.fail("surface-distance-scale", "limits %s to %s pix select distances from %s to %s pix" % (lo, hi, np.hypot(fyy, fxx)[ok[0][0]].min(), np.hypot(fyy, fxx)[ok[0][0]].max()))
    ctx.check(len(ok) > 0, "surface-fit", "%s %s" % (got, o.slope2D))
    if not ok:
        return
    ctx.close(o.slope2D, got[3], "slope-is-the-fit", rtol=1e-9)
    ctx.close(o.theta2D, got[2] % np.pi, "theta-is-the-fit", rtol=1e-9)
    if fixed:
        ctx.check(abs(o.ellip2D - 1.) < 1e-9 and not o.ellip2D_err > 0 and not o.theta2D_err > 0, "fixed-ellipticity", "%r %r %r" % (o.ellip2D, o.ellip2D_err, o.theta2D_err))
    errs = []
    for us, A, w in ok:
        V = v[us]
        res = V - ell_model(got if not fixed else [got[0], 50., 0., got[3]], fxx[us], fyy[us])
        Aw = A * w[:, None]
        G = np.linalg.pinv(Aw.T.dot(Aw))
        if boot:
            H = G.dot((A * (w ** 2)[:, None]).T)
            n = V.size
            C = H.dot(np.eye(n) - 1. / n).dot(H.T) * res.var() * n / (n - 1.) * 0.9945 ** 2
        else:
            C = G * ((res * w) ** 2).sum() / (V.size - A.shape[1])
        errs.append(np.sqrt(np.diag(C)))
    tol = 0.4 if boot else (0.35 if stat == "SCF" else 0.1)
    slope_e = [e_[-1] for e_ in errs]
    if np.isfinite(o.slope2D_err) or fixed or boot:
        ctx.check(any(abs(o.slope2D_err - e_) <= tol * e_ for e_ in slope_e), "slope2D-error", "%r want %r" % (o.slope2D_err, slope_e))
        if not fixed and 0.2 < o.ellip2D < 0.8:
            for nm, i, sc in (("ellip2D", 1, o.ellip2D * (1 - o.ellip2D)), ("theta2D", 2, 1.)):
                e_got = getattr(o, nm + "_err")
                ctx.check(any(abs(e_got - e_[i] * sc) <= (0.8 if boot and stat == "SCF" else tol) * e_[i] * sc for e_ in errs), nm + "-error", "%r want %r" % (e_got, [e_[i] * sc for e_ in errs]))
    ctx.state(stat, low, high, fixed, radial, before, azim, boot, k)


# --- orthogonal regression ----------------------------------------------------------------------------------------------
def gen_o(tier):
    for n in (5, 9):
        for sl in (0.3, 1., -2.):
            for ex, ey in ((0.1, 0.1), (0.02, 0.3), (0.3, 0.02)):
                for k in range(2 if tier == "quick" else 6):
                    yield {"n": n, "slope": sl, "ex": ex, "ey": ey, "k": k}


def run_o(ctx, n, slope, ex, ey, k):
    from turbustat.statistics.fitting_utils import leastsq_linear
    from scipy.optimize import minimize
    r = np.random.RandomState(10 * n + k)
    xt = np.linspace(0.5, 2., n)
    sx, sy = ex * (0.5 + r.uniform(size=n)), ey * (0.5 + r.uniform(size=n))
    x, y = xt + 0.3 * sx * r.normal(size=n), slope * xt + 1.1 + 0.3 * sy * r.normal(size=n)

    def chi(p):
        return ((y - p[0] * x - p[1]) ** 2 / (sy ** 2 + p[0] ** 2 * sx ** 2)).sum()
    p, e = leastsq_linear(x, y, sx, sy)
    ctx.step()
    best = min((minimize(chi, s, method="Nelder-Mead", options=dict(xatol=1e-10, fatol=1e-14, maxiter=20000)) for s in ((slope, 1.1), tuple(p))), key=lambda q: q.fun)
    ctx.check(chi(p) <= best.fun * (1 + 1e-5) + 1e-10, "odr-minimum", "chi2 %r, minimum %r" % (chi(p), best.fun))
    ctx.close(p, best.x, "odr-parameters", atol=2e-3 * (1 + abs(slope)))
    ctx.check(len(e) == 2 and (np.asarray(e) > 0).all(), "odr-errors")
    ctx.state(n, slope, ex, ey, k)


# --- bootstrap uncertainties ---------------------------------------------------------------------------------------
def gen_bs(tier):
    for n in STATS:
        for opt in OPT[n]:
            if opt == "unbinned":
                continue
            for k in range(2 if tier == "quick" else 6):
                yield {"stat": n, "opt": opt, "k": k, "last": False}
    for k in range(3):
        yield {"stat": "OLS", "opt": "plain", "k": k, "last": True}
        yield {"stat": "OLS", "opt": "weighted", "k": k, "last": True}


def run_bs(ctx, stat, opt, k, last):
    nb = 1500
    if stat == "OLS":
        import statsmodels.api as sm
        from turbustat.statistics.fitting_utils import residual_bootstrap
        r = np.random.RandomState(k)
        x = np.linspace(0, 3, 15)
        y = 1. - 2 * x + 0.02 * r.normal(size=15)
        y[[0, 7, 14][k]] += 0.5
        w = 0.3 + r.uniform(size=15)
        X = sm.add_constant(x)
        f = (sm.WLS(y, X, weights=w) if opt == "weighted" else sm.OLS(y, X)).fit(cov_type="HC3")
        got = residual_bootstrap(f, nboot=nb)
        ctx.step()
        sw = np.sqrt(w) if opt == "weighted" else np.ones(15)
        want = boot_se(x, y, sw)
        ctx.check(abs(got[1] - want[1]) < 0.12 * want[1] and abs(got[0] - want[0]) < 0.12 * want[0], "bootstrap", "%s want %s" % (got, want))
        ctx.check(residual_bootstrap(f, nboot=7, return_samps=True).shape == (7, 2), "samples")
        ctx.state(stat, opt, k)
        return
    e = ENTRIES[stat]
    o = e.build(e.raw(k), e.hdr())
    e.run(o, "plain")
    x, y, w, incl = curve(stat, o, opt)
    good = (x > 0) & np.isfinite(np.log10(y))
    if not incl:
        good &= x > 1. / (0.5 * max(o.ps2D.shape)) + 1e-9
    kw = dict(bootstrap=True, bootstrap_kwargs=dict(nboot=nb))
    if not incl:
        o.fit_pspec(weighted_fit=opt == "weighted", low_cut=1. / (0.5 * max(o.ps2D.shape)) / u.pix + 1e-9 / u.pix, **kw)
    elif stat == "Wavelet":
        o.fit_transform(weighted_fit=opt == "weighted", **kw)
    else:
        o.fit_plaw(**kw)
    ctx.step()
    if w is not None and not np.isfinite(w[good]).all():
        return
    sw = np.ones(good.sum()) if w is None else np.sqrt(w[good])
    want = boot_se(np.log10(x[good]), np.log10(y[good]), sw)[1]
    ctx.check(abs(o.slope_err - want) < 0.12 * want, "bootstrap", "%s want %s" % (o.slope_err, want))
    ctx.state(stat, opt, k)


def boot_se(x, y, sw):
    """Standard error when the (weighted) residuals are drawn with replacement."""
    X = np.vstack([np.ones(x.size), x]).T * sw[:, None]
    b = np.linalg.lstsq(X, y * sw, rcond=None)[0]
    r = y * sw - X.dot(b)
    return np.sqrt(np.diag(np.linalg.inv(X.T.dot(X))) * r.var())


FAMILIES = {
    "bootstrap": Family(gen_bs, run_bs, "6 statistics x weighting x data, and lines with one outlier at either end, against the exact residual-resampling error"),
    "limits": Family(gen_l, run_l, "6 statistics x 2 shapes x weighting/binning x every pair of limits on, between and outside the points"),
    "segmented": Family(gen_s, run_s, "piecewise lines: sizes x breaks x slopes x weights x noise x 5 starting points x a missing point"),
    "breaks": Family(gen_b, run_b, "6 statistics x images x 3 break guesses x weighting"),
    "elliptical": Family(gen_e, run_e, "exact elliptical power-law surfaces: shapes x slopes x ellipticities x position angles"),
    "surfaces": Family(gen_eo, run_eo, "noisy surfaces of 3 statistics: limits x fixed ellipticity x radial weights x wedge x bootstrap x with and without an earlier fit"),
    "odr": Family(gen_o, run_o, "orthogonal regression problems: sizes x slopes x error ratios"),
}
