"""Channel regridding (VCA) and velocity-coordinate spectra (VCS) follow their definitions."""
import itertools
import warnings
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["spectral-cube's own spectral_smooth, spectral_interpolate and downsample_axis do what their documentation says",
               "a single remaining channel is not judged for method='regrid'"]
MS, KMS = u.m / u.s, u.km / u.s


def header(shape, dv, unit, axis=None):
    h = fx.hdr3(shape, dv=dv)
    h["CUNIT3"] = unit
    if axis in START:
        h["CRVAL3"] = START[axis]
    return h


def scube(a, h, mask=None, unit=None):
    from spectral_cube import SpectralCube, LazyMask
    from astropy.wcs import WCS
    c = SpectralCube(u.Quantity(np.array(a), u.K), WCS(h), header=h)
    c = c.with_mask(LazyMask(np.isfinite, cube=c))
    if mask is not None:
        c = c.with_mask(mask)
    if unit is not None:
        c = c.with_spectral_unit(unit)
    return c


def groups(a, n, f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.array([f(a[i:i + n], axis=0) for i in range(0, a.shape[0], n)])


FUN = {"nanmean": np.nanmean, "nansum": np.nansum, "nanmax": np.nanmax}
AX = {"up": (500., "m/s", None), "down": (-500., "m/s", None), "km": (0.1, "km/s", None), "km-view": (100., "m/s", KMS), "odd": (333., "m/s", None),
      "km-down": (-0.3, "km/s", None), "km-off": (0.1, "km/s", None), "km-down-off": (-0.3, "km/s", None)}
START = {"km-off": 0.7, "km-down-off": -3.1}      # first channels that make the channel width inexact
FORMS = ("int", "pix", "pix-frac", "pix-over", "m/s", "km/s", "cm/s", "frac", "over")


def width(form, n, dv, unit):
    w = (abs(dv) * u.Unit(unit)).to(MS)
    return {"int": n, "pix": n * u.pix, "pix-frac": (n - 0.4) * u.pix, "m/s": n * w, "km/s": (n * w).to(KMS), "cm/s": (n * w).to(u.cm / u.s),
            "frac": ((n - 0.3) * w).to(KMS), "pix-over": (n - 0.9) * u.pix, "over": ((n - 0.9) * w).to(KMS)}[form]


# ---- averaging channels
def gen_d(tier):
    for nch in (range(4, 10) if tier == "quick" else range(3, 15)):
        for n in range(1, nch + 1):
            for ax in AX:
                yield {"nchan": nch, "n": n, "axis": ax}


def run_d(ctx, nchan, n, axis):
    from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
    dv, unit, view = AX[axis]
    sh = (nchan, 2, 3)
    h = header(sh, dv, unit, axis)
    for form in FORMS:
        if n == 1 and form in ("frac", "pix-frac", "pix-over", "over"):
            continue
        for miss in ("none", "some", "masked"):
            a = fx.cube(sh, 1)
            m = None
            if miss == "some":
                a[1:3, 0, 1] = np.nan
                a[:, 1, 2] = np.nan
                a[-1] = np.nan
            elif miss == "masked":
                m = a > np.percentile(a, 30)
            ref = a if m is None else np.where(m, a, np.nan)
            for fn in (None, "nansum", "nanmax"):
                if fn and (form != "int" or axis not in ("up", "km-down")) or miss != "none" and form not in ("int", "km/s"):
                    continue
                c = scube(a, h, m, view)
                kw = {} if fn is None else {"downsamp_function": FUN[fn]}
                w = width(form, n, dv, unit)
                r = spectral_regrid_cube(c, w, **kw) if form != "pix" else spectral_regrid_cube(c, w, method="downsample", **kw)
                ctx.step()
                want = groups(ref, n, FUN[fn or "nanmean"])
                if not ctx.check(r.shape == want.shape, "channels", "%s %s: %s, want %s" % (form, w, r.shape, want.shape)):
                    continue
                got = r.filled_data[:].to(u.K).value
                if fn == "nansum":
                    got, want = np.nan_to_num(got), np.nan_to_num(want)
                ctx.close(got, want, "averages", rtol=1e-9, atol=1e-12, msg="%s %s" % (form, fn))
                old = c.spectral_axis.to(MS).value
                full = nchan // n
                if full:
                    wax = np.array([old[i * n:(i + 1) * n].mean() for i in range(full)])
                    ctx.close(r.spectral_axis.to(MS).value[:full], wax, "axis", rtol=1e-6, atol=1e-3)
                ctx.close(c.filled_data[:].value, ref, "caller-cube", rtol=0)
                ctx.state((r.shape, form))


# ---- smoothing and interpolating
def gen_r(tier):
    for nch in ((8, 9, 12) if tier == "quick" else range(6, 16)):
        for f in (1, 1.2, 1.5, 2, 2.5, 3, 4):
            for ax in AX:
                yield {"nchan": nch, "factor": f, "axis": ax}


def run_r(ctx, nchan, factor, axis):
    from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
    from astropy.convolution import convolve, Gaussian1DKernel
    dv, unit, view = AX[axis]
    sh = (nchan, 2, 2)
    h = header(sh, dv, unit, axis)
    a = fx.cube(sh, 2)
    for form in ("pix", "m/s", "km/s", "cm/s"):
        c = scube(a, h, None, view)
        w = width(form, factor, dv, unit)
        keep = c.spectral_axis.copy()
        r = spectral_regrid_cube(c, w, method="regrid")
        ctx.step()
        old = keep.to(MS).value
        if factor == 1:
            ctx.check(r.shape == c.shape, "same-width", (r.shape, c.shape))
            ctx.close(r.filled_data[:].value, a, "same-width", rtol=0)
            continue
        n = int(np.floor(nchan / factor + 1e-9))
        if n < 2:
            continue
        if not ctx.check(r.shape == (n, 2, 2), "channels", "%s: %s, want %d channels" % (form, r.shape, n)):
            continue
        want_ax = np.linspace(old.min(), old.max(), n)
        if dv < 0:
            want_ax = want_ax[::-1]
        ctx.close(r.spectral_axis.to(MS).value, want_ax, "axis", rtol=1e-6, atol=1e-3)
        k = Gaussian1DKernel(np.sqrt(factor ** 2 - 1) / np.sqrt(8 * np.log(2)))
        got = r.filled_data[:].to(u.K).value
        for i, j in itertools.product(range(2), range(2)):
            s = convolve(a[:, i, j], k, normalize_kernel=True)
            o = np.argsort(old)
            # interior points only: the edge treatment of the interpolation belongs to spectral-cube
            ctx.close(got[1:-1, i, j], np.interp(want_ax[1:-1], old[o], s[o]), "smoothed", rtol=1e-6, atol=1e-9, msg=form)
        ctx.state((n, factor))


# ---- VCA with a channel width
def gen_v(tier):
    for nch in (6, 7):
        for n in (1, 2, 3, 4, nch):
            for form in FORMS + ("regrid",):
                for ax in ("up", "km", "km-down"):
                    yield {"nchan": nch, "n": n, "form": form, "axis": ax}


def run_v(ctx, nchan, n, form, axis):
    from turbustat.statistics import VCA, VCA_Distance
    from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
    if n == 1 and form in ("frac", "pix-frac", "pix-over", "over", "regrid"):
        return
    if form == "regrid" and nchan // n < 2:
        return
    dv, unit, _ = AX[axis]
    sh = (nchan, 8, 9)
    h = header(sh, dv, unit, axis)
    a = fx.cube(sh, 3)
    w = width("m/s" if form == "regrid" else form, n, dv, unit)
    dk = {"method": "regrid"} if form == "regrid" else {}
    keep, hk = a.copy(), h.copy()
    o = VCA(a, header=h, channel_width=w, downsample_kwargs=dk)
    if form == "regrid":
        red = spectral_regrid_cube(scube(a, h), w, method="regrid").filled_data[:].value
    else:
        red = groups(a, n, np.nanmean)
    ctx.step()
    got = np.asarray(o.data).reshape((-1,) + sh[1:]) if np.ndim(o.data) == 2 else np.asarray(o.data)
    if not ctx.check(got.shape == red.shape, "vca-channels", "%s, want %s" % (o.data.shape, red.shape)):
        return
    ctx.close(got, red, "vca-data", rtol=1e-9)
    o.compute_pspec()
    ref = len(red) * np.sum([refs.power2d(x) for x in red], axis=0)
    ctx.close(o.ps2D, ref, "vca-power", rtol=1e-9, scale=ref.max())
    ctx.check(abs(o.header["CDELT1"]) == abs(h["CDELT1"]), "vca-pixels", o.header["CDELT1"])
    ctx.check(np.array_equal(a, keep) and h == hk, "vca-input", "the data or header changed")
    o.compute_radial_pspec()
    ctx.check(np.isfinite(o.ps1D).any(), "vca-radial", o.ps1D)
    if form != "regrid" and nchan // n > 1:
        d = VCA_Distance((a, h), (fx.cube(sh, 4), h), channel_width=w)
        ctx.close(d.vca1.data, red, "distance-first", rtol=1e-9)
        ctx.close(d.vca2.data, groups(fx.cube(sh, 4), n, np.nanmean), "distance-second", rtol=1e-9)
        ctx.step()
    ctx.state((nchan, n, form))


# ---- refusals
BAD = ("float", "kelvin", "deg", "negative-regrid", "narrow", "narrow-pix", "int-regrid", "method", "array", "hdu")


def gen_x(tier):
    for what in BAD:
        for via in ("function", "VCA"):
            yield {"what": what, "via": via}


def run_x(ctx, what, via):
    from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
    from turbustat.statistics import VCA
    from astropy.io import fits
    sh = (6, 3, 4)
    h = header(sh, 500., "m/s")
    a = fx.cube(sh, 1)
    c = scube(a, h)
    w, kw = {"float": (2.0, {}), "kelvin": (2 * u.K, {}), "deg": (2 * u.deg, {}), "negative-regrid": (100 * MS, {"method": "regrid"}),
             "narrow": (499 * MS, {"method": "regrid"}), "narrow-pix": (0.7 * u.pix, {"method": "regrid"}), "int-regrid": (2, {"method": "regrid"}),
             "method": (2, {"method": "mean"}), "array": (2, {}), "hdu": (2, {})}[what]
    ctx.step()
    try:
        if via == "VCA":
            if what in ("array", "hdu"):
                return
            VCA(a, header=h, channel_width=w, downsample_kwargs=kw)
        else:
            spectral_regrid_cube({"array": a, "hdu": fits.PrimaryHDU(a, h)}.get(what, c), w, **kw)
    except Exception:
        ctx.state(what)
        return
    ctx.fail("accepted", "%s was accepted" % what)


# ---- VCS
def gen_s(tier):
    for nch in range(4, 14):
        for sp in ((2, 3), (3, 2), (4, 4), (2, 5)) + (((5, 5), (7, 4)) if tier == "thorough" else ()):
            for k in (0, 1):
                yield {"nchan": nch, "spatial": list(sp), "k": k}


def run_s(ctx, nchan, spatial, k):
    from turbustat.statistics import VCS
    sh = (nchan,) + tuple(spatial)
    a0 = fx.cube(sh, k)
    npx = spatial[0] * spatial[1]
    hdr = header(sh, 500., "m/s")
    subsets = [()] + [(i,) for i in range(min(npx, 4))] + [(0, 2), (1, 2, 3)][:2 if npx > 4 else 1]
    for miss in subsets:
        for kind in ("spectra", "voxel"):
            a = a0.copy()
            if kind == "spectra":
                a.reshape(nchan, -1)[:, list(miss)] = np.nan
                good = npx - len(miss)
            else:
                if not miss:
                    continue
                a.reshape(nchan, -1)[0, list(miss)] = np.nan
                good = npx
            o = VCS(a, header=hdr)
            o.compute_pspec()
            ctx.step()
            ref = np.sum(np.abs(np.fft.fft(np.nan_to_num(a), axis=0)) ** 2, axis=(1, 2)) * npx / float(good)
            ctx.close(o.ps1D, ref, "spectrum", rtol=1e-9)
            ctx.close(o.freqs.to(1 / u.pix).value, np.abs(np.fft.fftfreq(nchan)), "frequencies", rtol=1e-12)
            ctx.state((nchan, len(miss)))


def law_cube(n, b, s1, s2, k):
    """Cube whose mean velocity spectrum is a broken power law with a small fixed ripple."""
    f = np.abs(np.fft.rfftfreq(n))
    f[0] = f[1]
    amp = np.where(f < b, (f / b) ** (s1 / 2.), (f / b) ** (s2 / 2.)) * (1 + 0.02 * np.sin(7 * np.arange(len(f)) + k))
    r = np.random.RandomState(5 + k)
    out = np.empty((n, 2, 3))
    for i in np.ndindex(2, 3):
        ph = np.exp(2j * np.pi * r.uniform(size=len(f)))
        ph[0] = 1
        if n % 2 == 0:
            ph[-1] = 1
        out[(slice(None),) + i] = np.fft.irfft(amp * ph, n)
    return out


def gen_f(tier):
    for n in (28, 29) if tier == "quick" else (28, 29, 40, 41):
        npos = (n + 1) // 2 - 1
        lows = [None] + [(i, t) for i in (1, 2, 3) for t in ("on", "off")]
        highs = [None] + [(i, t) for i in (npos, npos - 1, npos - 2) for t in ("on", "off")]
        for lo in lows:
            for hi in highs:
                for k in (0, 1):
                    yield {"n": n, "low": lo and list(lo), "high": hi and list(hi), "k": k}


def run_f(ctx, n, low, high, k):
    from turbustat.statistics import VCS
    from turbustat.statistics.lm_seg import Lm_Seg
    b, s1, s2 = 0.2, -1.0, -3.5
    a = law_cube(n, b, s1, s2, k)
    hdr = header(a.shape, 500., "m/s")
    npos = (n + 1) // 2 - 1
    f = np.arange(1, npos + 1) / float(n)
    eps = 0.3 / n
    kw, keep = {}, np.ones(npos, bool)
    if low:
        v = f[low[0] - 1] - (0 if low[1] == "on" else eps)
        keep &= f > v if low[1] == "off" else f >= v - 1e-12
        kw["low_cut"] = v / u.pix
    if high:
        v = f[high[0] - 1] + (0 if high[1] == "on" else eps)
        keep &= f < v if high[1] == "off" else f <= v + 1e-12
        kw["high_cut"] = v / u.pix
    o = VCS(a, header=hdr)
    o.run(breaks=np.log10(b * 1.1), **kw)
    p = VCS(a, header=hdr)
    p.run(breaks=b * 1.1, log_break=False, **kw)
    ctx.step(2)
    ps = np.sum(np.abs(np.fft.fft(a, axis=0)) ** 2, axis=(1, 2))[1:npos + 1]
    sols = []
    variants = [keep]
    for cut, pos in ((low, low and low[0] - 1), (high, high and high[0] - 1)):
        if cut and cut[1] == "on":      # a limit on a point: in or out
            variants += [np.where(np.arange(npos) == pos, False, v) for v in variants]
    for v in variants:
        s = Lm_Seg(np.log10(f[v]), np.log10(ps[v]), np.log10(b * 1.1))
        s.fit_model(verbose=False, cov_type="HC3")
        sols.append((np.asarray(s.slopes), np.asarray(s.slope_errs), s.brk))
    for q in (o, p):
        ok = any(np.shape(q.slope) == x[0].shape and np.allclose(q.slope, x[0], rtol=1e-5) and np.allclose(q.slope_err, x[1], rtol=1e-4)
                 and np.allclose(q.brk, x[2], rtol=1e-5) for x in sols)
        ctx.check(ok, "fit", "slopes %s errors %s break %s, want %s" % (q.slope, q.slope_err, q.brk, sols[0]))
    ctx.state(np.round(np.asarray(o.slope), 6).tolist())


FAMILIES = {
    "average": Family(gen_d, run_d, "cubes of 4..9 channels (thorough 3..14) x every number of averaged channels x 8 spectral axes x 7 ways of writing the width x 3 missing patterns x 3 functions"),
    "regrid": Family(gen_r, run_r, "cubes of 8, 9, 12 channels (thorough 6..15) x 7 width ratios x 8 spectral axes x 4 units"),
    "vca": Family(gen_v, run_v, "VCA and VCA_Distance x 2 channel counts x 4 widths x 8 ways of writing them x 3 spectral axes"),
    "refusals": Family(gen_x, run_x, "10 unusable widths, methods or inputs x function and VCA"),
    "vcs": Family(gen_s, run_s, "4..13 channels x 4 spatial shapes (thorough 6) x 2 contents x missing spectra or voxels"),
    "vcsfit": Family(gen_f, run_f, "28 and 29 channels (thorough also 40, 41) x 7 lower x 7 upper limits on and between the points x 2 contents x log or linear break"),
}
