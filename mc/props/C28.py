"""Delta-variance and wavelet spectra follow their definitions for every shape, weight, boundary and lag."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["kernels are sampled at pixel centres out to eight standard deviations, as documented by astropy; a kernel larger than a "
               "periodic map acts on the zero-extended frame that holds it",
               "convolution with finite data is linear, so all unit impulses of a shape decide the convolved maps of that shape"]

SH = [(8, 8), (9, 12), (12, 9), (13, 8)]
SHT = SH + [(7, 7), (16, 15), (10, 21)]


def content(shape, kind, k=0):
    a = fx.img(shape, k)
    if kind == "nan":
        a[1, 2] = np.nan
        a[-2:, -3:] = np.nan
    elif kind == "nanedge":
        a[0, :] = np.nan
        a[:, -1] = np.nan
    elif kind == "offset":
        a = a + 100.
    return a


def weight(shape, kind, data):
    if kind is None:
        return None
    w = 0.2 + np.arange(np.prod(shape)).reshape(shape) % 7 / 7.
    if kind == "hole":
        w[2:5, 1:4] = 0
    w[np.isnan(data)] = 0.
    return w


def gen_dv(tier):
    for sh in (SHT if tier == "thorough" else SH):
        for c in ("plain", "nan", "nanedge", "offset"):
            for w in (None, "ramp", "hole"):
                for b in ("wrap", "fill"):
                    for nt in ("fill", "interpolate"):
                        for pn in (False, True):
                            for ratio in ((1.5, 2.2) if tier == "quick" else (1.2, 1.5, 2.2, 3.)):
                                yield {"shape": list(sh), "content": c, "weights": w, "boundary": b, "nan": nt,
                                       "preserve": pn, "ratio": ratio}


def lagset(shape):
    m = min(shape)
    return np.array([1.0, 1.7, 2.0, 2.5, 3.0, m / 2. - 0.3, m / 2.])


def run_dv(ctx, shape, content, weights, boundary, nan, preserve, ratio):
    from turbustat.statistics import DeltaVariance
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    w = weight(shape, weights, d)
    lags = lagset(shape)
    o = DeltaVariance(d.copy(), header=fx.hdr2(shape), weights=None if w is None else w.copy(), diam_ratio=ratio, lags=lags * u.pix)
    for frac in (0.01, 0.4):
        o.compute_deltavar(boundary=boundary, nan_treatment=nan, preserve_nan=preserve, min_weight_frac=frac,
                           show_progress=False, keep_convolve_arrays=True)
        ctx.step()
        dv, er, judged = [], [], []
        for i, lag in enumerate(lags):
            arr, wt, val, err = refs.delvar(d, w, lag, ratio, boundary, nan, frac, preserve)
            sc = np.nanmax(np.abs(np.where(np.isfinite(d), d, 0)))
            # weights within rounding of the cut-off may fall on either side
            if np.isfinite(arr).any():
                ctx.close(o.convolve_arrays[i], arr, "conv", rtol=1e-8, scale=sc, msg="lag %g" % lag)
                ctx.close(o.convolve_weights[i], wt, "convw", rtol=1e-8, msg="lag %g" % lag)
            # with a handful of pixels left the error is the square root of a rounding difference
            judged.append(np.isfinite(arr).sum() > 5)
            ok = val > 0 and err > 0 and np.isfinite(val) and not np.isnan(err)
            dv.append(val if ok else np.nan)
            er.append(err if ok else np.nan)
        j = np.array(judged)
        ctx.check(o.delta_var.shape == lags.shape, "shape", o.delta_var.shape)
        ctx.close(o.delta_var[j], np.array(dv)[j], "delta_var", rtol=1e-7)
        ctx.close(o.delta_var_error[j], np.array(er)[j], "delta_var_error", rtol=1e-6)
        ctx.state(o.delta_var)


# --- all impulses -------------------------------------------------------------------------
def gen_imp(tier):
    for sh in ([(5, 6), (6, 7), (7, 5)] if tier == "quick" else [(5, 6), (6, 7), (7, 5), (8, 9), (10, 8)]):
        for b in ("wrap", "fill"):
            for i in range(sh[0]):
                yield {"shape": list(sh), "boundary": b, "row": i}


def run_imp(ctx, shape, boundary, row):
    from turbustat.statistics import DeltaVariance, Wavelet
    shape = tuple(shape)
    lags = np.array([1.3, 2.0, min(shape) / 2.])
    for j in range(shape[1]):
        d = np.zeros(shape)
        d[row, j] = 1.
        o = DeltaVariance(d, header=fx.hdr2(shape), lags=lags * u.pix)
        o.compute_deltavar(boundary=boundary, show_progress=False, keep_convolve_arrays=True)
        ctx.step()
        for i, lag in enumerate(lags):
            arr = refs.delvar(d, None, lag, boundary=boundary)[0]
            ctx.close(o.convolve_arrays[i], arr, "impulse", atol=1e-10, msg="impulse at %d,%d lag %g" % (row, j, lag))
        if boundary == "fill":
            wv = Wavelet(d, header=fx.hdr2(shape), scales=lags * u.pix)
            wv.compute_transform(show_progress=False, keep_convolved_arrays=True)
            ctx.step()
            for i, a in enumerate(lags):
                ctx.close(wv.Wf[i], refs.convolve(d, refs.ricker_kernel(a), False) * a ** 2, "wimpulse", atol=1e-10,
                          msg="impulse at %d,%d scale %g" % (row, j, a))
        ctx.state(shape, boundary, row, j)


# --- wavelets -------------------------------------------------------------------------------
def gen_wv(tier):
    for sh in (SHT if tier == "thorough" else SH):
        for c in ("plain", "nan", "nanedge", "offset"):
            for norm in (True, False):
                for wrap in (False, True):
                    yield {"shape": list(sh), "content": c, "norm": norm, "wrap": wrap}


def run_wv(ctx, shape, content, norm, wrap):
    from turbustat.statistics import Wavelet
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    sc = np.array([1.0, 1.667, 2.2, 3.0, min(shape) / 2.])
    o = Wavelet(d.copy(), header=fx.hdr2(shape), scales=sc * u.pix)
    o.compute_transform(show_progress=False, keep_convolved_arrays=True, scale_normalization=norm,
                        convolve_kwargs={"boundary": "wrap"} if wrap else {})
    ctx.step()
    z = np.where(np.isnan(d), 0., d)
    vals, errs = [], []
    for i, a in enumerate(sc):
        w = refs.convolve(z, refs.ricker_kernel(a), wrap) * a ** (2 if norm else 4)
        ctx.close(o.Wf[i], w, "Wf", rtol=1e-8, atol=1e-8 * np.abs(z).max(), msg="scale %g" % a)
        p = w[w > 0]
        vals.append(p.mean())
        area = int(np.ceil(0.5 * np.pi * np.log(2) * a ** 2))
        errs.append(p.std() / np.sqrt(w.size // area))
    ctx.close(o.values, vals, "values", rtol=1e-7)
    ctx.close(o.stddev, errs, "stddev", rtol=1e-6)
    ctx.state(o.values)


# --- default lags and scales ------------------------------------------------------------------
def gen_def(tier):
    for sh in [(12, 12), (12, 17), (17, 12), (13, 13), (15, 40)]:
        for n in (2, 3, 7, 25):
            yield {"shape": list(sh), "n": n}


def run_def(ctx, shape, n):
    from turbustat.statistics import DeltaVariance, Wavelet
    shape = tuple(shape)
    d = fx.img(shape)
    o = DeltaVariance(d, header=fx.hdr2(shape), nlags=n)
    w = Wavelet(d, header=fx.hdr2(shape), num=n)
    ctx.step(2)
    for x, lo, name in ((o.lags, 3., "lags"), (w.scales, 1.667, "scales")):
        ctx.check(x.unit == u.pix, name + "-unit", x.unit)
        hi = min(shape) / 2.
        ctx.close(x.value, lo * (hi / lo) ** (np.arange(n) / (n - 1.)), "default-" + name, rtol=1e-9)
    # lags out of range are refused, at construction and later
    for cls, attr in ((DeltaVariance, "lags"), (Wavelet, "scales")):
        for bad in ([0.5, 2], [2, min(shape) / 2. + 1.2]):
            for how in ("ctor", "setter"):
                try:
                    if how == "ctor":
                        cls(d, header=fx.hdr2(shape), **{attr: np.array(bad) * u.pix})
                    else:
                        setattr(o if cls is DeltaVariance else w, attr, np.array(bad) * u.pix)
                    ok = False
                except ValueError:
                    ok = True
                ctx.step()
                ctx.check(ok, "accepts-bad-" + attr, "%s %s" % (bad, how))
        for bad in (np.array([3., 4.]), np.array([3., 4.]) * u.K, np.array([3., 4.]) * u.pc):
            try:
                got = getattr(cls(d, header=fx.hdr2(shape), **{attr: bad}), attr)
                ok = not hasattr(bad, "unit") and np.allclose(got.to(u.pix).value, bad)     # bare numbers are pixels
            except Exception:
                ok = True
            ctx.check(ok, "accepts-unit-" + attr, "%s" % bad)
    ctx.state(shape, n)


FAMILIES = {
    "delvar": Family(gen_dv, run_dv, "shapes x contents x weights x boundary x nan handling x ratio, 7 lags, 2 weight cut-offs"),
    "impulse": Family(gen_imp, run_imp, "every unit impulse of each shape x boundary x 3 lags"),
    "wavelet": Family(gen_wv, run_wv, "shapes x contents x normalization x boundary, 5 scales"),
    "defaults": Family(gen_def, run_def, "default lags/scales and rejected ones"),
}
