"""Global and local statistical moments follow their weighted definitions for every window, boundary and mask."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

ASSUMPTIONS = ["skewness and kurtosis of windows without variance are not judged",
               "whether min_frac counts the square window or the disc inside it is not judged where the two differ"]


def wmom(v, w):
    v, w = np.ravel(v).astype(float), np.ravel(w).astype(float)
    ok = np.isfinite(v) & np.isfinite(w)
    v, w = v[ok], w[ok]
    if w.sum() == 0:
        return np.nan, np.nan, np.nan, np.nan
    m = (v * w).sum() / w.sum()
    var = (w * (v - m) ** 2).sum() / w.sum()
    if var <= 1e-14 * (1 + m * m):
        return m, var, None, None
    s = np.sqrt(var)
    return m, var, (w * (v - m) ** 3).sum() / w.sum() / s ** 3, (w * (v - m) ** 4).sum() / w.sum() / var ** 2 - 3


NAMES = ("mean", "variance", "skewness", "kurtosis")


def local(data, weights, r, periodic, min_frac):
    ny, nx = data.shape
    out = np.full((4, ny, nx), np.nan)
    judge = np.ones((4, ny, nx), bool)
    offs = [(a, b) for a in range(-r, r + 1) for b in range(-r, r + 1)]
    for i in range(ny):
        for j in range(nx):
            v, w, inside = [], [], []
            for a, b in offs:
                y, x = i + a, j + b
                if periodic:
                    y, x = y % ny, x % nx
                ok = 0 <= y < ny and 0 <= x < nx
                v.append(data[y, x] if ok else np.nan)
                w.append(weights[y, x] if ok else np.nan)
                inside.append(a * a + b * b < r * r)
            v, w, inside = np.array(v), np.array(w), np.array(inside)
            fr = [min(np.isfinite(v[m]).mean(), np.isfinite(w[m]).mean()) >= min_frac - 1e-12
                  for m in (np.ones(v.size, bool), inside)]
            edge = [abs(min(np.isfinite(v[m]).mean(), np.isfinite(w[m]).mean()) - min_frac) < 1e-9 for m in (np.ones(v.size, bool), inside)]
            if fr[0] != fr[1] or any(edge) and min_frac != 1.0:
                judge[:, i, j] = False
                continue
            if not fr[0]:
                continue
            mo = wmom(v[inside], w[inside])
            for k in range(4):
                if mo[k] is None:
                    judge[k, i, j] = False
                else:
                    out[k, i, j] = mo[k]
    return out, judge


def content(shape, kind):
    a = fx.img(shape, 4) + 3
    if kind == "nan1":
        a[2, 3] = np.nan
    elif kind == "nanblock":
        a[1:4, 0:3] = np.nan
    elif kind == "nanedge":
        a[-1] = np.nan
        a[:, 0] = np.nan
    elif kind == "flat":
        a[:, :4] = 2.
    return a


def weights(shape, kind):
    if kind is None:
        return None
    w = 0.1 + np.arange(np.prod(shape)).reshape(shape) % 5 / 3.
    if kind == "zero":
        w[2:4, 2:4] = 0
    elif kind == "nan":
        w[3, 3] = np.nan
    return w


def gen_l(tier):
    for sh in [(6, 7), (8, 6)] + ([(9, 9), (7, 12)] if tier == "thorough" else []):
        for c in ("gen", "nan1", "nanblock", "nanedge", "flat"):
            for w in (None, "ramp", "zero", "nan"):
                for per in (True, False):
                    for rad in (2., 2.4, 3.):
                        for how in ("ctor", "run", "step"):
                            yield {"shape": list(sh), "content": c, "weights": w, "periodic": per, "radius": rad, "how": how}


def run_l(ctx, shape, content, weights, periodic, radius, how):
    from turbustat.statistics import StatMoments
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    w = globals()["weights"](shape, weights)
    for frac in (0.5, 0.8, 1.0):
        kw = {} if how != "ctor" else {"radius": radius * u.pix}
        if how != "ctor":
            kw["radius"] = 2 * u.pix
        o = StatMoments(d.copy(), header=fx.hdr2(shape), weights=None if w is None else w.copy(), **kw)
        r = dict(radius=None if how == "ctor" else radius * u.pix, periodic=periodic, min_frac=frac, show_progress=False)
        if how == "run":
            o.run(**r)
        else:
            o.array_moments()
            o.compute_spatial_distrib(**r)
            o.make_spatial_histograms()
        ctx.step()
        ww = np.ones(shape) if w is None else w
        g = wmom(d, ww)
        for n, x in zip(NAMES, g):
            if x is not None:
                ctx.close(getattr(o, n), x, "global-" + n, rtol=1e-9, atol=1e-9)
        ref, judge = local(d, ww, int(np.ceil(radius)), periodic, frac)
        for k, n in enumerate(NAMES):
            got = np.asarray(getattr(o, n + "_array"))
            if not ctx.check(got.shape == shape, "shape", got.shape):
                continue
            ctx.close(np.where(judge[k], got, 0), np.where(judge[k], ref[k], 0), "local-" + n, rtol=1e-7, atol=1e-8,
                      msg="min_frac %g" % frac)
            fin = got[np.isfinite(got)]
            if fin.size:
                ctx.close(getattr(o, n + "_extrema"), (fin.min(), fin.max()), "extrema", rtol=1e-12)
                hist(ctx, getattr(o, n + "_hist"), fin, int(np.sqrt(d.size)), n)
        ctx.state(o.mean_array, frac)


def hist(ctx, got, vals, bins, name):
    """[centres, density] of vals."""
    lo, hi = vals.min(), vals.max()
    if np.ndim(bins) == 0:
        if hi - lo < 1e-9 * (1 + abs(hi)):
            return
        edges = np.linspace(lo, hi, bins + 1)
    else:
        edges = np.asarray(bins, float)
    ctx.close(got[0], (edges[1:] + edges[:-1]) / 2., "hist-centres-" + name, rtol=1e-9, atol=1e-12)
    # values within rounding of an edge may sit on either side: compare the cumulative count there with slack
    n = len(edges) - 1
    inr = vals[(vals >= edges[0] - 1e-12) & (vals <= edges[-1] + 1e-12)]
    dens = np.asarray(got[1], float)
    if not ctx.check(dens.shape == (n,), "hist-size-" + name, dens.shape):
        return
    cum = np.cumsum(dens * np.diff(edges)) * len(inr)
    for b in range(n):
        tol = 1e-9 * (1 + abs(edges[b + 1]))
        lo_n, hi_n = (inr < edges[b + 1] - tol).sum(), (inr <= edges[b + 1] + tol).sum()
        if b == n - 1:
            lo_n = hi_n = len(inr)
        ctx.check(lo_n - 1e-6 <= cum[b] <= hi_n + 1e-6, "hist-" + name, "bin %d: cumulative %g not in [%g, %g]" % (b, cum[b], lo_n, hi_n))


# --- histograms ----------------------------------------------------------------------------------
def gen_h(tier):
    for which in range(4):
        for bins in (3, 6, "edges"):
            for nb in (None, 5):
                for c in ("gen", "nanblock"):
                    yield {"which": which, "bins": bins, "nbins": nb, "content": c}


def run_h(ctx, which, bins, nbins, content):
    from turbustat.statistics import StatMoments
    shape = (10, 9)
    d = globals()["content"](shape, content)
    o = StatMoments(d, header=fx.hdr2(shape), radius=2 * u.pix, nbins=nbins)
    o.run(show_progress=False)
    arrs = [np.asarray(getattr(o, n + "_array")) for n in NAMES]
    b = bins
    if bins == "edges":
        a = arrs[which][np.isfinite(arrs[which])]
        b = np.array([a.min(), np.median(a), a.max() + 0.1])
    o.run(show_progress=False, **{NAMES[which] + "_bins": b})
    ctx.step(2)
    for k, n in enumerate(NAMES):
        v = arrs[k][np.isfinite(arrs[k])]
        hist(ctx, getattr(o, n + "_hist"), v, b if k == which else (nbins or int(np.sqrt(d.size))), n)
    ctx.state(which, str(bins), nbins, content)


# --- every small image ------------------------------------------------------------------------------
def gen_g(tier):
    n = 4
    for p in itertools.product(range(n), repeat=3):
        yield {"prefix": list(p), "n": 6 if tier == "quick" else 7}


def run_g(ctx, prefix, n):
    from turbustat.statistics import StatMoments
    vals = [0., 1., 4., np.nan]
    base = np.full(16, 2.)
    w = np.ones((4, 4))
    w[0, 0], w[1, 1] = 3., 0.
    h = fx.hdr2((4, 4))
    for rest in itertools.product(range(4), repeat=n - 3):
        d = base.copy()
        d[:n] = [vals[i] for i in list(prefix) + list(rest)]
        d = d.reshape(4, 4)
        for ww in (None, w):
            o = StatMoments(d, header=h, weights=ww, radius=2 * u.pix)
            o.array_moments()
            ctx.step()
            for nm, x in zip(NAMES, wmom(d, np.ones((4, 4)) if ww is None else ww)):
                if x is not None:
                    ctx.close(getattr(o, nm), x, "image-" + nm, rtol=1e-9, atol=1e-9, msg=str(d.ravel().tolist()))
            ctx.state(o.mean, o.variance)


# --- radius in any unit; refused radii ------------------------------------------------------------------
def gen_r(tier):
    for sh in ((9, 12), (12, 9), (8, 8)):
        for cd in (0.01, 0.5):
            yield {"shape": list(sh), "cdelt": cd}


def run_r(ctx, shape, cdelt):
    from turbustat.statistics import StatMoments
    shape = tuple(shape)
    d = globals()["content"](shape, "gen")
    h = fx.hdr2(shape, cdelt=cdelt)
    D = 250 * u.pc

    def arrays(rad, how):
        o = StatMoments(d, header=h, distance=D, radius=rad if how == "ctor" else 2 * u.pix)
        o.compute_spatial_distrib(show_progress=False, radius=None if how == "ctor" else rad)
        ctx.step()
        return [np.array(getattr(o, n + "_array")) for n in NAMES]
    for pix in (2.5, 3.3, 3.9):
        want = arrays(pix * u.pix, "ctor")
        for rad in (pix * cdelt * u.deg, pix * cdelt * 3600 * u.arcsec, pix * np.radians(cdelt) * D, (pix * np.radians(cdelt) * D).to(u.AU)):
            for how in ("ctor", "call"):
                for a, b in zip(arrays(rad, how), want):
                    ctx.close(a, b, "radius-unit", rtol=1e-12, msg="%s %s" % (rad, how))
    for bad in (1.9 * u.pix, (min(shape) / 2. + 0.1) * u.pix, 1.9 * cdelt * u.deg, 5 * u.K):
        for how in ("ctor", "call", "setter"):
            try:
                if how == "setter":
                    o = StatMoments(d, header=h, radius=2 * u.pix)
                    o.radius = bad
                else:
                    arrays(bad, how)
                ok = False
            except Exception:
                ok = True
            ctx.check(ok, "radius-accepted", "%s %s" % (bad, how))
    for bad in (0., -0.1, 1.01):
        try:
            StatMoments(d, header=h, radius=2 * u.pix).compute_spatial_distrib(min_frac=bad, show_progress=False)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "min_frac-accepted", bad)
    ctx.state(shape, cdelt)


FAMILIES = {
    "local": Family(gen_l, run_l, "shapes x contents x weights x boundary x radius x route x 3 min_frac, every pixel"),
    "hist": Family(gen_h, run_h, "each histogram x bin specification x default bins"),
    "images": Family(gen_g, run_g, "every assignment of {0,1,4,missing} to 6 (thorough 7) pixels of a 4x4 image, 2 weightings"),
    "radius": Family(gen_r, run_r, "radius in pixels, degrees, arcsec, pc, AU; refused radii and fractions"),
}
