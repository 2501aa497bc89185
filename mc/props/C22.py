"""Tsallis increments, distributions and fits follow their definitions for every lag, boundary and mask."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

ASSUMPTIONS = ["fits are judged by the sum of squared residuals they reach on the documented points, not by the path to it"]


def increments(d, lag, periodic):
    ny, nx = d.shape
    out = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            s = 0.
            for a, b in ((lag, 0), (-lag, 0), (0, lag), (0, -lag)):
                y, x = i + a, j + b
                if periodic:
                    s += d[y % ny, x % nx]
                elif 0 <= y < ny and 0 <= x < nx:
                    s += d[y, x]
            out[i, j] = s / 4. - d[i, j]
    ok = np.isfinite(out)
    return (out - out[ok].mean()) / out[ok].std()


def content(shape, kind, k=0):
    a = fx.img(shape, k)
    if kind == "nan":
        a[3, 2] = np.nan
    elif kind == "nanblock":
        a[:2, :3] = np.nan
        a[-1, -1] = np.nan
    elif kind == "offset":
        a = a * 1e3 + 1e4
    return a


def judge(ctx, o, d, pix, periodic, nb):
    if not ctx.check(o.lag_arrays.shape == (len(pix),) + d.shape and o.lag_distribs.shape == (len(pix), 2, nb), "shape",
                     (o.lag_arrays.shape, o.lag_distribs.shape)):
        return
    for i, lag in enumerate(pix):
        ref = increments(d, lag, periodic)
        ctx.close(o.lag_arrays[i], ref, "increments", rtol=1e-8, atol=1e-8, msg="lag %d" % lag)
        v = np.asarray(o.lag_arrays[i])
        v = v[np.isfinite(v)]
        edges = np.linspace(v.min(), v.max(), nb + 1)
        ctx.close(o.lag_distribs[i, 0], (edges[1:] + edges[:-1]) / 2, "bins", rtol=1e-9)
        cnt = 10 ** o.lag_distribs[i, 1] * v.size
        cum = np.cumsum(cnt)
        tol = 1e-9 * (1 + np.abs(edges).max())
        for b in range(nb):
            lo, hi = (v < edges[b + 1] - tol).sum(), (v <= edges[b + 1] + tol).sum()
            if b == nb - 1:
                lo = hi = v.size
            ctx.check(lo - 1e-6 <= cum[b] <= hi + 1e-6, "distrib", "lag %d bin %d: %g not in [%d,%d]" % (lag, b, cum[b], lo, hi))


def gen_d(tier):
    for sh in [(8, 8), (9, 12), (13, 10)] + ([(16, 15), (20, 11)] if tier == "thorough" else []):
        for c in ("gen", "nan", "nanblock", "offset"):
            for per in (True, False):
                for nb in (None, 4, 11):
                    for lags in ("default", "odd", "frac", "deg", "pc", "one"):
                        yield {"shape": list(sh), "content": c, "periodic": per, "bins": nb, "lags": lags}


def run_d(ctx, shape, content, periodic, bins, lags):
    from turbustat.statistics import Tsallis
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    D = 300 * u.pc
    m = min(shape)
    p = {"default": [2 ** k for k in range(int(np.floor(np.log2(m / 2.))) + 1)], "odd": [1, 3], "frac": [1.2, 2.9, m / 2. - .3],
         "deg": [1.4, 2.5], "pc": [1.4, 3.5], "one": [2]}[lags]
    p = np.array(p, float)
    giv = {"default": None, "deg": p * 0.01 * u.deg, "pc": p * np.radians(0.01) * D}.get(lags, p * u.pix)
    o = Tsallis(d.copy(), header=fx.hdr2(shape), lags=giv, distance=D)
    o.make_tsallis(periodic=periodic, num_bins=bins)
    ctx.step()
    if lags == "default":
        ctx.close(o.lags.to(u.pix), p, "default-lags", rtol=1e-12)
    nb = bins or int(np.ceil(np.sqrt(np.isfinite(d).sum())))
    judge(ctx, o, d, np.floor(p + 1e-9).astype(int), periodic, nb)
    ctx.state(o.lag_distribs)


# --- all impulses: the increments are linear ---------------------------------------------------------
def gen_i(tier):
    for sh in ((5, 6), (6, 4)) + (((8, 7), (9, 9)) if tier == "thorough" else ()):
        for i in range(sh[0]):
            yield {"shape": list(sh), "row": i}


def run_i(ctx, shape, row):
    from turbustat.statistics import Tsallis
    shape = tuple(shape)
    for j in range(shape[1]):
        d = np.zeros(shape)
        d[row, j] = 1.
        for per in (True, False):
            o = Tsallis(d, header=fx.hdr2(shape), lags=[1, 2] * u.pix)
            o.make_tsallis(periodic=per, num_bins=3)
            ctx.step()
            for k, lag in enumerate((1, 2)):
                ctx.close(o.lag_arrays[k], increments(d, lag, per), "impulse", atol=1e-9, msg="%d,%d lag %d" % (row, j, lag))
        ctx.state(shape, row, j)


# --- fits ---------------------------------------------------------------------------------------------
def model(x, la, w2, q):
    return (-1 / (q - 1)) * (np.log10(1 + (q - 1) * (x ** 2 / w2)) + la)


def gen_f(tier):
    for k in range(6 if tier == "quick" else 20):
        for per in (True, False):
            for clip in (None, 5, 3, 2, 1.5):
                for nb in (None, 15):
                    yield {"k": k, "periodic": per, "clip": clip, "bins": nb}


def run_f(ctx, k, periodic, clip, bins):
    from scipy.optimize import curve_fit
    from turbustat.statistics import Tsallis
    shape = (20, 24)
    d = fx.img(shape, k)
    o = Tsallis(d, header=fx.hdr2(shape), lags=[1, 2, 4] * u.pix)
    try:
        o.run(periodic=periodic, sigma_clip=clip, num_bins=bins)
    except RuntimeError:
        ctx.check(True, "")      # the optimizer reports that it did not converge
        return
    ctx.step()
    ctx.check(o.tsallis_params.shape == (3, 3) and o.tsallis_stderrs.shape == (3, 3) and o.tsallis_chisq.shape[0] == 3, "shape", "")
    for i in range(3):
        x, y = o.lag_distribs[i]
        fin = np.isfinite(x) & np.isfinite(y)
        good = fin if clip is None else fin & (np.abs(x) < clip)
        wrong = fin if clip is None else fin & (np.abs(y) < clip)

        def matches(sel):
            X, Y = x[sel], y[sel]
            if X.size < 4:
                return False
            p = o.tsallis_params[i]
            sse = ((model(X, *p) - Y) ** 2).sum()
            try:
                r, cov = curve_fit(model, X, Y, p0=(-Y.max(), 1., 2.), maxfev=100 * len(x))
            except RuntimeError:
                return True
            sser = ((model(X, *r) - Y) ** 2).sum()
            # an optimum reached from the documented start
            if not sse <= sser * (1 + 1e-4) + 1e-12:
                return False
            chi = np.sum((np.exp(model(X, *p)) - np.exp(Y)) ** 2 / np.exp(Y))
            if not abs(chi - np.ravel(o.tsallis_chisq)[i]) <= 1e-6 * (1 + abs(chi)):
                return False
            e = np.sqrt(np.diag(cov))
            s = o.tsallis_stderrs[i]
            return bool(np.all((np.abs(s - e) <= 0.02 * np.abs(e)) | ~np.isfinite(e)))
        ok = matches(good)
        ctx.validated += 1
        if not ok:
            if clip is not None and (good != wrong).any() and matches(wrong):
                ctx.fail("clip-on-log-probability", "lag %d: fitted points are cut at |log10 P| < %s instead of |x| < %s" % (i, clip, clip))
            else:
                ctx.fail("fit", "lag %d: parameters %s are not the fit to the points within %s sigma" % (i, o.tsallis_params[i], clip))
    t = o.tsallis_table
    for n, col in (("logA", 0), ("w2", 1), ("q", 2)):
        ctx.close(t[n], o.tsallis_params[:, col], "table", rtol=1e-12)
        ctx.close(t[n + "_stderr"], o.tsallis_stderrs[:, col], "table", rtol=1e-12)
    ctx.close(np.ravel(t["redchisq"]), np.ravel(o.tsallis_chisq), "table", rtol=1e-12)
    ctx.close(u.Quantity(t["lags"]).value, [1, 2, 4], "table", rtol=1e-12)
    ctx.state(o.tsallis_params)


FAMILIES = {
    "distrib": Family(gen_d, run_d, "shapes x contents x boundary x bins x lag sets in pixels, degrees and parsecs"),
    "impulse": Family(gen_i, run_i, "every unit impulse of each shape x boundary x 2 lags"),
    "fit": Family(gen_f, run_f, "images x boundary x clip x bins, 3 lags each"),
}
