"""Shared building blocks: shifts, paddings, divergences, common bins and scales, ellipses."""
import itertools
import warnings
import numpy as np
from ..core import Family
from .. import fx

ASSUMPTIONS = ["bins in which either distribution is missing (NaN or infinite) do not count for a divergence",
               "ellipse angles are compared modulo 180 degrees and with the axes exchanged at 90 degrees"]


def su():
    import turbustat.statistics.stats_utils as m
    return m


# --- shifts -------------------------------------------------------------------------------
def gen_shift(tier):
    ns = range(2, 10) if tier == "quick" else range(2, 18)
    for n in ns:
        yield {"n": n, "ndim": 1}
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        for nd in (2, 3):
            yield {"n": n, "ndim": nd}


def run_shift(ctx, n, ndim):
    m = su()
    shape = ((n,), (n, n + 1), (n, n + 2, 4))[ndim - 1]
    x0 = np.cos(np.arange(np.prod(shape)) * 1.7).reshape(shape) + np.arange(np.prod(shape)).reshape(shape) * .1
    for ax in range(ndim):
        for s in range(-shape[ax] - 1, shape[ax] + 2):
            for form in (int(s), float(s), np.int64(s), np.float64(s)):
                x = x0.copy()
                ctx.step()
                ctx.close(m.pixel_shift(x, form, axis=ax), np.roll(x0, s, axis=ax), "pixel-shift", 1e-12)
                ctx.close(m.fourier_shift(x, form, axis=ax), np.roll(x0, s, axis=ax), "fourier-shift-integer", 1e-9)
                ctx.check((x == x0).all(), "shift-in-place", "input changed")
    # every pattern of missing values along the shifted axis
    if ndim == 1 and n <= 6:
        for pat in itertools.product((0, 1), repeat=n):
            if all(pat):
                continue
            x = np.where(np.array(pat, bool), np.nan, x0)
            for s in range(-n, n + 1):
                w = np.roll(x, s)
                g = m.fourier_shift(x, s)
                ctx.step()
                ctx.check((np.isnan(g) == np.isnan(w)).all(), "shift-missing", "n=%d pat=%s shift=%d: %s" % (n, pat, s, g))
                z = np.roll(np.where(np.array(pat, bool), 0., x0), s)
                ctx.close(np.where(np.isnan(g), 0, g), np.where(np.isnan(g), 0, z), "shift-missing-values", 1e-9)
    # fractions: band-limited signals move as a whole
    for ax in range(ndim):
        N = shape[ax]
        for k in range((N + 1) // 2):
            for ph in (0., .6):
                for s in (.25, -.5, 1.75, -2.3):
                    i = np.arange(N)
                    lay = [1] * ndim
                    lay[ax] = N
                    x = np.ones(shape) * np.cos(2 * np.pi * k * i / N + ph).reshape(lay)
                    w = np.ones(shape) * np.cos(2 * np.pi * k * (i - s) / N + ph).reshape(lay)
                    ctx.step()
                    ctx.close(m.fourier_shift(x, s, axis=ax), w, "fourier-shift-fraction", 1e-9, scale=1.)
    ctx.state("shift", n, ndim)
    ctx.validated += 1


# --- padding ------------------------------------------------------------------------------
def gen_pad(tier):
    k = 3 if tier == "quick" else 5
    for w in itertools.product(range(k), repeat=2):
        yield {"first": list(w), "max": k}


def run_pad(ctx, first, max):
    m = su()
    for shape in ((3,), (2, 3), (1, 2)):
        x0 = 1. + np.arange(np.prod(shape)).reshape(shape)
        rest = [[tuple(first)]] + [[tuple(w) for w in itertools.product(range(max), repeat=2)]] * (len(shape) - 1)
        for width in itertools.product(*rest):
            for fn, v in ((m.padwithzeros, 0.), (m.padwithnans, np.nan)):
                x = x0.copy()
                g = np.pad(x, width, fn)
                w = np.full([s + a + b for s, (a, b) in zip(shape, width)], v)
                w[tuple(slice(a, a + s) for s, (a, b) in zip(shape, width))] = x0
                ctx.step()
                ctx.close(g, w, "padding", 1e-12, msg="%s widths %s" % (fn.__name__, width))
                ctx.check((x == x0).all(), "pad-in-place", "input changed")
    ctx.state("pad", first)
    ctx.validated += 1


# --- divergences --------------------------------------------------------------------------
def simplex(n, tot):
    for c in itertools.combinations(range(tot + n - 1), n - 1):
        c = (-1,) + c + (tot + n - 1,)
        yield np.array([c[i + 1] - c[i] - 1 for i in range(n)], float) / tot


def gen_div(tier):
    for n, tot in ((1, 3), (2, 4), (3, 4)) if tier == "quick" else ((1, 3), (2, 6), (3, 6), (4, 4)):
        for i in range(len(list(simplex(n, tot)))):
            yield {"n": n, "tot": tot, "i": i}


def run_div(ctx, n, tot, i):
    m = su()
    pts = list(simplex(n, tot))
    P = pts[i]
    H = {}
    for j, Q in enumerate(pts):
        ctx.step()
        h = m.hellinger(P.copy(), Q.copy())
        H[j] = h
        ctx.close(h, np.sqrt(sum((np.sqrt(a) - np.sqrt(b)) ** 2 for a, b in zip(P, Q)) / 2.), "hellinger", 1e-9, scale=1.)
        ctx.check(-1e-12 <= h <= 1 + 1e-9 and (h < 1e-9) == (i == j), "hellinger-range", "%s %s: %g" % (P, Q, h))
        ctx.close(m.hellinger(Q, P), h, "hellinger-symmetric", 1e-12, scale=1.)
        for k in range(n + 1):         # the same bins with k missing ones inserted at every place
            pass
        kl = m.kl_divergence(P.copy(), Q.copy())
        w = sum(a * np.log(a / b) for a, b in zip(P, Q) if a > 0 and b > 0)
        ctx.close(kl, w, "kl", 1e-9, scale=1.)
        # missing bins anywhere in either distribution
        for bad in (np.nan, np.inf):
            for pp in itertools.product((0, 1), repeat=n):
                for qq in itertools.product((0, 1), repeat=n):
                    if not any(pp) and not any(qq):
                        continue
                    p = np.where(np.array(pp, bool), bad, P)
                    q = np.where(np.array(qq, bool), bad, Q)
                    ok = [a > 0 and b > 0 and not x and not y for a, b, x, y in zip(P, Q, pp, qq)]
                    w = sum(a * np.log(a / b) for a, b, o in zip(P, Q, ok) if o)
                    ctx.step()
                    ctx.close(m.kl_divergence(p, q), w, "kl-missing", 1e-9, scale=1., msg="P=%s Q=%s" % (p, q))
                    if bad is np.nan:
                        wh = np.sqrt(sum((np.sqrt(a) - np.sqrt(b)) ** 2 for a, b, x, y in zip(P, Q, pp, qq) if not x and not y) / 2.)
                        ctx.close(m.hellinger(p, q), wh, "hellinger-missing", 1e-9, scale=1.)
    for j, k in itertools.product(range(len(pts)), repeat=2):
        ctx.check(H[k] <= H[j] + m.hellinger(pts[j], pts[k]) + 1e-9, "hellinger-triangle", "%s %s %s" % (P, pts[j], pts[k]))
    ctx.state("div", n, tot, i)
    ctx.validated += 1


# --- common bins --------------------------------------------------------------------------
BV = (np.nan, .5, 1., 3., 7.)


def gen_bins(tier):
    for s1 in (1, 3, 8):
        for s2 in (2, 5, 40):
            for log in (False, True):
                yield {"s1": s1, "s2": s2, "log": log}


def run_bins(ctx, s1, s2, log):
    m = su()
    for t in range(6):
        a = np.array([BV[(i * 2 + t) % 5] for i in range(s1)])
        b = np.array([BV[(i * 3 + 2 * t + 1) % 5] * 1.3 for i in range(s2)])
        if not np.isfinite(a).any() or not np.isfinite(b).any():
            continue
        fin = np.concatenate([a[np.isfinite(a)], b[np.isfinite(b)]])
        for n in (None, 2, 5, 11):
            for lo in (None, .1, .8, 2.):
                for hi in (None, 100., 6.):
                    ctx.step()
                    A, B = a.copy(), b.copy()
                    kw = {} if n is None else dict(nbins=n)
                    if lo is not None:
                        kw["min_val"] = lo
                    if hi is not None:
                        kw["max_val"] = hi
                    g = m.common_histogram_bins(A, B, logscale=log, **kw)
                    g2, c = m.common_histogram_bins(A, B, logscale=log, return_centered=True, **kw)
                    gs = m.common_histogram_bins(B, A, logscale=log, **kw)
                    L = fin.min() if lo is None else max(fin.min(), lo)
                    U = fin.max() if hi is None else min(fin.max(), hi)
                    N = n if n is not None else int(np.sqrt((s1 + s2) / 2.))
                    w = [L + (U - L) * i / (N - 1.) for i in range(N)] if N > 1 else [L] * N
                    if log:
                        w = [L * (U / L) ** (i / (N - 1.)) for i in range(N)] if N > 1 else [L] * N
                    ctx.close(g, w, "bins", 1e-9, msg="%s" % kw)
                    ctx.close(g2, w, "bins", 1e-9)
                    ctx.close(gs, w, "bins-order", 1e-9)
                    ctx.close(c, [(w[i] + w[i + 1]) / 2 for i in range(N - 1)], "bins-centres", 1e-9)
                    ctx.check(np.array_equal(A, a, equal_nan=True) and np.array_equal(B, b, equal_nan=True), "bins-in-place", "changed")
    for bad in ((np.ones((2, 2)), np.ones(3)), (np.ones(3), np.ones((2, 2)))):
        try:
            m.common_histogram_bins(*bad)
            ctx.fail("bins-2d", "a two-dimensional data set is accepted")
        except ValueError:
            pass
    ctx.state("bins", s1, s2, log)
    ctx.validated += 1


# --- common scale -------------------------------------------------------------------------
def gen_scale(tier):
    sc = (1e-4, 1. / 3600, 1e-2, .5) if tier == "quick" else (1e-5, 1e-4, 1. / 3600, 1. / 7200, 1e-2, .1, .5, 2.)
    for a, b in itertools.product(sc, repeat=2):
        yield {"a": a, "b": b}


def run_scale(ctx, a, b):
    from astropy.wcs import WCS
    m = su()

    def mk(sx, sy, cube=False):
        h = fx.hdr3((3, 8, 8)) if cube else fx.hdr2((8, 8))
        h["CDELT1"], h["CDELT2"] = sx, sy
        return WCS(h)
    for (xa, ya), (xb, yb) in itertools.product(((-1, 1), (1, 1), (1, -1), (-1, -1)), repeat=2):
        for ca in (False, True):
            ctx.step()
            w1, w2 = mk(xa * a, ya * a, ca), mk(xb * b, yb * b)
            ctx.close(m.common_scale(w1, w2), b / a, "scale", 1e-9)
            ctx.close(m.common_scale(w2, w1), a / b, "scale", 1e-9)
    for f in (1.5, .5):
        for first in (True, False):
            sq, ob = mk(-a, a), mk(-b, f * b)
            if abs(b - f * b) < 2e-5:
                continue
            try:
                m.common_scale(*((ob, sq) if first else (sq, ob)))
                ctx.fail("scale-oblong", "pixels of %g x %g are accepted" % (b, f * b))
            except ValueError:
                pass
    ctx.state("scale", a, b)
    ctx.validated += 1


# --- ellipses -----------------------------------------------------------------------------
def gen_ell(tier):
    for ab in ((1., 1.), (2., 1.), (1., 2.), (3., .7), (.4, 5.)) + (() if tier == "quick" else ((10., 9.), (30., 4.), (1., 1.2))):
        for th in range(0, 180, 15 if tier == "quick" else 5):
            yield {"a": ab[0], "b": ab[1], "theta": th}


def run_ell(ctx, a, b, theta):
    m = su()
    th = np.radians(theta)
    for xc, yc in ((0., 0.), (.3, -2.), (-7., 5.)):
        for n in (5, 6, 9, 24):
            t = 2 * np.pi * np.arange(n) / n + .13
            x = xc + a * np.cos(th) * np.cos(t) - b * np.sin(th) * np.sin(t)
            y = yc + a * np.sin(th) * np.cos(t) + b * np.cos(th) * np.sin(t)
            d = np.array([x, y]).T
            e = m.EllipseModel()
            ctx.step()
            ctx.close(e.predict_xy(t, (xc, yc, a, b, th)), d, "ellipse-points", 1e-9)
            ok = e.estimate(d.copy())
            if not ctx.check(ok, "ellipse-found", "no ellipse through %d points of %s" % (n, (a, b, theta))):
                continue
            X, Y, A, B, T = e.params
            tol = 1e-5
            ctx.close([X, Y], [xc, yc], "ellipse-centre", tol, scale=max(a, b) + abs(xc) + abs(yc))
            ctx.close(sorted([A, B]), sorted([a, b]), "ellipse-axes", tol, scale=max(a, b) + abs(xc) + abs(yc))
            # the same shape: every fitted point solves the equation of the given ellipse
            p = e.predict_xy(np.linspace(0, 6, 13))
            u_, v_ = p[:, 0] - xc, p[:, 1] - yc
            q = ((u_ * np.cos(th) + v_ * np.sin(th)) / a) ** 2 + ((-u_ * np.sin(th) + v_ * np.cos(th)) / b) ** 2
            ctx.close(q, np.ones(13), "ellipse-angle", 1e-3, scale=1., msg="a=%g b=%g theta=%g got %s" % (a, b, theta, e.params))
            r = e.residuals(d)
            ctx.check(r.shape == (n,) and np.abs(r).max() < 1e-3 * max(a, b), "ellipse-residuals", str(r))
            # points moved off along the major/minor axis by a known amount
            far = np.array([[xc + (a + 1.) * np.cos(th), yc + (a + 1.) * np.sin(th)], [xc - (b + 2.) * np.sin(th), yc + (b + 2.) * np.cos(th)]])
            ctx.close(e.residuals(far), [1., 2.], "ellipse-residuals", 2e-3, scale=1.)
    ctx.state("ellipse", a, b, theta)
    ctx.validated += 1


def gen_elerr(tier):
    for alpha in (0., .3, .6827, .95):
        for k in (0., .02, .1):
            yield {"alpha": alpha, "k": k}


def run_elerr(ctx, alpha, k):
    m = su()
    t = np.linspace(0, 2 * np.pi, 17)[:-1]
    d = m.EllipseModel().predict_xy(t, (1., 2., 3., 1.5, .4))
    d = d + k * np.array([np.cos(7 * t), np.sin(5 * t + 1)]).T
    e = m.EllipseModel()
    try:
        e.estimate_stderrs(d)
        ctx.fail("ellipse-errors-before-fit", "errors without a fit")
    except (ValueError, AttributeError):
        pass
    e.estimate(d)
    for bad in (-.1, 1., 1.5):
        try:
            e.estimate_stderrs(d, alpha=bad)
            ctx.fail("ellipse-errors-alpha", "alpha=%g accepted" % bad)
        except ValueError:
            pass
    p0 = np.array(e.params)
    np.random.seed(3)
    e.estimate_stderrs(d.copy(), niters=60, alpha=alpha)
    lo, hi = e.percentiles
    ctx.step()
    ctx.close(e.params, p0, "ellipse-params-kept", 1e-12)
    ctx.close(e.param_errs, (hi - lo) / 2, "ellipse-errors", 1e-12)
    ctx.check((hi >= lo).all() and len(hi) == 5, "ellipse-percentiles", "%s %s" % (lo, hi))
    np.random.seed(3)
    f = m.EllipseModel()
    f.estimate(d)
    f.estimate_stderrs(d.copy(), niters=60, alpha=.97)
    ctx.check((f.param_errs >= e.param_errs - 1e-12).all(), "ellipse-errors-level", "wider level, smaller errors")
    if k == 0:
        ctx.check(np.abs(e.param_errs[:4]).max() < 1e-2, "ellipse-errors-exact", str(e.param_errs))
    elif alpha:
        ctx.check((e.param_errs[:4] > 1e-6).all() and (e.param_errs[:4] < 20 * k).all(), "ellipse-errors-size", "%g: %s" % (k, e.param_errs))
    # not an ellipse
    for bad in (np.array([[i, 2. * i] for i in range(6)]), np.ones((7, 2))):
        g = m.EllipseModel()
        ctx.check(not g.estimate(bad), "ellipse-degenerate", "points on a line give %s" % (g.params,))
    ctx.state("elerr", alpha, k)
    ctx.validated += 1


FAMILIES = {
    "shift": Family(gen_shift, run_shift, "lengths 2..9 (thorough 17) in 1-3 dimensions x every axis x every whole shift x 4 number types x every missing pattern up to 6; every resolvable wave x 4 fractions"),
    "padding": Family(gen_pad, run_pad, "every padding width 0..2 (thorough 0..4) at each end of each axis x 3 shapes x zeros, NaN"),
    "divergence": Family(gen_div, run_div, "every pair (and triple) of distributions on the grid of 1-3 bins in quarters (thorough up to 4 bins, sixths) x every missing pattern"),
    "bins": Family(gen_bins, run_bins, "9 size pairs x 6 contents x 4 counts x 4 minima x 3 maxima x log or linear"),
    "scale": Family(gen_scale, run_scale, "every pair of 4 (thorough 8) pixel scales x every axis direction x map or cube, oblong pixels refused"),
    "ellipse": Family(gen_ell, run_ell, "5 (thorough 8) axis pairs x angles every 15 (5) degrees x 3 centres x 4 point counts"),
    "ellipse-errors": Family(gen_elerr, run_elerr, "4 levels x 3 noise amplitudes"),
}
