"""The SCF surface and spectrum follow their definition for every cube, lag set and boundary."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["lag (0,0) of a cube without any usable spectrum is not judged"]


def shift1(x, s, axis):
    """Periodic shift by s pixels: exact for integers, band-limited otherwise."""
    n = x.shape[axis]
    if float(s).is_integer():
        return np.take(x, (np.arange(n) - int(s)) % n, axis=axis)
    bad = ~np.isfinite(x)
    k = np.arange(n)
    k = np.where(k < (n + 1) // 2, k, k - n) / float(n)
    p = np.arange(n)
    F = np.exp(-2j * np.pi * np.outer(k, p))
    M = (np.exp(2j * np.pi * np.outer(p, k)) * np.exp(-2j * np.pi * k * s)).dot(F).real / n
    mv = lambda a: np.moveaxis(np.tensordot(M, np.moveaxis(a, axis, 0), axes=(1, 0)), 0, axis)
    out = mv(np.where(bad, 0., x))
    m = mv(bad.astype(float))
    out[m > 0.5] = np.nan
    amb = np.abs(m - 0.5) < 1e-9
    return out, amb.any()


def moved(d, sy, sx):
    amb = False
    t = d
    for s, ax in ((sy, 1), (sx, 2)):
        if s != 0:
            t = shift1(t, s, ax)
            if isinstance(t, tuple):
                t, a = t
                amb |= a
    return t, amb


def compare(a, b):
    ok = np.isfinite(a) & np.isfinite(b)
    num = np.where(ok, (a - b) ** 2, 0).sum(0)
    den = np.where(ok, a ** 2, 0).sum(0) + np.where(ok, b ** 2, 0).sum(0)
    with np.errstate(all="ignore"):
        v = num / den
    v = v[np.isfinite(v)]
    return 1 - np.sqrt(v.mean()) if v.size else np.nan


def surface(d, lags, boundary):
    """-> (reference, value of the known wrong formula or None, ambiguous mask); [j, i]: i along rows (axis 1)."""
    n = len(lags)
    ref = np.zeros((n, n))
    wrong = np.full((n, n), np.nan)
    amb = np.zeros((n, n), bool)
    for i, j in itertools.product(range(n), repeat=2):
        sy, sx = lags[i], lags[j]
        t, amb[j, i] = moved(d, sy, sx)
        if boundary == "continuous":
            ref[j, i] = compare(d, t)
            continue
        # only pixels whose partner lies inside the map
        def inside(s, m):
            lo = max(0, int(np.ceil(s - 1e-12)))
            hi = min(m, m + int(np.floor(s + 1e-12)))
            return slice(lo, max(lo, hi))
        sl = (slice(None), inside(sy, d.shape[1]), inside(sx, d.shape[2]))
        ref[j, i] = compare(d[sl], t[sl])

        def doubled(s, m):
            s = int(np.ceil(s))
            return (slice(None, m + s), slice(-s, None)) if s < 0 else (slice(s, None), slice(None, m - s))
        (dy, ty), (dx, tx) = doubled(sy, d.shape[1]), doubled(sx, d.shape[2])
        A, B = d[:, dy, dx], t[:, ty, tx]
        wrong[j, i] = compare(A, B) if A.size else np.nan
    return ref, wrong, amb


def judge(ctx, got, d, lags, boundary, msg=""):
    ref, wrong, amb = surface(d, lags, boundary)
    got = np.asarray(got)
    ctx.validated += 1
    if got.shape != ref.shape:
        ctx.fail("shape", "%s %s" % (got.shape, ref.shape))
        return
    known = False
    for j, i in np.ndindex(*ref.shape):
        if amb[j, i]:
            continue
        g, r = got[j, i], ref[j, i]
        same = (np.isnan(g) and np.isnan(r)) or abs(g - r) < 2e-7
        if lags[i] == 0 and lags[j] == 0 and np.isnan(r):
            continue
        if not same:
            w = wrong[j, i]
            if boundary == "cut" and ((np.isnan(g) and np.isnan(w)) or abs(g - w) < 2e-7):
                if not known:
                    ctx.fail("cut-doubled-lag", "lag (%g,%g): %r, expected %r" % (lags[i], lags[j], g, r))
                known = True
            else:
                ctx.fail("surface", "%s lag (axis1 %g, axis2 %g): got %r, expected %r" % (msg, lags[i], lags[j], g, r))
                return
    fin = got[np.isfinite(got)]
    ctx.check((fin <= 1 + 1e-12).all(), "above-one", fin.max() if fin.size else 0)


def cubes(shape, kind):
    d = fx.img(shape[1:], 3)[None] * (1 + 0.3 * np.arange(shape[0]))[:, None, None] + fx.img((shape[0] * shape[1], shape[2]), 1).reshape(shape)
    if kind == "pos":
        d = np.abs(d) + 0.1
    elif kind == "nanvox":
        d[0, 1, 1] = np.nan
        d[-1, 0, 2] = np.nan
    elif kind == "nanspec":
        d[:, 1, 2] = np.nan
    elif kind == "nanrow":
        d[:, 0] = np.nan
    elif kind == "zerospec":
        d[:, 2, 1] = 0
    return d


LAGS = {"s3": None, "s5": None, "s6": None, "s7": None, "half": [-1.5, -0.5, 0., 0.5, 1.5], "asym": [-1., 0., 2.],
        "even": [-1., 0., 1., 2.], "frac": [-0.7, 0., 0.7], "mix": [-2., -1.25, 0., 1.25, 2.]}


def gen_s(tier):
    shapes = [(2, 4, 5), (3, 5, 4), (4, 6, 7)] + ([(2, 9, 8), (5, 7, 11)] if tier == "thorough" else [])
    for sh in shapes:
        for k in ("gen", "pos", "nanvox", "nanspec", "nanrow", "zerospec"):
            for l in LAGS:
                for b in ("continuous", "cut"):
                    for unit in (("pix", "deg", "arcmin", "pc", "bare") if b == "continuous" and LAGS[l] else ("pix",)):
                        yield {"shape": list(sh), "kind": k, "lags": l, "boundary": b, "unit": unit}


def run_s(ctx, shape, kind, lags, boundary, unit):
    from turbustat.statistics import SCF
    shape = tuple(shape)
    d = cubes(shape, kind)
    h = fx.hdr3(shape)
    kw = {"distance": 100 * u.pc}
    scale = {"pix": 1 * u.pix, "deg": 0.01 * u.deg, "arcmin": 0.6 * u.arcmin, "bare": 1.,
             "pc": 100 * np.radians(0.01) * u.pc}[unit]
    if LAGS[lags] is None:
        n = int(lags[1:])
        o = SCF(d.copy(), header=h, size=n, **kw)
        n -= 1 - n % 2
        pl = np.arange(n) - n // 2
    else:
        pl = np.array(LAGS[lags])
        o = SCF(d.copy(), header=h, roll_lags=pl * scale, **kw)
        if pl.size % 2 == 0:
            pl = pl[:-1]
    for bad in (list(range(-1, 2)), np.arange(-1., 2.) * u.K):
        try:
            SCF(d.copy(), header=h, roll_lags=bad, **kw)
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, "unusable-lags-accepted", str(bad))
    o.compute_surface(boundary=boundary, show_progress=False)
    ctx.step()
    judge(ctx, o.scf_surface, d, pl.astype(float), boundary)
    ctx.state(o.scf_surface)
    if boundary == "continuous":
        n = len(pl)
        iy, ix = np.mgrid[:n, :n] - n // 2
        dist = np.hypot(iy, ix)
        nb = int(np.round(dist.max()) + 1)
        edges = np.linspace(0.5, dist.max(), nb + 1)
        o.compute_spectrum()
        ctx.step()
        wm, ws = refs.radial_bins(dist, np.asarray(o.scf_surface), edges, stddev=True)
        if np.isfinite(np.asarray(o.scf_surface)).all():
            refs.match_any(ctx, o.scf_spectrum, wm, "spectrum")
            refs.match_any(ctx, o.scf_spectrum_stddev, ws, "spectrum_stddev", rtol=1e-6)
        step = abs(pl[1] - pl[0])
        got = (o.lags / (scale if unit != "bare" else u.pix)).to(u.one).value
        ctx.close(got, 0.5 * (edges[1:] + edges[:-1]) * step, "lags", rtol=1e-9)


# --- every tiny cube ---------------------------------------------------------------------------
def gen_all(tier):
    vals = [1., 3., None] if tier == "quick" else [0., 1., 3., None]
    # one execution handles all completions of a 4-voxel prefix
    for p in itertools.product(range(len(vals)), repeat=4):
        yield {"vals": vals, "prefix": list(p)}


def run_all(ctx, vals, prefix):
    from turbustat.statistics import SCF
    shape = (2, 2, 2)
    v = [np.nan if x is None else x for x in vals]
    h = fx.hdr3(shape)
    lags = np.array([-1., 0., 1.])
    for rest in itertools.product(range(len(v)), repeat=4):
        d = np.array([v[i] for i in list(prefix) + list(rest)]).reshape(shape)
        o = SCF(d.copy(), header=h, size=3)
        o.compute_surface(show_progress=False)
        ctx.step()
        judge(ctx, o.scf_surface, d, lags, "continuous", msg="cube %s" % d.ravel().tolist())
        ctx.state(o.scf_surface)


# --- azimuthal wedges of the surface -------------------------------------------------------------
def gen_az(tier):
    for size in (5, 7, 9):
        for th in range(-160, 200, 20):
            for delta in (40., 90.):
                yield {"size": size, "theta": th + 0.4, "delta": delta}


def run_az(ctx, size, theta, delta):
    from turbustat.statistics import SCF
    shape = (3, 10, 11)
    d = cubes(shape, "gen")
    o = SCF(d, header=fx.hdr3(shape), size=size)
    o.compute_surface(show_progress=False)
    o.compute_spectrum(theta_0=theta * u.deg, delta_theta=delta * u.deg)
    ctx.step(2)
    iy, ix = np.mgrid[:size, :size] - size // 2
    ang = np.degrees(np.arctan2(iy, ix))
    diff = (ang - theta + 90.) % 180. - 90.
    mask = np.abs(diff) <= delta / 2.
    c = size // 2
    mask[c - 1:c + 1, c - 1:c + 1] = True
    dist = np.hypot(iy, ix)
    nb = int(np.round(dist.max()) + 1)
    edges = np.linspace(0.5, dist.max(), nb + 1)
    wm, ws = refs.radial_bins(dist, np.where(mask, np.asarray(o.scf_surface), np.nan), edges, stddev=True)
    refs.match_any(ctx, o.scf_spectrum, wm, "azim-spectrum")
    refs.match_any(ctx, o.scf_spectrum_stddev, ws, "azim-stddev", rtol=1e-6)
    ctx.state(size, theta, delta)


# --- binning options of the spectrum ---------------------------------------------------------------
def gen_b(tier):
    for size in (5, 7, 9, 11):
        for nbins in (None, 3, 6):
            for binsize in ((1.0, 0.5, 2.0) if nbins is None else (1.0,)):
                for lo in (None, 0.9):
                    for hi in (None, 3.7):
                        for log in ("absent", True, False):
                            for via in ("method", "run"):
                                yield {"size": size, "nbins": nbins, "binsize": binsize, "lo": lo, "hi": hi, "log": log, "via": via}


def run_b(ctx, size, nbins, binsize, lo, hi, log, via):
    from turbustat.statistics import SCF
    shape = (3, 12, 13)
    d = cubes(shape, "gen")
    o = SCF(d, header=fx.hdr3(shape), size=size)
    kw = {}
    if nbins is not None:
        kw["nbins"] = nbins
    if binsize != 1.0:
        kw["binsize"] = binsize
    if lo is not None:
        kw["min_bin"] = lo
    if hi is not None:
        kw["max_bin"] = hi
    if log != "absent":
        kw["logspacing"] = log
    keep = dict(kw)
    if via == "method":
        o.compute_surface(show_progress=False)
        o.compute_spectrum(**kw)
    else:
        try:
            o.run(show_progress=False, fit_2D=False, radialavg_kwargs=kw)
        except Exception:
            if not hasattr(o, "_scf_spectrum"):
                raise
            # too few bins for a fit: the spectrum itself is judged
    ctx.step()
    ctx.check(kw == keep, "options-changed", str(kw))
    iy, ix = np.mgrid[:size, :size] - size // 2
    dist = np.hypot(iy, ix)
    nb = nbins if nbins is not None else int(np.round(dist.max() / binsize) + 1)
    edges = np.linspace(0.5 if lo is None else lo, dist.max() if hi is None else hi, nb + 1)
    wm, ws = refs.radial_bins(dist, np.asarray(o.scf_surface), edges, stddev=True)
    refs.match_any(ctx, o.scf_spectrum, wm, "binned-spectrum")
    refs.match_any(ctx, o.scf_spectrum_stddev, ws, "binned-stddev", rtol=1e-6)
    ctx.close(o.lags.to(u.pix).value, 0.5 * (edges[1:] + edges[:-1]), "binned-lags", rtol=1e-9)
    ctx.state(o.scf_spectrum)


FAMILIES = {
    "binning": Family(gen_b, run_b, "4 sizes x numbers and widths of bins x both limits x requested log spacing (which is refused) x called directly or through run"),
    "surface": Family(gen_s, run_s, "cube shapes x contents (missing voxels, spectra, rows; zero spectra) x 9 lag sets x 2 boundaries x 4 units"),
    "allcubes": Family(gen_all, run_all, "every assignment of {1,3,missing} (thorough: {0,1,3,missing}) to the voxels of a 2x2x2 cube"),
    "azimuth": Family(gen_az, run_az, "wedges over the full turn x 2 widths x 3 sizes"),
}
