"""Genus curves count the objects above minus below every threshold, for every image, connectivity and size cut."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["thresholds within rounding of a smoothed pixel value are not judged"]


def count(mask, conn, min_size):
    """Number of connected components with at least min_size pixels, by flood fill."""
    mask = np.array(mask)
    seen = np.zeros(mask.shape, bool)
    nb = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and abs(a) + abs(b) <= conn]
    n = 0
    for i, j in np.argwhere(mask):
        if seen[i, j]:
            continue
        stack, size = [(i, j)], 0
        seen[i, j] = True
        while stack:
            y, x = stack.pop()
            size += 1
            for a, b in nb:
                p, q = y + a, x + b
                if 0 <= p < mask.shape[0] and 0 <= q < mask.shape[1] and mask[p, q] and not seen[p, q]:
                    seen[p, q] = True
                    stack.append((p, q))
        n += size >= min_size
    return n


def genus(img, t, conn=2, min_size=4, removal=True):
    m = min_size if removal else 1
    with np.errstate(invalid="ignore"):
        return count(img > t, conn, m) - count(img < t, conn, m)


# --- every small image ------------------------------------------------------------------------------
def gen_all(tier):
    sh, vals = ((3, 4), 2) if tier == "quick" else ((3, 4), 3)
    for p in itertools.product(range(vals), repeat=5):
        yield {"shape": list(sh), "vals": vals, "prefix": list(p)}
    for p in itertools.product(range(3), repeat=4):
        yield {"shape": [2, 4], "vals": 3, "prefix": list(p)}
        yield {"shape": [4, 2], "vals": 3, "prefix": list(p)}


_cache = {}


def run_all(ctx, shape, vals, prefix):
    from turbustat.statistics import Genus
    shape = tuple(shape)
    n = shape[0] * shape[1] - len(prefix)
    th = np.array([-0.5, 0., 0.5, 1., 1.5])
    cfgs = [(1, 1, True), (2, 1, True), (1, 2, True), (2, 2, True), (2, 4, True), (1, 3, True), (2, 9, False)]
    for rest in itertools.product(range(vals), repeat=n):
        d = np.array(list(prefix) + list(rest), float).reshape(shape)
        if vals == 3 and 2 in d:
            d[d == 2] = np.nan
            if not np.isfinite(d).any():
                continue
        o = Genus(d, thresholds=th, enable_smoothing=False)
        for conn, ms, rem in (cfgs if vals == 2 else cfgs[2:5]):
            o.make_genus_curve(connectivity=conn, min_size=ms, enable_small_removal=rem)
            ctx.step()
            want = [genus(d, t, conn, ms, rem) for t in th]
            got = np.asarray(o.genus_stats)
            ctx.check(got.shape == (1, 5) and (got[0] == want).all(), "tiny",
                      "image %s conn %d size %d removal %s: %s, expected %s" % (d.tolist(), conn, ms, rem, got, want))
        ctx.state(d)


# --- smoothing -----------------------------------------------------------------------------------------
def content(shape, kind):
    a = fx.img(shape, 6)
    if kind == "nan":
        a[2, 3] = np.nan
        a[-2:, :2] = np.nan
    return a


def smooth(d, width, wrap=False, kshape=None, preserve=False, fill=False):
    bad = np.isnan(d)
    if kshape is None:
        k = refs.gauss_kernel(width)
    else:
        g = lambda n: np.exp(-(np.arange(n) - n // 2) ** 2 / (2. * width ** 2))
        k = np.outer(g(kshape[0]), g(kshape[1]))
        k /= k.sum()
        k = np.pad(k, [(0, 1 - k.shape[0] % 2), (0, 1 - k.shape[1] % 2)])
    out = refs.convolve(np.where(bad, 0, d), k, wrap)
    if not fill:
        out = out / (1 - refs.convolve(bad.astype(float), k, wrap))
    if preserve:
        out[bad] = np.nan
    return out


def gen_s(tier):
    for sh in [(8, 8), (9, 12), (13, 8), (15, 15), (9, 13), (13, 7)] + ([(10, 21), (17, 12)] if tier == "thorough" else []):
        for c in ("gen", "nan"):
            for opt in ("plain", "wrap", "match", "preserve", "fill"):
                if sh in ((9, 13), (13, 7)) and opt not in ("plain", "match"):
                    continue
                for conn in (1, 2):
                    for ms in (1, 4, 7):
                        yield {"shape": list(sh), "content": c, "opt": opt, "conn": conn, "min_size": ms}


def run_s(ctx, shape, content, opt, conn, min_size):
    from turbustat.statistics import Genus
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    radii = np.array([1.0, 1.4, 2.3])
    o = Genus((d.copy(), fx.hdr2(shape)), numpts=9, smoothing_radii=radii)
    kw = {"plain": {}, "wrap": {"boundary": "wrap"}, "match": {"match_kernel": True}, "preserve": {"preserve_nan": True},
          "fill": {"nan_treatment": "fill"}}[opt]
    o.make_genus_curve(connectivity=conn, min_size=min_size, keep_smoothed_images=True, **kw)
    ctx.step()
    th = np.linspace(np.nanmin(d), np.nanmax(d), 9)
    ctx.close(o.thresholds, th, "thresholds", rtol=1e-10)
    ctx.check(o.genus_stats.shape == (3, 9), "shape", o.genus_stats.shape)
    for k, r in enumerate(radii):
        if opt == "match" and any(s % 2 == 0 for s in shape):
            im = np.asarray(o.smoothed_images[k])     # kernels of even size have no centre pixel: only the counting is judged
        else:
            im = smooth(d, r, wrap=opt == "wrap", kshape=shape if opt == "match" else None, preserve=opt == "preserve", fill=opt == "fill")
            ctx.close(o.smoothed_images[k], im, "smoothed", rtol=1e-8, msg="radius %g" % r)
        ctx.close(o.smoothed_means[k], np.nanmean(im), "means", rtol=1e-8, atol=1e-9)
        ctx.close(o.smoothed_stds[k], np.nanstd(im), "stds", rtol=1e-8)
        for i, t in enumerate(th):
            if np.nanmin(np.abs(im - t)) < 1e-8:
                continue
            w = genus(im, t, conn, min_size)
            ctx.check(o.genus_stats[k, i] == w, "curve", "radius %g threshold %g: %s, expected %s" % (r, t, o.genus_stats[k, i], w))
    tabs = o.make_genus_stats_table()
    if ctx.check(len(tabs) == 3, "tables", len(tabs)):
        for k, t in enumerate(tabs):
            ctx.close(t["thresholds"], th, "table", rtol=1e-9)
            ctx.close(t["genus_value"], o.genus_stats[k], "table", rtol=1e-9)
            ctx.close(t["data_mean"], [o.smoothed_means[k]] * 9, "table", rtol=1e-9)
            ctx.close(t["data_std"], [o.smoothed_stds[k]] * 9, "table", rtol=1e-9)
            ctx.close(t["smooth_radius"], [radii[k]] * 9, "table", rtol=1e-9)
    ctx.state(o.genus_stats)


# --- thresholds, sizes and radii given in every documented way -----------------------------------------------
def gen_t(tier):
    for kind in ("arr", "hdr", "proj"):
        for c in ("gen", "nan"):
            for n in (1, 2, 5, 30):
                yield {"kind": kind, "content": c, "n": n}


def run_t(ctx, kind, content, n):
    from turbustat.statistics import Genus
    from .. import forms
    shape = (12, 15)
    d = globals()["content"](shape, content)
    h = fx.hdr2(shape, cdelt=0.02, bmaj=0.09)
    g = d if kind == "arr" else forms.make("tuple" if kind == "hdr" else "proj", d, h)[0]
    un = u.K if kind == "proj" else 1
    fin = np.sort(d[np.isfinite(d)])

    def pct(p):
        x = (fin.size - 1) * p / 100.
        lo = int(np.floor(x))
        hi = min(lo + 1, fin.size - 1)
        return fin[lo] + (fin[hi] - fin[lo]) * (x - lo)
    for kw, lo, hi in (({}, fin[0], fin[-1]), (dict(lowdens_percent=20), pct(20), fin[-1]),
                       (dict(lowdens_percent=0.6, highdens_percent=99.4), pct(0.6), pct(99.4)),
                       (dict(highdens_percent=75), fin[0], pct(75)), (dict(lowdens_percent=5, highdens_percent=60), pct(5), pct(60)),
                       (dict(min_value=-1. * un), -1., fin[-1]), (dict(max_value=1.5 * un), fin[0], 1.5),
                       (dict(min_value=-0.5 * un, max_value=0.7 * un), -0.5, 0.7),
                       (dict(min_value=-0.5 * un, lowdens_percent=40), -0.5, fin[-1])):
        o = Genus(g, numpts=n, **kw)
        ctx.step()
        want = np.array([lo]) if n == 1 else lo + (hi - lo) * np.arange(n) / (n - 1.)
        ctx.close(o.thresholds, want, "thresholds", rtol=1e-9, atol=1e-9, msg=str(kw))
    t = np.array([-0.3, 0.2, 1.1])
    base = Genus(g, thresholds=t * un, smoothing_radii=np.array([1.5]))
    base.run()
    ctx.step()
    ctx.close(base.thresholds, t, "given-thresholds", rtol=1e-12)
    # the tables say what was measured, with the units of the data; without smoothing, of the image itself
    for rad, on in ((np.array([1.5, 2.]), True), (np.array([1.5]), False)):
        o = Genus(g, thresholds=t * un, smoothing_radii=rad, enable_smoothing=on)
        o.make_genus_curve(keep_smoothed_images=True)
        tabs = o.make_genus_stats_table()
        ctx.step()
        if not ctx.check(len(tabs) == (rad.size if on else 1) == len(o.genus_stats), "table-number", len(tabs)):
            continue
        for k, tab in enumerate(tabs):
            im = smooth(d, rad[k]) if on else d
            for col, want in (("thresholds", t), ("data_mean", [np.nanmean(im)] * 3), ("data_std", [np.nanstd(im)] * 3)):
                ctx.close(np.asarray(tab[col]), want, "table-" + col, rtol=1e-7, atol=1e-9)
                if kind == "proj":
                    ctx.check(tab[col].unit == u.K, "table-unit", (col, tab[col].unit))
            ctx.close(np.asarray(tab["genus_value"]), np.asarray(o.genus_stats[k]), "table-genus", rtol=1e-12)
            if on:
                ctx.close(np.asarray(tab["smooth_radius"]), [rad[k]] * 3, "table-radius", rtol=1e-12)
            for i, x in enumerate(t):
                if np.nanmin(np.abs(im - x)) > 1e-8:
                    ctx.check(o.genus_stats[k, i] == genus(im, x), "curve-of-form", "%s radius %s threshold %g: %s, expected %s" % (kind, rad[k] if on else None, x, o.genus_stats[k, i], genus(im, x)))
    if kind == "proj":
        o = Genus(g, thresholds=(t * u.K).to(u.mK), smoothing_radii=np.array([1.5]))
        o.run()
        ctx.close(o.thresholds.to(u.K), t, "converted-thresholds", rtol=1e-10)
        o = Genus(g, numpts=n, min_value=-500. * u.mK, max_value=0.7 * u.K)
        ctx.close(o.thresholds.to(u.K), np.linspace(-0.5, 0.7, n), "converted-limits", rtol=1e-9, atol=1e-9)
        o = Genus(g, numpts=n, min_value=-0.5 * u.K, max_value=700. * u.mK)
        ctx.close(o.thresholds.to(u.K), np.linspace(-0.5, 0.7, n), "converted-limits", rtol=1e-9, atol=1e-9)
        for kw in (dict(min_value=-0.5), dict(max_value=0.7), dict(min_value=-0.5 * u.m), dict(max_value=0.7 * u.m)):
            try:
                Genus(g, numpts=n, **kw)
                ok = False
            except Exception:
                ok = True
            ctx.check(ok, "limit-unit", str(kw))
        for bad in (t, t * u.m):
            try:
                Genus(g, thresholds=bad)
                ok = False
            except Exception:
                ok = True
            ctx.check(ok, "threshold-unit")
    if kind != "arr":
        D = 140 * u.pc
        for rad in (1.5 * 0.02 * u.deg, 1.5 * 72 * u.arcsec, 1.5 * np.radians(0.02) * D, 1.5 * u.pix):
            o = Genus(g, thresholds=t * un, smoothing_radii=u.Quantity([rad]), distance=D)
            o.run()
            ctx.step()
            ctx.close(o.genus_stats, base.genus_stats, "radius-unit", rtol=1e-9, msg=str(rad))
        for px in (1, 3, 6, 8):
            a = Genus(g, thresholds=t * un, distance=D)
            a.run(min_size=px)
            for area in ((px + 0.2) * (0.02 * u.deg) ** 2, (px + 0.2) * (72 * u.arcsec) ** 2, (px + 0.2) * (np.radians(0.02) * D) ** 2, (px + 0.2) * u.pix ** 2):
                b = Genus(g, thresholds=t * un, distance=D)
                b.run(min_size=area)
                ctx.step()
                ctx.close(b.genus_stats, a.genus_stats, "area-unit", rtol=1e-9, msg=str(area))
        # beam area: 2 pi sigma^2 with sigma = FWHM / sqrt(8 ln 2), in pixels
        npx = int(np.floor(2 * np.pi * (0.09 / 0.02) ** 2 / (8 * np.log(2))))
        a = Genus(g, thresholds=t * un)
        a.run(min_size=npx)
        b = Genus(g, thresholds=t * un)
        b.run(use_beam=True)
        ctx.step(2)
        ctx.close(b.genus_stats, a.genus_stats, "beam-area", rtol=1e-9)
        for minor in (0.02, 0.03, 0.05):       # elongated beams: 2 pi sigma_major sigma_minor
            h2 = h.copy()
            h2["BMIN"], h2["BPA"] = minor, 20.
            npx = int(np.floor(2 * np.pi * (0.09 / 0.02) * (minor / 0.02) / (8 * np.log(2))))
            g2 = forms.make("tuple" if kind == "hdr" else "proj", d, h2)[0]
            a = Genus(g2, thresholds=t * un)
            a.run(min_size=npx)
            b = Genus(g2, thresholds=t * un)
            b.run(use_beam=True)
            ctx.step(2)
            ctx.close(b.genus_stats, a.genus_stats, "elongated-beam-area", rtol=1e-9, msg=str(minor))
    for bad in (np.array([0.9]), np.array([1., 6.1])):
        try:
            Genus(g, smoothing_radii=bad)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "radius-accepted", bad)
    ctx.state(kind, content, n)


FAMILIES = {
    "images": Family(gen_all, run_all, "every binary 3x4 image (thorough: with missing pixels) and every {0,1,missing} 2x4 and 4x2 image, "
                     "5 thresholds including ties, connectivity x size cut"),
    "smoothing": Family(gen_s, run_s, "shapes x contents x convolution options x connectivity x size, 3 radii, 9 thresholds"),
    "options": Family(gen_t, run_t, "threshold ranges, radii and areas in every documented unit and input form"),
}
