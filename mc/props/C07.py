"""Power spectra equal the discrete Fourier definition and its annular averages."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["data alphabet: one impulse at every pixel, a generic and a constant+gradient image",
               "azimuthal wedges are compared on odd sized images only (even sizes carry a one "
               "row centre convention)"]


# --- A: full transform rebuilt from the half transform -----------------------
def gen_rfft(tier):
    n2 = 9 if tier == "quick" else 14
    n3 = 5 if tier == "quick" else 7
    for s in itertools.product(range(1, n2 + 1), repeat=2):
        yield {"shape": list(s)}
    for s in itertools.product(range(1, n3 + 1), repeat=3):
        yield {"shape": list(s)}


def run_rfft(ctx, shape):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    shape = tuple(shape)
    imgs = [np.random.RandomState(3 + sum(shape)).normal(size=shape),
            np.arange(float(np.prod(shape))).reshape(shape)]
    for pos in itertools.islice(np.ndindex(*shape), 0, 6):
        e = np.zeros(shape)
        e[pos] = 1.
        imgs.append(e + 0.1 * imgs[0])
    for a in imgs:
        keep = a.copy()
        for backend in (False, True):
            got = rfft_to_fft(a, use_pyfftw=backend)
            ctx.step()
            ctx.close(got, refs.dft_abs(a), "rfft-full", rtol=1e-10, atol=1e-12, msg="full |FFT|")
            half = rfft_to_fft(a, keep_rfft=True, use_pyfftw=backend)
            ctx.step()
            ctx.close(half, refs.dft_abs(a)[..., :shape[-1] // 2 + 1], "rfft-half", rtol=1e-10, atol=1e-12)
        ctx.check((a == keep).all(), "rfft-input", "input modified")
    ctx.state(shape)


# --- B: 2D power spectrum of an image ----------------------------------------
KERN = [None, "hanning", "tukey", "cosinebell", "splitcosinebell"]


def gen_ps2d(tier):
    n = 8 if tier == "quick" else 12
    for s in itertools.product(range(3, n + 1), repeat=2):
        for kern in KERN:
            yield {"shape": list(s), "kern": kern}


def _weights(shape, which):
    if which == "none":
        return None
    if which == "ones":
        return np.ones(shape)
    w = np.random.RandomState(8).uniform(0.2, 1., size=shape)
    if which == "zeros":
        w[::2, 1] = 0
    return w


def run_ps2d(ctx, shape, kern):
    from turbustat.statistics import PowerSpectrum
    shape = tuple(shape)
    for wname in ("none", "ones", "generic", "zeros"):
        for dname in ("generic", "pos", "const"):
            d = {"generic": fx.img(shape), "pos": fx.img(shape, 2) + 7., "const": np.ones(shape)}[dname]
            w = _weights(shape, wname)
            ps = PowerSpectrum(d.copy(), header=fx.hdr2(shape), weights=None if w is None else w.copy())
            kw = {} if kern is None else dict(apodize_kernel=kern, alpha=0.6, beta=0.3)
            ps.compute_pspec(**kw)
            ctx.step()
            eff = d * (1. if w is None else w)
            if kern is not None:
                eff = eff * refs.window(kern, shape, 0.6, 0.3)
            want = refs.power2d(eff)
            ctx.close(ps.ps2D, want, "ps2D", rtol=1e-10, msg="%s weights=%s kernel=%s" % (dname, wname, kern))
            ctx.close(np.sum(ps.ps2D), eff.size * np.sum(eff ** 2), "parseval", rtol=1e-10)
    ctx.state(shape, kern)


# --- C: radial average ---------------------------------------------------------
def gen_radial(tier):
    rng = range(4, 10) if tier == "quick" else range(4, 15)
    for s in itertools.product(rng, repeat=2):
        for retf in (True, False):
            for logsp in (True, False):
                for lim in ("default", "maxbin", "minbin", "both"):
                    yield {"shape": list(s), "freqs": retf, "log": logsp, "lim": lim}


def run_radial(ctx, shape, freqs, log, lim):
    from turbustat.statistics.psds import pspec
    shape = tuple(shape)
    base = np.exp(fx.img(shape, 1) / 2.)
    fy, fx_ = refs.freq_grid(shape)
    iy, ix = np.meshgrid(np.arange(shape[0]) - shape[0] // 2, np.arange(shape[1]) - shape[1] // 2, indexing="ij")
    idist = np.hypot(iy, ix)
    for nanpat in ("none", "one", "row"):
        p = base.copy()
        if nanpat == "one":
            p[1, 2] = np.nan
        elif nanpat == "row":
            p[0] = np.inf
        for nb in (None, 1, 4):
            for bs in ((1.0, 2.0) if nb is None else (1.0,)):
                kw = dict(return_freqs=freqs, logspacing=log, nbins=nb, binsize=bs)
                if freqs:
                    dist = np.hypot(fy, fx_)
                    dist = np.where(dist == 0, dist[dist > 0].min() / 2., dist)
                    lo, hi = 1. / min(shape), 0.5
                    if lim in ("minbin", "both"):
                        lo = kw["min_bin"] = 0.13
                    if lim in ("maxbin", "both"):
                        hi = kw["max_bin"] = 0.41
                else:
                    dist = idist
                    lo, hi = 0.5, idist.max()
                    if lim in ("minbin", "both"):
                        lo = kw["min_bin"] = 0.7
                    if lim in ("maxbin", "both"):
                        hi = kw["max_bin"] = 2.9
                n = nb or int(np.round(idist.max() / bs) + 1)
                edges = np.logspace(np.log10(lo), np.log10(hi), n + 1) if log else np.linspace(lo, hi, n + 1)
                if hi <= lo:
                    continue
                c, m, s = pspec(p, return_stddev=True, **kw)
                c2, m2 = pspec(p, **kw)
                c3, m3 = pspec(p, mean_func=np.nanmedian, **kw)
                ctx.step(3)
                ctx.close(c, 0.5 * (edges[1:] + edges[:-1]), "centres", rtol=1e-10)
                ctx.close(c2, c, "centres", rtol=1e-12)
                wm, ws = refs.radial_bins(dist, p, edges, stddev=True)
                refs.match_any(ctx, m, wm, "ps1D", msg="mean %s" % kw)
                refs.match_any(ctx, s, ws, "ps1D_stddev", msg="std %s" % kw)
                wm2, _ = refs.radial_bins(dist, p, edges)
                refs.match_any(ctx, m2, wm2, "ps1D-nostd", msg="mean %s" % kw)
                wm3, _ = refs.radial_bins(dist, p, edges, func=np.median)
                refs.match_any(ctx, m3, wm3, "ps1D-median", msg="median %s" % kw)
    ctx.state(shape, freqs, log, lim)


# --- D: azimuthal wedges -------------------------------------------------------
def gen_azim(tier):
    rng = (5, 7, 9) if tier == "quick" else (5, 7, 9, 11, 13)
    for s in itertools.product(rng, repeat=2):
        for th in range(-170, 360, 10 if tier == "thorough" else 35):
            yield {"shape": list(s), "theta": th + 0.37}


def run_azim(ctx, shape, theta):
    from turbustat.statistics.psds import pspec
    shape = tuple(shape)
    p = np.exp(fx.img(shape, 1) / 2.)
    p = 0.5 * (p + p[::-1, ::-1])
    iy, ix = np.meshgrid(np.arange(shape[0]) - shape[0] // 2, np.arange(shape[1]) - shape[1] // 2, indexing="ij")
    fy, fx_ = refs.freq_grid(shape)
    dist = np.hypot(fy, fx_)
    dist = np.where(dist == 0, dist[dist > 0].min() / 2., dist)
    ang = np.degrees(np.arctan2(iy, ix))
    for delta in (20., 45., 90., 170.):
        for unit in (u.deg, u.rad):
            diff = (ang - theta + 90.) % 180. - 90.
            mask = np.abs(diff) <= delta / 2.
            cy, cx = shape[0] // 2, shape[1] // 2
            amb = (np.abs(np.abs(diff) - delta / 2.) < 1e-6).any()
            mask[cy - 1:cy + 1, cx - 1:cx + 1] = True
            c, m, s, got = pspec(p, return_stddev=True, logspacing=False, nbins=3,
                                 theta_0=(theta * u.deg).to(unit), delta_theta=(delta * u.deg).to(unit))
            ctx.step()
            if amb:
                continue
            ctx.check((np.asarray(got) == mask).all(), "azim-mask", "theta=%s delta=%s" % (theta, delta))
            edges = np.linspace(1. / min(shape), 0.5, 4)
            wm, ws = refs.radial_bins(dist, np.where(mask, p, np.nan), edges, stddev=True)
            refs.match_any(ctx, m, wm, "azim-ps1D", msg="theta=%s delta=%s" % (theta, delta))
            refs.match_any(ctx, s, ws, "azim-std", msg="theta=%s delta=%s" % (theta, delta))
    ctx.state(shape, theta)


# --- E: the statistics classes built on it --------------------------------------
def gen_cls(tier):
    rng = range(6, 10) if tier == "quick" else range(6, 13)
    for s in itertools.product(rng, repeat=2):
        for stat in ("PowerSpectrum", "MVC", "VCA"):
            for beam in (False, True):
                yield {"stat": stat, "shape": list(s), "beam": beam}


def run_cls(ctx, stat, shape, beam):
    from turbustat.statistics import PowerSpectrum, MVC, VCA
    shape = tuple(shape)
    if stat == "PowerSpectrum":
        d = fx.redimg(shape, 1)
        o = PowerSpectrum(d.copy(), header=fx.hdr2(shape))
        want = refs.power2d(d)
    elif stat == "MVC":
        m = fx.moments_maps(shape, 2)
        o = MVC(m["centroid"].copy(), m["moment0"].copy(), m["linewidth"].copy(), header=fx.hdr2(shape))
        t = refs.dft_abs(m["centroid"] * m["moment0"]) - \
            np.mean(m["linewidth"] ** 2 + m["centroid"] ** 2) * refs.dft_abs(m["moment0"])
        want = refs.shift(t ** 2)[::-1]
    else:
        d = fx.cube((3,) + shape, 1)
        o = VCA(d.copy(), header=fx.hdr3((3,) + shape))
        want = np.sum([refs.power2d(d[i]) for i in range(3)], axis=0)
        # the cube transform sums over the three spectral frequencies
        want = want * 3.
    if beam:
        # a beam of three pixels FWHM, centred on a pixel
        sg = 3. / np.sqrt(8 * np.log(2))
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        bp = refs.power2d(np.exp(-0.5 * ((yy - shape[0] // 2) ** 2 + (xx - shape[1] // 2) ** 2) / sg ** 2) / (2 * np.pi * sg ** 2))
    if beam:
        # documented layout is flipped only on output, so flip the beam the same way
        want = want / bp
    o.compute_pspec(beam_correct=beam)
    ctx.step()
    if beam:
        # frequencies at which the beam has (numerically) no power are not comparable
        ok = bp > 1e-6 * bp.max()
        ctx.close(np.asarray(o.ps2D)[ok] * bp[ok], (want * bp)[ok], "class-ps2D-beam", rtol=1e-8, msg=stat)
    else:
        ctx.close(o.ps2D, want, "class-ps2D", rtol=1e-8, msg=stat)
    fy, fx_ = refs.freq_grid(shape)
    dist = np.hypot(fy, fx_)
    dist = np.where(dist == 0, dist[dist > 0].min() / 2., dist)
    for kw in ({}, dict(logspacing=True, nbins=4), dict(max_bin=0.4), dict(nbins=3)):
        o.compute_radial_pspec(**kw)
        ctx.step()
        idist = np.hypot(*np.meshgrid(np.arange(shape[0]) - shape[0] // 2,
                                      np.arange(shape[1]) - shape[1] // 2, indexing="ij"))
        n = kw.get("nbins") or int(np.round(idist.max()) + 1)
        lo, hi = 1. / min(shape), kw.get("max_bin", 0.5)
        edges = np.logspace(np.log10(lo), np.log10(hi), n + 1) if kw.get("logspacing") else np.linspace(lo, hi, n + 1)
        wm, ws = refs.radial_bins(dist, np.asarray(o.ps2D), edges, stddev=True)
        ctx.close(o.freqs.to(1 / u.pix), 0.5 * (edges[1:] + edges[:-1]), "class-freqs", rtol=1e-10)
        ctx.close(o.wavenumbers, 0.5 * (edges[1:] + edges[:-1]) * min(shape), "class-wavenumbers", rtol=1e-10)
        refs.match_any(ctx, o.ps1D, wm, "class-ps1D", msg=stat)
        refs.match_any(ctx, o.ps1D_stddev, ws, "class-ps1D-std", msg=stat)
    ctx.state(stat, shape, beam)


FAMILIES = {
    "rfft": Family(gen_rfft, run_rfft, "every 2D shape up to 9x9 and 3D shape up to 5x5x5 (thorough 14x14, 7^3), 8 images, both FFT backends"),
    "ps2d": Family(gen_ps2d, run_ps2d, "every shape 3..8 squared (thorough 3..12) x 5 windows x 4 weights x 3 images"),
    "radial": Family(gen_radial, run_radial, "every shape 4..9 squared (thorough 4..14) x units x spacing x limits x bins x NaN pattern"),
    "azimuth": Family(gen_azim, run_azim, "odd shapes x wedge angles over the full turn x 4 widths x 2 units"),
    "classes": Family(gen_cls, run_cls, "every shape 6..9 squared (thorough 6..12) x statistic x beam correction x 4 radial settings"),
}
