"""Beams and apodizing windows: where they come from, what they are, and that they are applied as such."""
import itertools
import sys
import warnings
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, refs

ASSUMPTIONS = ["a beam is the Gaussian of the given axes (FWHM) and position angle (from +y towards -x), sampled at pixel centres",
               "frequencies at which the beam has less than 1e-10 of its power are not compared",
               "in the modified velocity centroids the mean squared velocity may be taken with or without the window"]
S2F = np.sqrt(8 * np.log(2))


def gauss(shape, bmaj, bmin, pa, cd):
    """Unit-integral Gaussian beam with its centre on pixel (0, 0) of a periodic map."""
    sy, sx = bmaj / cd / S2F, bmin / cd / S2F
    y = np.arange(shape[0]) - (shape[0] // 2)
    x = np.arange(shape[1]) - (shape[1] // 2)
    yy, xx = np.meshgrid(y, x, indexing="ij")
    t = np.radians(pa)
    a = -xx * np.sin(t) + yy * np.cos(t)
    b = xx * np.cos(t) + yy * np.sin(t)
    return np.exp(-0.5 * (a / sy) ** 2 - 0.5 * (b / sx) ** 2) / (2 * np.pi * sy * sx)


def build(stat, shape, hdr_kw, beam=None, data=None):
    from turbustat.statistics import PowerSpectrum, MVC, VCA
    kw = {} if beam is None else dict(beam=beam)
    if stat == "PowerSpectrum":
        h = fx.hdr2(shape, beam=False, cdelt=hdr_kw["cdelt"])
        h.update(hdr_kw["cards"])
        return PowerSpectrum(fx.redimg(shape, 1) if data is None else data, header=h, **kw)
    if stat == "MVC":
        m = fx.moments_maps(shape, 2)
        h = fx.hdr2(shape, beam=False, cdelt=hdr_kw["cdelt"])
        h.update(hdr_kw["cards"])
        return MVC(m["centroid"], m["moment0"], m["linewidth"], header=h, **kw)
    h = fx.hdr3((3,) + tuple(shape), beam=False, cdelt=hdr_kw["cdelt"])
    h.update(hdr_kw["cards"])
    return VCA(fx.cube((3,) + tuple(shape), 1) if data is None else data, header=h, **kw)


# --- correction for the beam --------------------------------------------------------------
BEAMS = {"round2": (2.2, 2.2, 0.), "round4": (4., 4., 0.), "ell0": (3.6, 2.2, 0.), "ell30": (3.6, 2.2, 30.),
         "ell90": (3.6, 2.2, 90.), "ell-50": (4.1, 2.3, -50.), "ell135": (3.3, 2.1, 135.)}


def gen_corr(tier):
    shapes = [(12, 12), (13, 13), (12, 15), (15, 12), (14, 11), (11, 14), (16, 18)]
    if tier == "thorough":
        shapes = list(itertools.product((9, 10, 11, 12, 15, 16), repeat=2))
    for stat in ("PowerSpectrum", "MVC", "VCA"):
        for shape in shapes:
            for b in BEAMS:
                for cd in (0.01, 0.004):
                    for src in ("header", "object", "override"):
                        yield {"stat": stat, "shape": list(shape), "beam": b, "cdelt": cd, "src": src}


def run_corr(ctx, stat, shape, beam, cdelt, src):
    from radio_beam import Beam
    shape = tuple(shape)
    mj, mn, pa = BEAMS[beam]
    cards = {"BMAJ": mj * cdelt, "BMIN": mn * cdelt, "BPA": pa}
    obj = Beam(major=mj * cdelt * u.deg, minor=mn * cdelt * u.deg, pa=pa * u.deg)
    if src == "header":
        o = build(stat, shape, dict(cdelt=cdelt, cards=cards))
    elif src == "object":
        o = build(stat, shape, dict(cdelt=cdelt, cards={}), obj)
    else:
        o = build(stat, shape, dict(cdelt=cdelt, cards={"BMAJ": 9 * cdelt, "BMIN": 5 * cdelt, "BPA": 77.}), obj)
    o.compute_pspec()
    plain = np.array(o.ps2D)
    o.compute_pspec(beam_correct=True)
    corr = np.array(o.ps2D)
    o.compute_pspec()
    ctx.step(3)
    ctx.close(o.ps2D, plain, "uncorrected-again", rtol=1e-12)
    bp = refs.power2d(gauss(shape, mj * cdelt, mn * cdelt, pa, cdelt))
    ok = bp > 1e-10
    ctx.close(corr[ok] * bp[ok] / plain[ok], np.ones(ok.sum()), "corrected", rtol=2e-5, msg="%s %s %s" % (stat, shape, beam))
    ctx.state(stat, shape, beam, cdelt, src, plain)


# --- a map seen through a beam gets its spectrum back ----------------------------------------
def gen_inv(tier):
    shapes = [(16, 16), (17, 17), (16, 19), (18, 15)] + ([(20, 21), (24, 24)] if tier == "thorough" else [])
    for stat in ("PowerSpectrum", "VCA"):
        for shape in shapes:
            for b in BEAMS:
                yield {"stat": stat, "shape": list(shape), "beam": b}


def run_inv(ctx, stat, shape, beam):
    shape = tuple(shape)
    mj, mn, pa = BEAMS[beam]
    cd = 0.01
    cards = {"BMAJ": mj * cd, "BMIN": mn * cd, "BPA": pa}
    d = fx.redimg(shape, 1) if stat == "PowerSpectrum" else fx.cube((3,) + shape, 1)
    g = np.roll(gauss(shape, mj * cd, mn * cd, pa, cd), (-(shape[0] // 2), -(shape[1] // 2)), axis=(0, 1))
    seen = np.real(np.fft.ifft2(np.fft.fft2(d, axes=(-2, -1)) * np.fft.fft2(g), axes=(-2, -1)))
    a = build(stat, shape, dict(cdelt=cd, cards=cards), data=d)
    b = build(stat, shape, dict(cdelt=cd, cards=cards), data=seen)
    a.compute_pspec()
    b.compute_pspec(beam_correct=True)
    ctx.step(2)
    ok = refs.power2d(np.fft.fftshift(g)) > 1e-8
    ctx.close(np.asarray(b.ps2D)[ok] / np.asarray(a.ps2D)[ok], np.ones(ok.sum()), "deconvolved", rtol=1e-4, msg="%s %s" % (shape, beam))
    # and the radial spectrum and slope below the beam scale with it
    for o, kw in ((a, {}), (b, dict(beam_correct=True))):
        o.run(fit_2D=False, low_cut=0.07 / u.pix, high_cut=0.2 / u.pix, radial_pspec_kwargs=dict(max_bin=0.25), **kw)
    ctx.step(2)
    ctx.close(b.ps1D, a.ps1D, "deconvolved-ps1D", rtol=1e-3)
    ctx.close(b.slope, a.slope, "deconvolved-slope", rtol=1e-3)
    ctx.state(stat, shape, beam)


# --- where beams come from ---------------------------------------------------------------------
def gen_src(tier):
    for cards in itertools.product((None, 0.03), (None, 0.02), (None, 35.)):
        for hist in (False, True):
            for stat in ("PowerSpectrum", "MVC", "VCA"):
                yield {"stat": stat, "bmaj": cards[0], "bmin": cards[1], "bpa": cards[2], "hist": hist}


def run_src(ctx, stat, bmaj, bmin, bpa, hist):
    from turbustat.io import find_beam_properties, find_beam_width
    shape = (14, 13)
    cards = {}
    for k, v in (("BMAJ", bmaj), ("BMIN", bmin), ("BPA", bpa)):
        if v is not None:
            cards[k] = v
    h = fx.hdr2(shape, beam=False)
    h.update(cards)
    if hist:
        h["HISTORY"] = "AIPS   CLEAN BMAJ=  4.2000E-02 BMIN=  2.5000E-02 BPA=  20.00"
    cards2 = h
    if bmaj is not None:
        want = (bmaj, bmaj if bmin is None else bmin, 0. if bpa is None else bpa)
    elif hist:
        want = (0.042, 0.025, 20.)
    else:
        want = None
    raised = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = find_beam_properties(h)
            wid = find_beam_width(h)
        except Exception as e:
            raised = e
        ctx.step()
        if want is None:
            ctx.check(raised is not None, "no-beam-accepted", "got %r" % (None if raised else got,))
        else:
            if raised is not None:
                ctx.fail("beam-not-found", repr(raised))
                return
            ctx.close([x.to(u.deg).value for x in got], want, "beam-properties", rtol=1e-6)
            ctx.close(wid.to(u.deg).value, want[0], "beam-width", rtol=1e-6)
        # without radio_beam, the cards alone say the same
        import importlib.util
        spec = importlib.util.find_spec("turbustat.io.try_load_beamwidth")
        if spec is not None:
            bare = importlib.util.module_from_spec(spec)
            kept = sys.modules.get("radio_beam")
            sys.modules["radio_beam"] = None
            try:
                spec.loader.exec_module(bare)
            finally:
                sys.modules.pop("radio_beam")
                if kept is not None:
                    sys.modules["radio_beam"] = kept
            raised = None
            try:
                got, wid = bare.find_beam_properties(h), bare.find_beam_width(h)
            except Exception as e:
                raised = e
            ctx.step()
            if bmaj is None:
                if not hist:
                    ctx.check(raised is not None, "no-beam-accepted-bare", "got %r" % (None if raised else got,))
            elif ctx.check(raised is None, "beam-not-found-bare", repr(raised)):
                ctx.close([x.to(u.deg).value for x in got], want, "beam-properties-bare", rtol=1e-6)
                ctx.close(wid.to(u.deg).value, want[0], "beam-width-bare", rtol=1e-6)
        o = build(stat, shape, dict(cdelt=0.01, cards={}))
        # the statistic with that header
        from turbustat.statistics import PowerSpectrum, MVC, VCA
        if stat == "VCA":
            h3 = fx.hdr3((3,) + shape, beam=False)
            h3.update(cards)
            if hist:
                h3["HISTORY"] = str(h["HISTORY"])
            o = VCA(fx.cube((3,) + shape, 1), header=h3)
        elif stat == "MVC":
            m = fx.moments_maps(shape, 2)
            o = MVC(m["centroid"], m["moment0"], m["linewidth"], header=cards2)
        else:
            o = PowerSpectrum(fx.redimg(shape, 1), header=cards2)
        o.compute_pspec()
        plain = np.array(o.ps2D)
        try:
            o.compute_pspec(beam_correct=True)
            ok = True
        except Exception:
            ok = False
    ctx.step(2)
    if want is None:
        ctx.check(not ok, "corrected-without-beam", "a correction was made although there is no beam")
    elif not ok:
        ctx.fail("not-corrected", "the beam of the header was not used")
    else:
        bp = refs.power2d(gauss(shape, want[0], want[1], want[2], 0.01))
        m = bp > 1e-10
        ctx.close(np.asarray(o.ps2D)[m] * bp[m] / plain[m], np.ones(m.sum()), "corrected", rtol=2e-5)
    ctx.state(stat, bmaj, bmin, bpa, hist)


# --- windows -------------------------------------------------------------------------------
def gen_win(tier):
    n = range(4, 12) if tier == "quick" else range(3, 20)
    for shape in itertools.product(n, repeat=2):
        for kind in ("splitcosinebell", "hanning", "tukey", "cosinebell"):
            yield {"shape": list(shape), "kind": kind}


def taper(kind, shape, alpha, beta):
    """Both readings of the width of the taper when alpha times the half-width is an integer up to rounding."""
    out = [refs.window(kind, shape, alpha, beta)]
    al = 1.0 if kind == "hanning" else alpha
    x = al * (min(shape) - 1) / 2.
    if abs(x - round(x)) < 1e-9 * max(1, x):
        for d in (1e-12, -1e-12):
            out.append(refs.window(kind, shape, alpha * (1 + d), beta))
    return out


def run_win(ctx, shape, kind):
    from turbustat.statistics import PowerSpectrum
    shape = tuple(shape)
    o = PowerSpectrum(fx.redimg(shape, 3), header=fx.hdr2(shape))
    for alpha in (0.1, 0.3, 0.5, 0.8, 0.98, 1.0):
        for beta in ((0.0, 0.2, 0.5, 0.8) if kind == "splitcosinebell" else (0.0, 0.4)):
            w = np.asarray(o.apodizing_kernel(kernel_type=kind, alpha=alpha, beta=beta))
            ctx.step()
            m = "%s %s alpha=%g beta=%g" % (kind, shape, alpha, beta)
            if not ctx.check(w.shape == shape, "window-shape", m):
                return
            ctx.check(np.isfinite(w).all() and w.min() >= -1e-12 and w.max() <= 1 + 1e-12, "window-range", m + " %r..%r" % (w.min(), w.max()))
            for n, f in (("mirror-y", w[::-1]), ("mirror-x", w[:, ::-1])):
                ctx.check(np.abs(w - f).max() < 1e-9, "window-" + n, m)
            want = taper(kind, shape, alpha, beta)
            r = np.hypot(*np.meshgrid(np.arange(shape[0]) - (shape[0] - 1) / 2., np.arange(shape[1]) - (shape[1] - 1) / 2., indexing="ij"))
            # pixels exactly on the inner or outer radius may belong to either side
            half = (min(shape) - 1) / 2.
            a2, b2 = (1., 0.) if kind == "hanning" else (alpha, 1 - alpha) if kind == "tukey" else (alpha, 0.) if kind == "cosinebell" else (alpha, beta)
            good = False
            for v in want:
                rt = np.floor(a2 * half + 1e-9)
                edge = (np.abs(r - b2 * half) < 1e-9) | (np.abs(r - b2 * half - rt) < 1e-9) | (np.abs(r - b2 * half - rt + 1) < 1e-9)
                good = good or np.abs(w - v)[~edge].max(initial=0) < 1e-9
            ctx.check(good, "window", m + " differs from its definition")
        ctx.state(shape, kind, alpha)
    for bad in ("boxcar", "", None, "Tukey "):
        try:
            o.apodizing_kernel(kernel_type=bad)
        except Exception:
            pass
        else:
            ctx.fail("unknown-window", "kernel_type=%r accepted" % (bad,))
        ctx.step()


# --- windows applied to each statistic ------------------------------------------------------------
def gen_app(tier):
    shapes = [(10, 10), (11, 13), (12, 9), (16, 15)] + ([(9, 9), (14, 20), (21, 17)] if tier == "thorough" else [])
    for stat in ("PowerSpectrum", "MVC", "VCA"):
        for shape in shapes:
            for kind in ("splitcosinebell", "hanning", "tukey", "cosinebell"):
                for alpha, beta in ((0.3, 0.5), (0.55, 0.0), (0.9, 0.25)):
                    for route in ("run", "compute"):
                        yield {"stat": stat, "shape": list(shape), "kind": kind, "alpha": alpha, "beta": beta, "route": route}


def run_app(ctx, stat, shape, kind, alpha, beta, route):
    shape = tuple(shape)
    o = build(stat, shape, dict(cdelt=0.01, cards={}))
    kw = dict(apodize_kernel=kind, alpha=alpha, beta=beta)
    if route == "run":
        o.run(fit_2D=False, **kw)
    else:
        o.compute_pspec(**kw)
    ctx.step()
    w = refs.window(kind, shape, alpha, beta)
    if stat == "PowerSpectrum":
        want = [refs.power2d(fx.redimg(shape, 1) * w)]
    elif stat == "VCA":
        d = fx.cube((3,) + shape, 1)
        want = [3. * np.sum([refs.power2d(c * w) for c in d], axis=0)]
    else:
        m = fx.moments_maps(shape, 2)
        want = []
        for sig in (m["linewidth"] ** 2 + m["centroid"] ** 2, m["linewidth"] ** 2 + m["centroid"] ** 2 * w,
                    (m["linewidth"] ** 2 + m["centroid"] ** 2) * w):
            t = refs.dft_abs(m["centroid"] * m["moment0"] * w) - sig.mean() * refs.dft_abs(m["moment0"] * w)
            want.append(refs.shift(t ** 2)[::-1])
    got = np.asarray(o.ps2D)
    ctx.check(any(got.shape == x.shape and np.abs(got - x).max() <= 1e-8 * np.abs(x).max() for x in want), "apodized",
              "%s %s %s: ps2D is not the spectrum of the tapered data" % (stat, shape, kind))
    ctx.state(stat, shape, kind, alpha, beta, route)


FAMILIES = {
    "correction": Family(gen_corr, run_corr, "3 statistics x 7 shapes (thorough 36) x 7 beams x 2 pixel scales x header/object/override"),
    "deconvolution": Family(gen_inv, run_inv, "2 statistics x 4 shapes (thorough 6) x 7 beams, map seen through the beam"),
    "sources": Family(gen_src, run_src, "every subset of BMAJ, BMIN, BPA x AIPS history x 3 statistics"),
    "windows": Family(gen_win, run_win, "every shape 4..11 squared (thorough 3..19) x 4 windows x 6 alpha x beta"),
    "apodized": Family(gen_app, run_app, "3 statistics x 4 shapes (thorough 7) x 4 windows x 3 (alpha, beta) x 2 routes"),
}
