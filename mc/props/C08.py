"""Symmetry and scaling laws.

Every statistic is run on a data set and on a transformed copy of it (mirrored, rotated, transposed,
cyclically shifted, re-ordered, re-scaled, offset, negated), and each documented observable has to follow
the law that its definition implies: unchanged, scaled by a power of the factor, or mapped like the data.
"""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from ..catalog import ENTRIES, flat
from .. import fx

ASSUMPTIONS = ["one data set per shape with no symmetries of its own (a transformation that were ignored or "
               "applied to the wrong axis is therefore visible)",
               "segmented (break) fits are left out: their iteration is chaotic on tiny data",
               "shift laws only where the boundary is periodic and no window is applied"]

# --- transformations of an array whose last two axes are (y, x) ---------------------------
SPATIAL = {
    "mirror-y": lambda a: a[..., ::-1, :],
    "mirror-x": lambda a: a[..., ::-1],
    "rot180": lambda a: a[..., ::-1, ::-1],
    "transpose": lambda a: np.swapaxes(a, -1, -2),
    "rot90": lambda a: np.rot90(a, 1, axes=(-2, -1)),
    "rot270": lambda a: np.rot90(a, 3, axes=(-2, -1)),
    "antitranspose": lambda a: np.swapaxes(a, -1, -2)[..., ::-1, ::-1],
}
SHIFTS = {"shift(1,0)": (1, 0), "shift(0,1)": (0, 1), "shift(3,-4)": (3, -4), "shift(-5,7)": (-5, 7)}
SPECTRAL = {
    "reverse-channels": lambda a: a[::-1],
    "shift-channels": lambda a: np.roll(a, 2, axis=0),
}
CHANPERM = {"permute-channels": lambda a: a[np.argsort((np.arange(a.shape[0]) * 7 + 3) % (a.shape[0] + 0.5))]}


def permpix(a):
    n = a.shape[-1] * a.shape[-2]
    order = np.argsort((np.arange(n) * 37.0 + 11) % (n + 0.37))
    return a.reshape(a.shape[:-2] + (n,))[..., order].reshape(a.shape)


SCALES = {"x2": 2.0, "x0.37": 0.37, "x1e-6": 1e-6, "x1e6": 1e6}
OFFSETS = {"+3": 3.0, "-7.5": -7.5}


def ident(o):
    return o


def val(x):
    return np.asarray(getattr(x, "value", x), float)


# --- laws -----------------------------------------------------------------------------
# law(op) -> None (does not apply) or (fn on raw dict, {observable: fn(base value)}, build kw fn)
def on(keys, f):
    def g(raw):
        return {k: (np.ascontiguousarray(f(v)) if (keys is None or k in keys) else v) for k, v in raw.items()}
    return g


def times(c):
    return lambda o: val(o) * c


def same(*names):
    return {n: ident for n in names}


PS_INV = ("freqs", "slope", "slope_err", "low_cut", "high_cut")


def nodc2(ps):
    ps = val(ps).copy()
    return ps


def laws_ps(e, cfg, opt):
    """PowerSpectrum, MVC and VCA."""
    win = cfg in ("apod",)
    azim = cfg == "azim"
    ps = ("ps1D", "ps1D_stddev")
    if not azim:
        for n, f in SPATIAL.items():
            yield n, on(None, f), same(*(PS_INV + ps))
    else:
        yield "rot180", on(None, SPATIAL["rot180"]), same(*(PS_INV + ps))
    if not win:
        for n, s in SHIFTS.items():
            yield n, on(None, lambda a, s=s: np.roll(a, s, axis=(-2, -1))), same(*(PS_INV + ps + ("ps2D",)))
    for n, c in SCALES.items():
        keys = None
        if e.name == "MVC":
            keys = ("moment0",)
        elif e.name == "PowerSpectrum":
            keys = ("data",)
        exp = same(*PS_INV)
        exp.update({k: times(c * c) for k in ps + ("ps2D",)})
        yield n, on(keys, lambda a, c=c: a * c), exp
    if e.name == "MVC":
        # velocity unit: centroid and line width together
        for n, c in SCALES.items():
            exp = same(*PS_INV)
            exp.update({k: times(c * c) for k in ps + ("ps2D",)})
            yield "velocity" + n, on(("data", "linewidth"), lambda a, c=c: a * c), exp
        yield "negate-velocity", on(("data",), np.negative), same(*(PS_INV + ps + ("ps2D",)))
    else:
        yield "negate", on(("data",), np.negative), same(*(PS_INV + ps + ("ps2D",)))
    if e.name == "VCA":
        for n, f in list(SPECTRAL.items()) + list(CHANPERM.items()):
            if n == "permute-channels":
                continue
            yield n, on(None, f), same(*(PS_INV + ps + ("ps2D",)))
    if e.name == "PowerSpectrum" and not win and not opt and cfg != "azim":
        for n, c in OFFSETS.items():
            yield n, on(("data",), lambda a, c=c: a + c), same(*(PS_INV + ps))


def laws_vcs(e, cfg, opt):
    inv = ("freqs", "slope", "slope_err", "low_cut", "high_cut")
    for n, f in SPATIAL.items():
        yield n, on(None, f), same(*(inv + ("ps1D",)))
    yield "permute-pixels", on(None, permpix), same(*(inv + ("ps1D",)))
    for n, f in SPECTRAL.items():
        yield n, on(None, f), same(*(inv + ("ps1D",)))
    for n, c in SCALES.items():
        exp = same(*inv)
        exp["ps1D"] = times(c * c)
        yield n, on(None, lambda a, c=c: a * c), exp
    yield "negate", on(None, np.negative), same(*(inv + ("ps1D",)))


def laws_dv(e, cfg, opt):
    inv = ("lags", "slope", "slope_err")
    dv = ("delta_var", "delta_var_error")
    for n, f in SPATIAL.items():
        yield n, on(None, f), same(*(inv + dv))
    if cfg != "fill":
        # lags whose kernels fit into the map
        kw = dict(lags=np.array([2.0, 2.5, 3.3, 3.7, 4.2]) * u.pix)
        for n, s in SHIFTS.items():
            yield n, on(None, lambda a, s=s: np.roll(a, s, axis=(-2, -1))), same(*(inv + dv)), kw
    for n, c in SCALES.items():
        exp = same(*inv)
        exp.update({k: times(c * c) for k in dv})
        yield n, on(("data",), lambda a, c=c: a * c), exp
    yield "negate", on(("data",), np.negative), same(*(inv + dv))
    if "weights" in opt:
        for n, c in SCALES.items():
            yield "weights" + n, on(("weights",), lambda a, c=c: a * c), same(*(inv + dv))
    for n, c in OFFSETS.items():
        yield n, on(("data",), lambda a, c=c: a + c), same(*(inv + dv))


def laws_wave(e, cfg, opt):
    inv = ("scales", "slope", "slope_err")
    w = ("values", "stddev")
    for n, f in SPATIAL.items():
        yield n, on(None, f), same(*(inv + w))
    for n, c in SCALES.items():
        exp = same(*inv)
        exp.update({k: times(c) for k in w})
        yield n, on(None, lambda a, c=c: a * c), exp


def laws_scf(e, cfg, opt):
    inv = ("lags", "scf_spectrum", "scf_spectrum_stddev", "slope", "slope_err")
    azim = cfg == "azim"
    for n, f in SPATIAL.items():
        if azim and n != "rot180":
            continue
        exp = same(*inv)
        if cfg != "cut":
            exp["scf_surface"] = f
        yield n, on(None, f), exp
    if cfg != "cut":
        for n, s in SHIFTS.items():
            yield n, on(None, lambda a, s=s: np.roll(a, s, axis=(-2, -1))), same(*(inv + ("scf_surface",)))
    for n, f in list(SPECTRAL.items()) + list(CHANPERM.items()):
        yield n, on(None, f), same(*(inv + ("scf_surface",)))
    for n, c in SCALES.items():
        yield n, on(None, lambda a, c=c: a * c), same(*(inv + ("scf_surface",)))
    yield "negate", on(None, np.negative), same(*(inv + ("scf_surface",)))


HN = ("mean_hist", "variance_hist", "skewness_hist", "kurtosis_hist")
MA = ("mean_array", "variance_array", "skewness_array", "kurtosis_array")
MO = ("mean", "variance", "skewness", "kurtosis")


def laws_mom(e, cfg, opt):
    for n, f in SPATIAL.items():
        exp = same(*(MO + HN))
        exp.update({k: f for k in MA})
        yield n, on(None, f), exp
    if cfg != "nonper":
        for n, s in SHIFTS.items():
            f = lambda a, s=s: np.roll(a, s, axis=(-2, -1))
            exp = same(*(MO + HN))
            exp.update({k: f for k in MA})
            yield n, on(None, f), exp
    for n, c in SCALES.items():
        exp = {"mean": times(c), "variance": times(c * c), "skewness": ident, "kurtosis": ident,
               "mean_array": times(c), "variance_array": times(c * c), "skewness_array": ident,
               "kurtosis_array": ident, "skewness_hist": ident, "kurtosis_hist": ident}
        yield n, on(("data",), lambda a, c=c: a * c), exp
    for n, c in OFFSETS.items():
        add = lambda o, c=c: val(o) + c
        exp = {"mean": add, "variance": ident, "skewness": ident, "kurtosis": ident,
               "mean_array": add, "variance_array": ident, "skewness_array": ident, "kurtosis_array": ident}
        yield n, on(("data",), lambda a, c=c: a + c), exp
    exp = {"mean": times(-1), "variance": ident, "skewness": times(-1), "kurtosis": ident,
           "mean_array": times(-1), "variance_array": ident, "skewness_array": times(-1),
           "kurtosis_array": ident}
    yield "negate", on(("data",), np.negative), exp
    if "weights" in opt:
        for n, c in SCALES.items():
            yield "weights" + n, on(("weights",), lambda a, c=c: a * c), same(*(MO + MA + HN))


def laws_pdf(e, cfg, opt):
    for n, f in list(SPATIAL.items()) + [("permute-pixels", permpix)]:
        yield n, on(None, f), same("pdf", "bins", "ecdf", "q", "p", "fit")
    if cfg in ("plain", "bins"):
        for n, c in SCALES.items():
            yield n, on(("data",), lambda a, c=c: a * c), {"pdf": times(1 / c), "ecdf": ident, "bins": times(c),
                                                          "q": times(c)}
        for n, c in OFFSETS.items():
            if "weights" in opt:
                continue
            add = lambda o, c=c: val(o) + c
            yield n, on(("data",), lambda a, c=c: a + c), {"pdf": ident, "ecdf": ident, "bins": add, "q": add}


def laws_pca(e, cfg, opt):
    inv = ("n_eigs", "var_proportion")
    var = ("cov_matrix", "eigvals", "total_variance")
    for n, f in SPATIAL.items():
        exp = same(*(inv + var))
        exp["eigimages_abs"] = f
        yield n, on(None, f), exp
    yield "permute-pixels", on(None, permpix), dict(same(*(inv + var)), eigimages_abs=permpix)
    f = lambda a: np.roll(a, (3, -4), axis=(-2, -1))
    yield "shift(3,-4)", on(None, f), dict(same(*(inv + var)), eigimages_abs=f)
    for n, f in list(SPECTRAL.items()) + list(CHANPERM.items()):
        exp = same(*(inv + ("eigvals", "total_variance", "eigimages_abs")))
        exp["cov_matrix"] = lambda c, f=f: f(f(val(c)).T).T
        yield n, on(None, f), exp
    if cfg != "value":
        for n, c in SCALES.items():
            exp = same(*inv)
            exp.update({k: times(c * c) for k in var})
            exp["eigimages_abs"] = times(c)
            yield n, on(None, lambda a, c=c: a * c), exp
    yield "negate", on(None, np.negative), same(*(inv + var + ("eigimages_abs",)))


def laws_genus(e, cfg, opt):
    inv = ("thresholds", "genus_stats", "smoothed_means", "smoothed_stds")
    for n, f in SPATIAL.items():
        yield n, on(None, f), same(*inv)
    if cfg == "wrap":
        for n, s in SHIFTS.items():
            # the smoothing is periodic, the counting of objects is not
            yield n, on(None, lambda a, s=s: np.roll(a, s, axis=(-2, -1))), same("thresholds", "smoothed_means", "smoothed_stds")
    for n, c in SCALES.items():
        yield n, on(None, lambda a, c=c: a * c), {"thresholds": times(c), "genus_stats": ident,
                                                 "smoothed_means": times(c), "smoothed_stds": times(c)}
    if cfg == "wrap":
        for n, c in OFFSETS.items():
            add = lambda o, c=c: val(o) + c
            yield n, on(None, lambda a, c=c: a + c), {"thresholds": add, "genus_stats": ident,
                                                     "smoothed_means": add, "smoothed_stds": ident}
    yield "negate", on(None, np.negative), {"thresholds": lambda o: -val(o)[::-1],
                                            "genus_stats": lambda o: -val(o)[:, ::-1],
                                            "smoothed_means": times(-1), "smoothed_stds": ident}


def laws_tsal(e, cfg, opt):
    inv = ("lags", "lag_distribs", "tsallis_params", "tsallis_stderrs", "tsallis_chisq")
    for n, f in SPATIAL.items():
        yield n, on(None, f), dict(same(*inv), lag_arrays=f)
    if cfg != "nonper":
        for n, s in SHIFTS.items():
            f = lambda a, s=s: np.roll(a, s, axis=(-2, -1))
            yield n, on(None, f), dict(same(*inv), lag_arrays=f)
        for n, c in OFFSETS.items():
            yield n, on(None, lambda a, c=c: a + c), same(*(inv + ("lag_arrays",)))
    for n, c in SCALES.items():
        yield n, on(None, lambda a, c=c: a * c), same(*(inv + ("lag_arrays",)))

    def mir(o):
        o = val(o)[:, :, ::-1].copy()
        o[:, 0] *= -1
        return o
    yield "negate", on(None, np.negative), {"lags": ident, "lag_arrays": times(-1), "lag_distribs": mir,
                                            "tsallis_params": ident, "tsallis_chisq": ident}


def laws_bis(e, cfg, opt):
    inv = ("bicoherence", "tracker")
    for n, s in SHIFTS.items():
        f = lambda a, s=s: np.roll(a, s, axis=(-2, -1))
        yield n, on(None, f), same(*(inv + ("bispectrum",)))
    # reflection about pixel (0, 0) conjugates every Fourier coefficient
    yield "reflect-origin", on(None, lambda a: np.roll(a[::-1, ::-1], (1, 1), axis=(0, 1))), dict(same(*inv), bispectrum=np.conj)
    for n, c in SCALES.items():
        yield n, on(None, lambda a, c=c: a * c), dict(same(*inv), bispectrum=lambda o, c=c: np.asarray(o) * c ** 3)
    yield "negate", on(None, np.negative), dict(same(*inv), bispectrum=np.negative)
    if cfg == "msub" and not opt:
        for n, c in OFFSETS.items():
            yield n, on(None, lambda a, c=c: a + c), same(*(inv + ("bispectrum",)))


def laws_dend(e, cfg, opt):
    inv = ("numfeatures", "sorted_values", "hists", "min_deltas", "tail_slope", "tail_slope_err", "break_pos")
    for n, f in SPATIAL.items():
        yield n, on(None, f), same(*inv)
    if cfg == "per":
        for n, s in SHIFTS.items():
            yield n, on(None, lambda a, s=s: np.roll(a, s, axis=(-2, -1))), same(*inv)


LAWS = {"PowerSpectrum": laws_ps, "MVC": laws_ps, "VCA": laws_ps, "VCS": laws_vcs, "DeltaVariance": laws_dv,
        "Wavelet": laws_wave, "SCF": laws_scf, "StatMoments": laws_mom, "PDF": laws_pdf, "PCA": laws_pca,
        "Genus": laws_genus, "Tsallis": laws_tsal, "Bispectrum": laws_bis, "Dendrogram_Stats": laws_dend}

SHAPES = {"VCA": [(5, 16, 18), (4, 17, 13)], "Genus": [(24, 26), (27, 23)], "VCS": [(40, 5, 6), (33, 4, 5)], "SCF": [(4, 10, 12), (3, 11, 9)],
          "PCA": [(12, 16, 16), (7, 11, 13)], "StatMoments": [(10, 12), (11, 9)], "PDF": [(10, 12), (11, 9)],
          "Bispectrum": [(10, 12), (11, 9)], "Dendrogram_Stats": [(20, 22), (21, 17)],
          "Tsallis": [(16, 20), (19, 17)]}
SKIPCFG = {"brk", "brkrej", "fftw"}
# missing pixels are given with the data; weights where the statistic takes them
OPTS = {"PowerSpectrum": ((), ("nan",), ("weights",), ("nan", "weights")), "MVC": ((), ("nan",)),
        "VCA": ((), ("nan",)), "VCS": ((), ("nan",)), "DeltaVariance": ((), ("nan",), ("weights",), ("nan", "weights")),
        "Wavelet": ((), ("nan",)), "SCF": ((), ("nan",)), "StatMoments": ((), ("nan",), ("weights",), ("nan", "weights")),
        "PDF": ((), ("nan",), ("weights",), ("nan", "weights")), "PCA": ((), ("nan",)), "Genus": ((), ("nan",)), "Tsallis": ((), ("nan",)),
        "Bispectrum": ((), ("nan",)), "Dendrogram_Stats": ((), ("nan",))}
# iterative fits converge only to their own tolerance
LOOSE = {("Tsallis", "tsallis_params"): 1e-3, ("Tsallis", "tsallis_stderrs"): 3e-2, ("Tsallis", "tsallis_chisq"): 1e-3}


def make_raw(e, shape, opt):
    raw = e.raw(0, shape)
    sp = shape[-2:]
    if "weights" in opt:
        raw["weights"] = 0.5 + np.abs(fx.img(sp, 9))
    if "nan" in opt:
        raw = {k: v.copy() for k, v in raw.items()}
        for k in raw:
            if k == "weights":
                continue
            for (y, x) in ((0, 3), (2, 4), (sp[0] - 1, 1)):
                raw[k][..., y, x] = np.nan
    return raw


def gen(tier):
    for n, e in ENTRIES.items():
        for shape in SHAPES.get(n, [e.shape, (19, 15)]):
            for cfg in e.RUNS:
                if cfg in SKIPCFG:
                    continue
                for opt in OPTS[n]:
                    yield {"stat": n, "shape": list(shape), "cfg": cfg, "opt": list(opt)}


def observe(e, raw, cfg, kw={}):
    shape = raw["data"].shape
    # a beam small enough that dividing by its power does not only amplify rounding
    obj = e.build(raw, e.hdr(shape, bmaj=0.013) if e.header else None, **kw)
    e.run(obj, cfg)
    out = e.obs(obj)
    if "values" in out and e.name == "Dendrogram_Stats":
        out["sorted_values"] = [np.sort(v) for v in out["values"]]
    return out


def run(ctx, stat, shape, cfg, opt):
    e = ENTRIES[stat]
    raw = make_raw(e, tuple(shape), opt)
    base0 = observe(e, raw, cfg)
    ctx.step()
    for law in LAWS[stat](e, cfg, opt):
        name, f, exp = law[:3]
        kw = law[3] if len(law) > 3 else {}
        base = observe(e, raw, cfg, kw) if kw else base0
        got = observe(e, f(raw), cfg, kw)
        ctx.step()
        for k, fn in exp.items():
            if base.get(k) is None:
                ctx.check(got.get(k) is None, "law:%s:%s:%s" % (stat, name, k), "appeared")
                continue
            w = fn(base[k]) if fn is not ident else base[k]
            G, W = dict(flat(got[k])), dict(flat(w))
            if set(G) != set(W):
                ctx.fail("law:%s:%s:%s" % (stat, name, k), "structure %s vs %s" % (sorted(G), sorted(W)))
                continue
            for p in W:
                if W[p] is None:
                    continue
                g, want = G[p], W[p]
                cplx = np.iscomplexobj(want)
                g = np.asarray(getattr(g, "value", g))
                want = np.asarray(getattr(want, "value", want))
                if not cplx:
                    g, want = g.astype(float), want.astype(float)
                key = "law:%s:%s:%s" % (stat, name, k + p)
                if stat == "MVC" and name.startswith("velocityx"):
                    key = "mvc-velocity-units"
                elif stat == "Bispectrum" and name.startswith("shift"):
                    key = "bispectrum-open-triangles"
                ctx.close(g, want, key, rtol=LOOSE.get((stat, k), 1e-6),
                          msg="%s %s %s" % (cfg, shape, opt))
        ctx.state(stat, cfg, tuple(shape), tuple(opt), name)


# --- 2D fits ---------------------------------------------------------------------------
def anis(shape, q, th, k=0):
    """Power-law image whose contours of power are ellipses of axis ratio q (major axis at th from x)."""
    r = np.random.RandomState(31 + k)
    F = np.fft.fft2(r.normal(size=shape))
    F /= np.abs(F)
    fy, fx_ = np.meshgrid(np.fft.fftfreq(shape[0]), np.fft.fftfreq(shape[1]), indexing="ij")
    a = fx_ * np.cos(th) + fy * np.sin(th)
    b = -fx_ * np.sin(th) + fy * np.cos(th)
    rr = np.hypot(q * a, b)
    rr[0, 0] = 1
    F *= rr ** -1.5
    F[0, 0] = 0
    out = np.real(np.fft.ifft2(F))
    return 10 + out / out.std()


def gen_2d(tier):
    shapes = [(24, 24), (25, 25), (24, 28), (27, 22)] + ([(33, 32), (40, 25)] if tier == "thorough" else [])
    for stat in ("PowerSpectrum", "VCA"):
        for shape in shapes:
            for q in (0.4, 0.7):
                for th in ((0.3, 1.2, 2.4) if tier == "quick" else (0.1, 0.3, 0.8, 1.2, 1.9, 2.4, 3.0)):
                    yield {"stat": stat, "shape": list(shape), "q": q, "th": th}


def run_2d(ctx, stat, shape, q, th):
    from turbustat.statistics import PowerSpectrum, VCA
    d0 = anis(tuple(shape), q, th)

    def fit(d):
        if stat == "PowerSpectrum":
            o = PowerSpectrum(d, header=fx.hdr2(d.shape))
        else:
            prof = np.array([0.3, 1.0, 0.6])[:, None, None]
            o = VCA(prof * d, header=fx.hdr3((3,) + d.shape))
        o.run(fit_2D=True, low_cut=0.06 / u.pix, high_cut=0.4 / u.pix, fit_2D_kwargs=dict(bootstrap=False))
        ctx.step()
        return o
    b = fit(d0)
    ctx.close(b.slope2D, -3., "fit2d:exact-slope", rtol=1e-4)
    ctx.close(b.ellip2D, q, "fit2d:exact-ellip", rtol=1e-3)
    maps = {"mirror-y": lambda t: -t, "mirror-x": lambda t: -t, "rot180": lambda t: t, "transpose": lambda t: np.pi / 2 - t,
            "antitranspose": lambda t: np.pi / 2 - t, "rot90": lambda t: t + np.pi / 2, "rot270": lambda t: t + np.pi / 2}
    ops = [(n, SPATIAL[n], maps[n]) for n in maps]
    ops += [("x%g" % c, lambda a, c=c: a * c, ident) for c in (2.0, 1e-6, 1e-9, 1e6, -1.0)]
    ops += [("shift", lambda a: np.roll(a, (5, -3), axis=(0, 1)), ident)]
    for n, f, tm in ops:
        o = fit(np.ascontiguousarray(f(d0)))
        m = "%s %s q=%g th=%g" % (n, shape, q, th)
        ctx.close(o.slope2D, b.slope2D, "fit2d:slope", rtol=2e-3, msg=m)
        ctx.close(o.ellip2D, b.ellip2D, "fit2d:ellip", rtol=5e-3, msg=m)
        dt = (float(val(o.theta2D)) - tm(float(val(b.theta2D)))) % np.pi
        ctx.check(min(dt, np.pi - dt) < 5e-3, "fit2d:theta", "%s theta %r expected %r" % (m, o.theta2D, tm(float(val(b.theta2D))) % np.pi))
        ctx.state(stat, tuple(shape), q, th, n)


FAMILIES = {"laws": Family(gen, run, "14 statistics x 2 shapes x every option set x missing pixels x weights; 7 mirror/rotation/"
                                     "transposition images, 4 cyclic shifts, channel and pixel re-orderings, 4 factors, 2 offsets, sign"),
            "fit2d": Family(gen_2d, run_2d, "2 statistics x 4 shapes (thorough 6) x 2 axis ratios x 3 angles (thorough 7) x 13 transformations")}
