"""One entry per statistic: how to build it, how to run it, what to observe.

Only documented constructor arguments, run() arguments and public result
attributes are used, so that the entries survive refactoring of the internals.
"""
import numpy as np
import astropy.units as u
from . import fx


def getobs(obj, names):
    out = {}
    for n in names:
        try:
            v = getattr(obj, n)
        except (AttributeError, ValueError):
            out[n] = None
            continue
        if callable(v):
            v = v()
        out[n] = v
    return out


class Entry(object):
    ndim = 2
    shape = (16, 18)
    header = True        # statistic wants a header
    extra = ()           # names of further array inputs
    posdata = False
    RUNS = {}
    OBS = ()

    # -- raw inputs --------------------------------------------------------
    def raw(self, k=0, shape=None):
        shape = shape or self.shape
        if len(shape) == 2:
            a = fx.redimg(shape, k)
        else:
            a = fx.cube(shape, k)
        return {"data": a}

    def hdr(self, shape=None, **kw):
        shape = shape or self.shape
        return fx.hdr2(shape, **kw) if len(shape) == 2 else fx.hdr3(shape, **kw)

    def build(self, raw, header, **kw):
        raise NotImplementedError

    def run(self, obj, cfg):
        kw = self.RUNS[cfg]
        kw = kw() if callable(kw) else dict(kw)
        return obj.run(**kw)

    def obs(self, obj):
        return getobs(obj, self.OBS)


PSPEC_OBS = ("ps2D", "ps1D", "ps1D_stddev", "freqs", "wavenumbers", "slope",
             "slope_err", "brk", "low_cut", "high_cut")
PSPEC2_OBS = ("slope2D", "ellip2D", "theta2D")
P1 = u.pix ** -1


def pspec_runs(brk=0.25):
    return {
        "plain": lambda: dict(fit_2D=False),
        "cuts": lambda: dict(fit_2D=False, low_cut=0.08 / u.pix, high_cut=0.4 / u.pix),
        "apod": lambda: dict(fit_2D=False, apodize_kernel="tukey", alpha=0.3),
        "brk": lambda: dict(fit_2D=False, fit_kwargs=dict(brk=brk / u.pix, min_fits_pts=2)),
        "brkrej": lambda: dict(fit_2D=False, fit_kwargs=dict(brk=brk / u.pix, min_fits_pts=50)),
        "log": lambda: dict(fit_2D=False, radial_pspec_kwargs=dict(logspacing=True, nbins=6)),
        "azim": lambda: dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False, use_azimmask=True),
                             radial_pspec_kwargs=dict(theta_0=30 * u.deg, delta_theta=60 * u.deg)),
        "weighted": lambda: dict(fit_2D=False, fit_kwargs=dict(weighted_fit=True)),
        "unbinned": lambda: dict(fit_2D=False, fit_unbinned=True),
        "fit2d": lambda: dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False)),
        "fit2dm": lambda: dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False, use_azimmask=True)),
        "beam": lambda: dict(fit_2D=False, beam_correct=True, high_cut=0.3 / u.pix),
        "fftw": lambda: dict(fit_2D=False, use_pyfftw=True),
    }


class PSpec(Entry):
    name = "PowerSpectrum"
    extra = ("weights",)
    RUNS = pspec_runs()
    OBS = PSPEC_OBS + ("brk_err",) + PSPEC2_OBS

    def build(self, raw, header, **kw):
        from turbustat.statistics import PowerSpectrum
        return PowerSpectrum(raw["data"], header=header, weights=raw.get("weights"), **kw)


class MVCE(Entry):
    name = "MVC"
    RUNS = pspec_runs(0.16)
    OBS = PSPEC_OBS + ("brk_err",) + PSPEC2_OBS
    extra = ("moment0", "linewidth")

    def raw(self, k=0, shape=None):
        m = fx.moments_maps(shape or self.shape, k + 1)
        return {"data": m["centroid"], "moment0": m["moment0"], "linewidth": m["linewidth"]}

    def build(self, raw, header, **kw):
        from turbustat.statistics import MVC
        return MVC(raw["data"], raw["moment0"], raw["linewidth"], header=header, **kw)


class VCAE(Entry):
    name = "VCA"
    ndim = 3
    shape = (5, 16, 18)
    RUNS = pspec_runs()
    OBS = PSPEC_OBS + ("brk_err",) + PSPEC2_OBS

    def build(self, raw, header, **kw):
        from turbustat.statistics import VCA
        return VCA(raw["data"], header=header, **kw)


class VCSE(Entry):
    name = "VCS"
    ndim = 3
    shape = (40, 5, 6)
    RUNS = {
        "plain": lambda: dict(),
        "brk": lambda: dict(breaks=-0.8),
        "cuts": lambda: dict(low_cut=0.05 / u.pix, high_cut=0.45 / u.pix),
        "fftw": lambda: dict(use_pyfftw=True),
    }
    OBS = ("ps1D", "freqs", "slope", "slope_err", "brk", "brk_err", "low_cut", "high_cut")

    def build(self, raw, header, **kw):
        from turbustat.statistics import VCS
        return VCS(raw["data"], header=header, **kw)


class DelVar(Entry):
    name = "DeltaVariance"
    extra = ("weights",)
    RUNS = {
        "plain": lambda: dict(show_progress=False),
        "fill": lambda: dict(show_progress=False, boundary="fill"),
        "lims": lambda: dict(show_progress=False, xlow=3.2 * u.pix, xhigh=7 * u.pix),
        "brk": lambda: dict(show_progress=False, brk=4.2 * u.pix),
        "brkrej": lambda: dict(show_progress=False, brk=5.1 * u.pix),
        "nan": lambda: dict(show_progress=False, nan_treatment="interpolate"),
        "fftw": lambda: dict(show_progress=False, use_pyfftw=True),
    }
    OBS = ("lags", "delta_var", "delta_var_error", "slope", "slope_err", "brk", "brk_err", "fit_range")

    def build(self, raw, header, **kw):
        from turbustat.statistics import DeltaVariance
        kw.setdefault("nlags", 9)
        return DeltaVariance(raw["data"], header=header, weights=raw.get("weights"), **kw)


class Wave(Entry):
    name = "Wavelet"
    RUNS = {
        "plain": lambda: dict(show_progress=False),
        "lims": lambda: dict(show_progress=False, xlow=2 * u.pix, xhigh=7 * u.pix),
        "brk": lambda: dict(show_progress=False, brk=4.2 * u.pix),
        "brkrej": lambda: dict(show_progress=False, brk=4.2 * u.pix,
                               fit_kwargs=dict(min_fits_pts=50)),
        "wfit": lambda: dict(show_progress=False, fit_kwargs=dict(weighted_fit=True)),
        "nonorm": lambda: dict(show_progress=False, scale_normalization=False),
        "fftw": lambda: dict(show_progress=False, use_pyfftw=True),
    }
    OBS = ("scales", "values", "stddev", "slope", "slope_err", "brk", "brk_err", "fit_range")

    def build(self, raw, header, **kw):
        from turbustat.statistics import Wavelet
        kw.setdefault("num", 10)
        return Wavelet(raw["data"], header=header, **kw)


class SCFE(Entry):
    name = "SCF"
    ndim = 3
    shape = (4, 10, 12)
    RUNS = {
        "plain": lambda: dict(show_progress=False, fit_2D=False),
        "cut": lambda: dict(show_progress=False, fit_2D=False, boundary="cut"),
        "lims": lambda: dict(show_progress=False, fit_2D=False, xlow=0.6 * u.pix, xhigh=3 * u.pix),
        "azim": lambda: dict(show_progress=False, fit_2D=False,
                             radialavg_kwargs=dict(theta_0=0 * u.deg, delta_theta=80 * u.deg)),
        "fit2d": lambda: dict(show_progress=False, fit_2D=True, fit_2D_kwargs=dict(bootstrap=False)),
        "fit2dm": lambda: dict(show_progress=False, fit_2D=True,
                               fit_2D_kwargs=dict(bootstrap=False, use_azimmask=True)),
    }
    OBS = ("scf_surface", "scf_spectrum", "scf_spectrum_stddev", "lags", "slope",
           "slope_err", "xlow", "xhigh", "slope2D", "ellip2D", "theta2D")

    def build(self, raw, header, **kw):
        from turbustat.statistics import SCF
        kw.setdefault("size", 7)
        return SCF(raw["data"], header=header, **kw)


class StatMom(Entry):
    name = "StatMoments"
    shape = (10, 12)
    extra = ("weights",)
    RUNS = {
        "plain": lambda: dict(show_progress=False),
        "r3": lambda: dict(show_progress=False, radius=3 * u.pix),
        "nonper": lambda: dict(show_progress=False, periodic=False),
        "r2": lambda: dict(show_progress=False, radius=2 * u.pix),
        "bins": lambda: dict(show_progress=False, mean_bins=4, skewness_bins=6),
    }
    OBS = ("mean", "variance", "skewness", "kurtosis", "mean_array", "variance_array",
           "skewness_array", "kurtosis_array", "mean_hist", "variance_hist",
           "skewness_hist", "kurtosis_hist", "mean_extrema")

    def build(self, raw, header, **kw):
        from turbustat.statistics import StatMoments
        kw.setdefault("radius", 2 * u.pix)
        return StatMoments(raw["data"], header=header, weights=raw.get("weights"), **kw)


class PDFE(Entry):
    name = "PDF"
    header = False
    shape = (10, 12)
    extra = ("weights",)
    RUNS = {
        "plain": lambda: dict(do_fit=False),
        "bins": lambda: dict(do_fit=False, bins=7),
        "edges": lambda: dict(do_fit=False, bins=np.linspace(2., 20., 9)),
        "fit": lambda: dict(do_fit=True),
    }
    OBS = ("pdf", "bins", "ecdf", "data", "normalization_type")

    def build(self, raw, header, **kw):
        from turbustat.statistics import PDF
        return PDF(raw["data"], weights=raw.get("weights"), **kw)

    def obs(self, obj):
        out = getobs(obj, self.OBS)
        out["q"] = obj.find_at_percentile(np.array([10., 50., 90.]))
        out["p"] = obj.find_percentile(np.array([5., 10., 12.]))
        return out


class PCAE(Entry):
    name = "PCA"
    ndim = 3
    shape = (12, 16, 16)
    RUNS = {
        "decomp": lambda: dict(show_progress=False, decomp_only=True, n_eigs=4),
        "meansub": lambda: dict(show_progress=False, decomp_only=True, n_eigs=4, mean_sub=True),
        "auto": lambda: dict(show_progress=False, decomp_only=True, min_eigval=0.9,
                             eigen_cut_method="proportion"),
        "value": lambda: dict(show_progress=False, decomp_only=True, min_eigval=1e-2),
        "all": lambda: dict(show_progress=False, decomp_only=True, n_eigs=-1),
    }
    OBS = ("cov_matrix", "eigvals", "n_eigs", "total_variance", "var_proportion",
           "eigimages_abs")

    def build(self, raw, header, **kw):
        from turbustat.statistics import PCA
        d = raw["data"]
        return PCA((d, header) if header is not None else d, **kw)

    def obs(self, obj):
        out = getobs(obj, self.OBS[:-1])
        out["eigimages_abs"] = np.abs(obj.eigimages(2))
        out["acf"] = obj.autocorr_images(2)
        out["acs"] = obj.autocorr_spec(2)
        return out


class Gen(Entry):
    name = "Genus"
    RUNS = {
        "plain": lambda: dict(),
        "min9": lambda: dict(min_size=9),
        "noremove": lambda: dict(enable_small_removal=False, connectivity=1),
        "wrap": lambda: dict(boundary="wrap"),
    }
    OBS = ("thresholds", "genus_stats", "smoothed_means", "smoothed_stds", "smoothing_radii")

    def build(self, raw, header, **kw):
        from turbustat.statistics import Genus
        kw.setdefault("numpts", 12)
        kw.setdefault("smoothing_radii", np.array([1.0, 2.0]))
        d = raw["data"]
        return Genus((d, header) if header is not None else d, **kw)


class Tsal(Entry):
    name = "Tsallis"
    shape = (16, 20)
    RUNS = {
        "plain": lambda: dict(),
        "nonper": lambda: dict(periodic=False),
        "bins": lambda: dict(num_bins=11),
        "noclip": lambda: dict(sigma_clip=None),
    }
    OBS = ("lags", "lag_arrays", "lag_distribs", "tsallis_params", "tsallis_stderrs",
           "tsallis_chisq")

    def raw(self, k=0, shape=None):
        return {"data": fx.img(shape or self.shape, k)}

    def build(self, raw, header, **kw):
        from turbustat.statistics import Tsallis
        return Tsallis(raw["data"], header=header, **kw)


class Bis(Entry):
    name = "Bispectrum"
    header = False
    shape = (10, 12)
    RUNS = {
        "plain": lambda: dict(show_progress=False, nsamples=12),
        "seed": lambda: dict(show_progress=False, nsamples=12, seed=7),
        "msub": lambda: dict(show_progress=False, nsamples=12, mean_subtract=True),
        "fftw": lambda: dict(show_progress=False, nsamples=12, use_pyfftw=True),
    }
    OBS = ("bispectrum", "bicoherence", "bispectrum_logamp", "tracker")

    def build(self, raw, header, **kw):
        from turbustat.statistics import Bispectrum
        return Bispectrum(raw["data"], **kw)


class Dend(Entry):
    name = "Dendrogram_Stats"
    shape = (20, 22)
    RUNS = {
        "plain": lambda: dict(show_progress=False, fit_kwargs=dict(size=3)),
        "per": lambda: dict(show_progress=False, periodic_bounds=True, fit_kwargs=dict(size=3)),
        "bins": lambda: dict(show_progress=False, fit_kwargs=dict(size=3),
                             hist_kwargs=dict(bins=5, min_number=3)),
    }
    OBS = ("numfeatures", "values", "hists", "min_deltas", "tail_slope", "tail_slope_err",
           "break_pos", "fitvals")

    def raw(self, k=0, shape=None):
        return {"data": 5 + fx.img(shape or self.shape, k)}

    def build(self, raw, header, **kw):
        from turbustat.statistics import Dendrogram_Stats
        kw.setdefault("min_deltas", np.linspace(0.1, 2.5, 8))
        kw.setdefault("dendro_params", {"min_npix": 2, "min_value": 0.5, "min_delta": 0.1})
        return Dendrogram_Stats(raw["data"], header=header, **kw)


ENTRIES = {e.name: e for e in (PSpec(), MVCE(), VCAE(), VCSE(), DelVar(), Wave(), SCFE(),
                               StatMom(), PDFE(), PCAE(), Gen(), Tsal(), Bis(), Dend())}


def flat(o, path=""):
    """Flatten an observation into (path, array) pairs."""
    if o is None:
        yield path, None
    elif isinstance(o, dict):
        for k in o:
            for x in flat(o[k], path + "." + str(k)):
                yield x
    elif isinstance(o, (list, tuple)):
        yield path + "#", np.array(len(o))
        for i, v in enumerate(o):
            for x in flat(v, path + "[%d]" % i):
                yield x
    else:
        yield path, o


def same_obs(ctx, got, want, key, rtol=1e-7, atol=0.0, skip=(), msg=""):
    """Compare two observations structurally; False at the first mismatch."""
    g = dict(flat(got))
    w = dict(flat(want))
    ok = True
    for k in sorted(set(g) | set(w)):
        if any(k.lstrip(".").startswith(s) for s in skip):
            continue
        a, b = g.get(k), w.get(k)
        if (a is None) != (b is None):
            ctx.fail(key + k, "%s one side missing: %r vs %r" % (msg, a, b))
            ok = False
            continue
        if a is None:
            continue
        ua, ub = getattr(a, "unit", None), getattr(b, "unit", None)
        if ua is not None and ub is not None and ua != ub:
            try:
                a = a.to(ub)
            except Exception:
                ctx.fail(key + k, "%s units differ %s vs %s" % (msg, ua, ub))
                ok = False
                continue
        if isinstance(a, str) or isinstance(b, str):
            ok &= ctx.check(a == b, key + k, "%s %r != %r" % (msg, a, b))
        else:
            ok &= ctx.close(a, b, key + k, rtol=rtol, atol=atol, msg=msg)
    return ok
