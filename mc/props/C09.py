"""Distance metrics: identity, symmetry, non-negativity, documented formula,
and independence of how each data set is supplied."""
import copy
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from ..dcatalog import DENTRIES
from .. import fx

ASSUMPTIONS = ["three data sets of one shape and one of another shape per metric",
               "the reference formula is evaluated on independently run statistics, whose own "
               "correctness is the subject of the per-statistic properties"]
BOTH_SHAPES = {"SCF_Distance": False}


def dsets(e):
    return {"A": lambda: e.data(0), "B": lambda: e.data(1), "C": lambda: e.data(2),
            "E": lambda: e.data(3, e.shape2)}


# pairwise Euclidean distances are evaluated as |x|^2-2xy+|y|^2, which is only good to ~sqrt(eps);
# the metric takes a further square root of them
ATOL = {"Cramer_Distance": 2e-4}


def vals_close(ctx, e, got, want, key, msg="", rtol=1e-6):
    for k in want:
        g, w = np.asarray(got[k], float), np.asarray(want[k], float)
        ctx.close(g, w, "%s:%s:%s" % (key, e.name, k), rtol=rtol, atol=ATOL.get(e.name, 1e-9), msg=msg)


# --- metric axioms ------------------------------------------------------------
def gen_ax(tier):
    for n in DENTRIES:
        for a, b in itertools.product("ABCE", repeat=2):
            yield {"dist": n, "a": a, "b": b}


def run_ax(ctx, dist, a, b):
    e = DENTRIES[dist]
    D = dsets(e)
    v = e.vals(e.dist(D[a](), D[b]()))
    r = e.vals(e.dist(D[b](), D[a]()))
    ctx.step(2)
    for k in v:
        x = float(np.asarray(v[k]))
        ctx.check(np.isnan(x) or x >= -ATOL.get(dist, 1e-12), "nonneg:%s:%s" % (dist, k), "%s=%r" % (k, x))
        if a == b and not (dist == "VCS_Distance" and k in ("small", "brk")):
            ctx.check(abs(x) <= ATOL.get(dist, 1e-7), "identity:%s:%s" % (dist, k), "d(x,x)=%r" % x)
    vals_close(ctx, e, r, v, "symmetry", "d(%s,%s) vs d(%s,%s)" % (b, a, a, b))
    vals_close(ctx, e, v, {k: w for k, w in e.ref(D[a](), D[b]()).items()}, "formula", "pair %s%s" % (a, b))
    ctx.step()
    ctx.state(dist, a, b, {k: np.asarray(v[k], float) for k in v})


# --- how data sets are supplied -------------------------------------------------
def gen_forms(tier):
    for n, e in DENTRIES.items():
        if not e.pre_ok:
            continue
        for fa, fb in itertools.product(("data", "fresh", "run"), repeat=2):
            for pair in ("AB", "BA", "AA", "AE", "EA"):
                yield {"dist": n, "fa": fa, "fb": fb, "pair": pair}


def run_forms(ctx, dist, fa, fb, pair):
    e = DENTRIES[dist]
    D = dsets(e)

    def form(f, k):
        d = D[k]()
        if f == "data":
            return d
        return e.pre(d, run=(f == "run"))
    kw = {}
    v0 = e.vals(e.dist(D[pair[0]](), D[pair[1]](), **kw))
    v1 = e.vals(e.dist(form(fa, pair[0]), form(fb, pair[1]), **kw))
    ctx.step(2)
    vals_close(ctx, e, v1, v0, "forms", "%s given as %s/%s" % (pair, fa, fb))
    ctx.state(dist, fa, fb, pair)


# --- options are applied to the right data set -----------------------------------
P = u.pix
OPTS = {
    # name: dist -> (kw for (a,b), kw for (b,a))
    "PSpec_Distance": {
        "cuts": (dict(low_cut=[0.08, 0.12] / P, high_cut=[0.4, 0.45] / P), dict(low_cut=[0.12, 0.08] / P, high_cut=[0.45, 0.4] / P)),
        "kw2": (dict(pspec_kwargs=dict(radial_pspec_kwargs=dict(nbins=8)), pspec2_kwargs=dict(radial_pspec_kwargs=dict(nbins=11))),
                dict(pspec_kwargs=dict(radial_pspec_kwargs=dict(nbins=11)), pspec2_kwargs=dict(radial_pspec_kwargs=dict(nbins=8)))),
        "w": (dict(weights1=1.), dict(weights2=1.)),
    },
    "MVC_Distance": {
        "cuts": (dict(low_cut=[0.08, 0.12] / P, high_cut=[0.4, 0.45] / P), dict(low_cut=[0.12, 0.08] / P, high_cut=[0.45, 0.4] / P)),
        "kw2": (dict(pspec_kwargs=dict(nbins=8), pspec2_kwargs=dict(nbins=11)), dict(pspec_kwargs=dict(nbins=11), pspec2_kwargs=dict(nbins=8))),
        "err": (dict(weight_by_error=True), dict(weight_by_error=True)),
    },
    "VCA_Distance": {
        "cuts": (dict(low_cut=[0.08, 0.12] / P, high_cut=[0.4, 0.45] / P), dict(low_cut=[0.12, 0.08] / P, high_cut=[0.45, 0.4] / P)),
        "kw2": (dict(radial_pspec_kwargs=dict(nbins=8), radial_pspec_kwargs2=dict(nbins=11)),
                dict(radial_pspec_kwargs=dict(nbins=11), radial_pspec_kwargs2=dict(nbins=8))),
    },
    "VCS_Distance": {
        "kw2": (dict(fit_kwargs=dict(low_cut=0.05 / P), fit_kwargs2=dict(high_cut=0.4 / P)),
                dict(fit_kwargs=dict(high_cut=0.4 / P), fit_kwargs2=dict(low_cut=0.05 / P))),
    },
    "DeltaVariance_Distance": {
        "kw2": (dict(delvar_kwargs=dict(show_progress=False, boundary="fill"), delvar2_kwargs=dict(show_progress=False, xlow=4 * P)),
                dict(delvar_kwargs=dict(show_progress=False, xlow=4 * P), delvar2_kwargs=dict(show_progress=False, boundary="fill"))),
        "nocommon": (dict(use_common_lags=False), dict(use_common_lags=False)),
        "lags": (dict(lags=np.array([3., 4., 5., 6.]) * P), dict(lags=np.array([3., 4., 5., 6.]) * P)),
        "lagsnc": (dict(lags=np.array([3., 4., 5., 6.]) * P, use_common_lags=False),
                   dict(lags=np.array([3., 4., 5., 6.]) * P, use_common_lags=False)),
        "w": (dict(weights1=1.), dict(weights2=1.)),
    },
    "Wavelet_Distance": {
        "lims": (dict(xlow=[2., 3.] * P, xhigh=[6., 7.] * P), dict(xlow=[3., 2.] * P, xhigh=[7., 6.] * P)),
        "kw2": (dict(fit_kwargs=dict(show_progress=False, scale_normalization=False), fit_kwargs2=dict(show_progress=False)),
                dict(fit_kwargs=dict(show_progress=False), fit_kwargs2=dict(show_progress=False, scale_normalization=False))),
        "num": (dict(scales=None, num=9), dict(scales=None, num=9)),
    },
    "SCF_Distance": {
        "bound": (dict(boundary=["cut", "continuous"]), dict(boundary=["continuous", "cut"])),
        "unw": (dict(weighted=False), dict(weighted=False)),
        "even": (dict(size=8), dict(size=8)),
    },
    "StatMoments_Distance": {
        "per": (dict(periodic1=False, periodic2=True, min_frac=0.5), dict(periodic1=True, periodic2=False, min_frac=0.5)),
        "nbins": (dict(nbins=9), dict(nbins=9)),
        "w": (dict(weights1=1.), dict(weights2=1.)),
    },
    "PDF_Distance": {
        "min": (dict(min_val1=0.8, min_val2=1.0), dict(min_val1=1.0, min_val2=0.8)),
        "norm": (dict(normalization_type="normalize_by_mean", do_fit=False), dict(normalization_type="normalize_by_mean", do_fit=False)),
        "nbins": (dict(nbins=9, bin_min=0.5, bin_max=2.), dict(nbins=9, bin_min=0.5, bin_max=2.)),
        "w": (dict(weights1=1.), dict(weights2=1.)),
    },
    "PCA_Distance": {
        "nosub": (dict(mean_sub=False), dict(mean_sub=False)),
        "n2": (dict(n_eigs=2), dict(n_eigs=2)),
    },
    "Genus_Distance": {
        "minmax": (dict(min_value=[-1.5, -1.0], max_value=[1.5, 1.2]), dict(min_value=[-1.0, -1.5], max_value=[1.2, 1.5])),
        "pct": (dict(lowdens_percent=[5, 10], highdens_percent=[90, 95]), dict(lowdens_percent=[10, 5], highdens_percent=[95, 90])),
        "kw2": (dict(genus_kwargs=dict(min_size=6), genus2_kwargs=dict(min_size=2)), dict(genus_kwargs=dict(min_size=2), genus2_kwargs=dict(min_size=6))),
        "num": (dict(numpts=20), dict(numpts=20)),
    },
    "Bispectrum_Distance": {
        "seed": (dict(stat_kwargs=dict(nsamples=7, seed=5, show_progress=False)), dict(stat_kwargs=dict(nsamples=7, seed=5, show_progress=False))),
    },
    "Dendrogram_Distance": {
        "nbins": (dict(nbins=6), dict(nbins=6)),
        "kw2": (dict(dendro_kwargs=dict(show_progress=False, periodic_bounds=True, fit_kwargs=dict(size=3)),
                     dendro2_kwargs=dict(show_progress=False, fit_kwargs=dict(size=5))),
                dict(dendro_kwargs=dict(show_progress=False, fit_kwargs=dict(size=5)),
                     dendro2_kwargs=dict(show_progress=False, periodic_bounds=True, fit_kwargs=dict(size=3)))),
        "par2": (dict(dendro_params=[{"min_npix": 2, "min_value": 0.5, "min_delta": 0.1}, {"min_npix": 4, "min_value": 1.5, "min_delta": 0.1}]),
                 dict(dendro_params=[{"min_npix": 4, "min_value": 1.5, "min_delta": 0.1}, {"min_npix": 2, "min_value": 0.5, "min_delta": 0.1}])),
    },
    "Cramer_Distance": {
        "noise": (dict(noise_value1=3., noise_value2=5.), dict(noise_value1=5., noise_value2=3.)),
    },
}


def gen_opts(tier):
    for n in DENTRIES:
        for o in OPTS.get(n, {}):
            for pair in ("AB", "BA", "AA", "CB", "AE"):
                yield {"dist": n, "opt": o, "pair": pair}


def run_opts(ctx, dist, opt, pair):
    e = DENTRIES[dist]
    D = dsets(e)

    def kwof(kw, first, second):
        kw = copy.deepcopy(kw)
        for i, nm in ((1, first), (2, second)):
            if "weights%d" % i in kw:
                d = D[nm]()
                kw["weights%d" % i] = np.random.RandomState(4).uniform(0.3, 1., size=d[0].shape)
        return kw
    ka, kb = OPTS[dist][opt]
    v = e.vals(e.dist(D[pair[0]](), D[pair[1]](), **kwof(ka, *pair)))
    r = e.vals(e.dist(D[pair[1]](), D[pair[0]](), **kwof(kb, *pair[::-1])))
    ctx.step(2)
    vals_close(ctx, e, r, v, "opt-swap:" + opt, "options %s swapped with the data" % opt)
    for k in v:
        x = float(np.asarray(v[k]))
        ctx.check(np.isnan(x) or x >= -ATOL.get(dist, 1e-12), "opt-nonneg:%s:%s" % (dist, k), "%r" % x)
    ctx.state(dist, opt, pair, {k: np.asarray(v[k], float) for k in v})


# --- per data set options reach the statistic they are meant for -------------------
def gen_target(tier):
    yield {"which": "all"}


def run_target(ctx, which):
    """Options for data set 1 / 2 give the statistic an independent run with the same options gives."""
    from turbustat.statistics import PowerSpectrum, VCA, MVC, Wavelet, VCS, DeltaVariance, Genus
    from ..dcatalog import sl
    e = DENTRIES["PSpec_Distance"]
    d = e.dist(e.data(0), e.data(1), pspec_kwargs=dict(radial_pspec_kwargs=dict(nbins=8)),
               pspec2_kwargs=dict(radial_pspec_kwargs=dict(nbins=11)), low_cut=[0.08, 0.1] / P)
    a = PowerSpectrum(e.data(0)).run(fit_2D=False, radial_pspec_kwargs=dict(nbins=8), low_cut=0.08 / P, high_cut=0.5 / P)
    b = PowerSpectrum(e.data(1)).run(fit_2D=False, radial_pspec_kwargs=dict(nbins=11), low_cut=0.1 / P, high_cut=0.5 / P)
    ctx.close(d.distance, sl(a, b), "target:PSpec", rtol=1e-7)
    d = e.dist(e.data(0), e.data(1), pspec_kwargs=dict(fit_kwargs=dict(weighted_fit=True)), low_cut=0.05 / P)
    a = PowerSpectrum(e.data(0)).run(fit_2D=False, fit_kwargs=dict(weighted_fit=True), low_cut=0.05 / P, high_cut=0.5 / P)
    b = PowerSpectrum(e.data(1)).run(fit_2D=False, fit_kwargs=dict(weighted_fit=True), low_cut=0.05 / P, high_cut=0.5 / P)
    ctx.close(d.distance, sl(a, b), "target:PSpec-fit_kwargs", rtol=1e-7)
    e = DENTRIES["VCA_Distance"]
    d = e.dist(e.data(0), e.data(1), radial_pspec_kwargs=dict(nbins=8), radial_pspec_kwargs2=dict(nbins=11))
    a = VCA(e.data(0)).run(fit_2D=False, radial_pspec_kwargs=dict(nbins=8))
    b = VCA(e.data(1)).run(fit_2D=False, radial_pspec_kwargs=dict(nbins=11))
    ctx.close(d.distance, sl(a, b), "target:VCA", rtol=1e-7)
    e = DENTRIES["MVC_Distance"]
    d = e.dist(e.data(0), e.data(1), pspec_kwargs=dict(nbins=8), pspec2_kwargs=dict(nbins=11))
    a = e.pre(e.data(0), radial_pspec_kwargs=dict(nbins=8))
    b = e.pre(e.data(1), radial_pspec_kwargs=dict(nbins=11))
    ctx.close(d.distance, sl(a, b), "target:MVC", rtol=1e-7)
    e = DENTRIES["Wavelet_Distance"]
    d = e.dist(e.data(0), e.data(1), scales=None, num=9)
    a = Wavelet(e.data(0), num=9).run(show_progress=False)
    b = Wavelet(e.data(1), num=9).run(show_progress=False)
    ctx.close(d.distance, sl(a, b), "target:Wavelet-num", rtol=1e-7)
    # one limit is for both data sets
    for lo, hi in ((0.1, 0.3), (0.2, 0.5), (0.08, 0.45)):
        kw = dict(low_cut=lo / P, high_cut=hi / P)
        for n, mk in (("PSpec_Distance", lambda e, k: PowerSpectrum(e.data(k, (24, 26))).run(fit_2D=False, **kw)),
                      ("VCA_Distance", lambda e, k: VCA(e.data(k, (3, 24, 26))).run(fit_2D=False, **kw)),
                      ("MVC_Distance", lambda e, k: (lambda m: MVC(m["centroid"][0], m["moment0"][0], m["linewidth"][0], header=m["centroid"][1])
                                                     .run(fit_2D=False, **kw))(e.data(k, (24, 26))))):
            e = DENTRIES[n]
            shp = (3, 24, 26) if n == "VCA_Distance" else (24, 26)
            d = e.dist(e.data(0, shp), e.data(1, shp), **kw)
            ctx.close(d.distance, sl(mk(e, 0), mk(e, 1)), "target:limits:" + n, rtol=1e-7, msg="%s to %s" % (lo, hi))
            for which in (0, 1):     # and a pair is one for each
                pr = {"low_cut": [lo, lo] / P, "high_cut": [hi, hi] / P}
                pr["high_cut"][which] = 0.4 / P
                d = e.dist(e.data(0, shp), e.data(1, shp), **pr)
                keep = dict(kw)
                r = []
                for k in (0, 1):
                    kw["low_cut"], kw["high_cut"] = pr["low_cut"][k], pr["high_cut"][k]
                    r.append(mk(e, k))
                kw.update(keep)
                ctx.close(d.distance, sl(*r), "target:pair-limits:" + n, rtol=1e-7, msg="%s" % pr)
    for lo, hi in ((2., 6.), (3., 8.)):
        e = DENTRIES["Wavelet_Distance"]
        d = e.dist(e.data(0), e.data(1), xlow=lo * P, xhigh=hi * P)
        sc = np.logspace(np.log10(1.5), np.log10(8.), 12) * P
        r = [Wavelet(e.data(k), scales=sc).run(show_progress=False, xlow=lo * P, xhigh=hi * P) for k in (0, 1)]
        ctx.close(d.distance, sl(*r), "target:limits:Wavelet", rtol=1e-7)
    ctx.step(80)
    e = DENTRIES["Genus_Distance"]
    d = e.dist(e.data(0), e.data(1), numpts=20)
    ctx.check(len(d.genus1.thresholds) == 20 and len(d.genus2.thresholds) == 20, "target:Genus-numpts",
              "%d %d" % (len(d.genus1.thresholds), len(d.genus2.thresholds)))
    e = DENTRIES["DeltaVariance_Distance"]
    lg = np.array([3., 4., 5., 6.]) * P
    d = e.dist(e.data(0), e.data(1), lags=lg, delvar_kwargs=dict(show_progress=False),
               delvar2_kwargs=dict(show_progress=False, boundary="fill"))
    a = DeltaVariance(e.data(0), lags=lg).run(show_progress=False)
    b = DeltaVariance(e.data(1), lags=lg).run(show_progress=False, boundary="fill")
    ctx.close(d.slope_distance, sl(a, b), "target:DelVar", rtol=1e-7)
    for pre2 in (False, True):
        x = DeltaVariance(e.data(0))
        y = DeltaVariance(e.data(1))
        if pre2:
            x.run(show_progress=False)
            y.run(show_progress=False)
        d = e.dist(x, y, lags=lg, delvar_kwargs=dict(show_progress=False), delvar2_kwargs=dict(show_progress=False, boundary="fill"))
        ctx.close(d.slope_distance, sl(a, b), "target:DelVar-pre", rtol=1e-7)
    ctx.step(30)
    ctx.state("target")


# --- different pixel scales: common physical sizes ----------------------------------
def gen_scale(tier):
    for n in ("DeltaVariance_Distance", "SCF_Distance", "StatMoments_Distance"):
        for sc in (0.5, 0.8, 1.0, 1.25, 2.0):
            for forms in (("data", "data"), ("run", "data"), ("data", "run"), ("run", "run")):
                yield {"dist": n, "scale": sc, "forms": list(forms)}
    for sc in (0.5, 0.8, 1.0, 1.25, 2.0):
        yield {"dist": "Genus_Distance", "scale": sc, "forms": ["data", "data"]}


def genus_scale(ctx, scale):
    """Genus per area: maps of other pixel sizes compare by the sky area they cover."""
    e = DENTRIES["Genus_Distance"]
    for s1, s2 in (((16, 18), (19, 17)), ((16, 18), (16, 18)), ((24, 20), (16, 17))):
        a = lambda: e.data(0, s1, cdelt=0.01)
        b = lambda: e.data(1, s2, cdelt=0.01 * scale)
        d1, d2 = e.dist(a(), b()), e.dist(b(), a())
        ctx.step(2)
        ctx.close(d1.distance, d2.distance, "scale-sym", rtol=1e-9, msg="pixel scale ratio %s, %s %s" % (scale, s1, s2))
        # the documented formula, up to the unit of area
        x, y = a()[0], b()[0]
        from turbustat.statistics import Genus
        from scipy.interpolate import InterpolatedUnivariateSpline as S
        gs = [Genus((v - v.mean()) / v.std(), smoothing_radii=np.array([1.])).run() for v in (x, y)]
        t = [g.thresholds for g in gs]
        pts = np.linspace(max(q.min() for q in t), min(q.max() for q in t), len(t[0]) + len(t[1]))
        unit = min(1., scale) ** 2
        c = [S(g.thresholds, g.genus_stats[0] * unit / v.size / px ** 2, k=3)(pts) for g, v, px in zip(gs, (x, y), (1., scale))]
        ctx.close(d1.distance, np.sqrt(np.sum((c[0] - c[1]) ** 2)), "scale-formula", rtol=1e-6)
    ctx.state("genus", scale)


def run_scale(ctx, dist, scale, forms):
    """Lags/radii cover the same angle on both maps; swapping the maps swaps nothing else."""
    if dist == "Genus_Distance":
        return genus_scale(ctx, scale)
    e = DENTRIES[dist]
    shp = {"DeltaVariance_Distance": (30, 32), "SCF_Distance": (3, 16, 18), "StatMoments_Distance": (20, 22)}[dist]
    kw = {"DeltaVariance_Distance": dict(lags=np.array([3., 4., 5., 6.]) * P), "SCF_Distance": dict(size=5),
          "StatMoments_Distance": dict(radius=3 * P)}[dist]

    def mk(f, k, c):
        d = e.data(k, shp, cdelt=c)
        if f == "data":
            return d
        # a pre-computed surface must have the requested lags when no rescaling is needed
        return e.pre(d, size=5) if dist == "SCF_Distance" and (scale == 1. or k == 0) else e.pre(d)
    a = lambda: mk(forms[0], 0, 0.01)
    b = lambda: mk(forms[1], 1, 0.01 * scale)
    d1 = e.dist(a(), b(), **kw)
    d2 = e.dist(b(), a(), **kw)
    v1, v2 = e.vals(d1), e.vals(d2)
    ctx.step(2)
    vals_close(ctx, e, v1, v2, "scale-sym", "pixel scale ratio %s" % scale)
    if dist == "DeltaVariance_Distance":
        r = [d1.delvar1.lags.to(u.pix).value * 0.01, d1.delvar2.lags.to(u.pix).value * 0.01 * scale]
        # what was actually measured must match an independent run at these lags
        from turbustat.statistics import DeltaVariance
        for o, k, c in ((d1.delvar1, 0, 0.01), (d1.delvar2, 1, 0.01 * scale)):
            ref = DeltaVariance(e.data(k, shp, cdelt=c), lags=o.lags).run(show_progress=False)
            ctx.close(o.delta_var, ref.delta_var, "scale-values", rtol=1e-7)
        want = np.array([3., 4., 5., 6.]) * 0.01 * max(1., scale)
    elif dist == "SCF_Distance":
        r = [d1.scf1.roll_lags.to(u.pix).value * 0.01, d1.scf2.roll_lags.to(u.pix).value * 0.01 * scale]
        from turbustat.statistics import SCF
        for o, k, c in ((d1.scf1, 0, 0.01), (d1.scf2, 1, 0.01 * scale)):
            ref = SCF(e.data(k, shp, cdelt=c), roll_lags=o.roll_lags)
            ref.compute_surface(show_progress=False)
            ctx.close(o.scf_surface, ref.scf_surface, "scale-values", rtol=1e-7)
        want = None if forms == ["run", "run"] and scale == 1. else np.arange(-2, 3) * 0.01 * max(1., scale)
        if forms != ["data", "data"] and scale == 1.:
            want = None
    else:
        r = [d1.moments1.radius.to(u.pix).value * 0.01, d1.moments2.radius.to(u.pix).value * 0.01 * scale]
        want = 3 * 0.01 * max(1., scale)
    ctx.close(r[0], r[1], "scale-angle", rtol=1e-6, msg="angular sizes differ")
    if want is not None:
        ctx.close(r[0], want, "scale-size", rtol=1e-6)
    ctx.state(dist, scale, forms)


# --- break points reach the data set they are given for ------------------------------
BRKS = {"none": None, "one": 0.22, "list": [0.22, 0.28], "array": [0.22, 0.28], "first": [0.22, None], "second": [None, 0.22]}


def broken(shape, k, fb, s1, s2):
    """An image whose power spectrum is exactly a broken power law."""
    r = np.hypot(np.fft.fftfreq(shape[0])[:, None], np.fft.fftfreq(shape[1])[None])
    r[0, 0] = 1.
    p = np.where(r < fb, (r / fb) ** s1, (r / fb) ** s2)
    p[0, 0] = 0.
    ph = np.angle(np.fft.fft2(np.random.RandomState(k).standard_normal(shape)))
    return np.fft.ifft2(np.sqrt(p) * np.exp(1j * ph)).real


def gen_breaks(tier):
    for n in ("PSpec_Distance", "VCA_Distance", "MVC_Distance"):
        for b in BRKS:
            for forms in itertools.product(("data", "fresh", "run"), repeat=2):
                yield {"dist": n, "breaks": b, "forms": list(forms)}
    for b in ("none", "one", "list", "first", "second"):
        for forms in itertools.product(("data", "fresh", "run"), repeat=2):
            yield {"dist": "VCS_Distance", "breaks": b, "forms": list(forms)}


def run_breaks(ctx, dist, breaks, forms):
    from turbustat.statistics import PowerSpectrum, VCA, MVC, VCS
    from ..dcatalog import sl
    e = DENTRIES[dist]
    par = ((1, 0.2, -1., -5.), (2, 0.25, -1.5, -4.4))
    val = BRKS[breaks]
    pair = list(val) if isinstance(val, list) else [val, val]
    if dist == "VCS_Distance":
        shp = (96, 3, 3)
        lg = lambda v: None if v is None else float(np.log10(v))
        val = [lg(v) for v in val] if isinstance(val, list) else lg(val)    # breaks are logarithms by default
        pair = [lg(v) for v in pair]

        def data(i):
            k, fb, s1, s2 = par[i]
            f = np.abs(np.fft.fftfreq(shp[0]))
            f[0] = 1.
            p = np.where(f < fb, (f / fb) ** s1, (f / fb) ** s2)
            p[0] = 1.
            sp = [np.fft.ifft(np.sqrt(p) * np.exp(1j * np.angle(np.fft.fft(np.random.RandomState(10 * k + j).standard_normal(shp[0]))))).real
                  for j in range(9)]
            return (10. + np.array(sp).T.reshape(shp), fx.hdr3(shp))
        mk = lambda i: VCS(data(i))
        run = lambda o, i: o.run(breaks=pair[i])
        bk = val
    else:
        if dist == "PSpec_Distance":
            shp = (48, 50)
            data = lambda i: (broken(shp, *par[i]), fx.hdr2(shp))
            mk = lambda i: PowerSpectrum(data(i))
            hc = 0.5 / P
        elif dist == "VCA_Distance":
            shp = (2, 48, 50)
            data = lambda i: (np.array([broken(shp[1:], *par[i]), 0.5 * broken(shp[1:], par[i][0] + 7, *par[i][1:])]), fx.hdr3(shp))
            mk = lambda i: VCA(data(i))
            hc = None
        else:
            shp = (48, 50)

            def data(i):
                h = fx.hdr2(shp)
                d = {"centroid": broken(shp, *par[i]), "moment0": np.ones(shp), "linewidth": np.full(shp, 0.01)}
                d = {n: (v, h) for n, v in d.items()}
                d.update({n + "_error": (np.full(shp, 0.1), h) for n in list(d)})
                return d

            def mk(i):
                d = data(i)
                return MVC(d["centroid"][0], d["moment0"][0], d["linewidth"][0], header=d["centroid"][1])
            hc = 0.5 / P

        def run(o, i):
            b = pair[i]
            return o.run(fit_kwargs={"brk": None if b is None else b / P}, fit_2D=False, high_cut=hc)
        if val is None:
            bk = None
        elif breaks == "one":
            bk = val / P
        elif breaks == "array":
            bk = np.array(val) / P
        else:
            bk = [None if v is None else v / P for v in val]
    ref = [run(mk(i), i) for i in (0, 1)]

    def form(f, i):
        if f == "data":
            return data(i)
        o = mk(i)
        return run(o, i) if f == "run" else o
    d = e.dist(form(forms[0], 0), form(forms[1], 1), breaks=bk)
    subs = [getattr(d, n + str(i)) for n in ("pspec", "vca", "mvc", "vcs") for i in (1, 2) if hasattr(d, n + str(i))]
    for i in (0, 1):
        ctx.close(np.atleast_1d(subs[i].slope), np.atleast_1d(ref[i].slope), "break-slope:%s:%d" % (dist, i + 1), rtol=1e-6,
                  msg="data set %d of breaks=%s" % (i + 1, breaks))
        if dist != "VCS_Distance":
            ctx.check((np.size(subs[i].slope) == 2) == (pair[i] is not None), "break-used:%s:%d" % (dist, i + 1),
                      "%d slopes for break %r" % (np.size(subs[i].slope), pair[i]))
    want = sl(ref[0], ref[1])
    if dist == "VCS_Distance":
        want = np.nansum(want)
    ctx.close(np.atleast_1d(d.distance), np.atleast_1d(want), "break-distance:" + dist, rtol=1e-6)
    ctx.step(4)
    ctx.state(dist, breaks, forms)


# --- statistics given with other settings ---------------------------------------------
def gen_given(tier):
    st = list(itertools.product(("data", "fresh", "run"), repeat=2))
    for size in (5, 7, 9):
        for f in st:
            yield {"what": "scf", "par": size, "forms": list(f)}
    for rad in (3, 5, 7):
        for f in st:
            yield {"what": "moments", "par": rad, "forms": list(f)}
    for f in st:
        yield {"what": "delvar-lags2", "par": 0, "forms": list(f)}
    for n in ("DeltaVariance_Distance", "PSpec_Distance", "Wavelet_Distance", "Genus_Distance", "StatMoments_Distance", "PDF_Distance"):
        yield {"what": "shapes", "par": n, "forms": []}
    for nb in (4, 9, 15):
        yield {"what": "moments-nbins", "par": nb, "forms": []}
    for r in ("pdf-nofit", "pca-auto", "pca-many1", "pca-many2", "scf-lags", "scf-lags-data", "scf-boundary"):
        yield {"what": "refuse", "par": r, "forms": []}


def run_given(ctx, what, par, forms):
    if what == "scf":
        e = DENTRIES["SCF_Distance"]
        want = e.vals(e.dist(e.data(0), e.data(1), size=par))

        def form(f, k):
            return e.data(k) if f == "data" else e.pre(e.data(k), run=(f == "run"), size=par)
        kw = dict(size=par) if "data" in forms else dict(size=11)   # the size of given objects is their own
        got = e.vals(e.dist(form(forms[0], 0), form(forms[1], 1), **kw))
        vals_close(ctx, e, got, want, "given-size", "SCFs of size %s given as %s" % (par, forms))
    elif what == "moments":
        e = DENTRIES["StatMoments_Distance"]
        shp = (20, 22)
        want = e.vals(e.dist(e.data(0, shp), e.data(1, shp), radius=par * P))
        for other in (3, 5, 7):
            def form(f, k):
                d = e.data(k, shp)
                return d if f == "data" else e.pre(d, run=(f == "run"), radius=other * P)
            d = e.dist(form(forms[0], 0), form(forms[1], 1), radius=par * P)
            vals_close(ctx, e, e.vals(d), want, "given-radius", "radius %s asked of objects with radius %s given as %s" % (par, other, forms))
            ctx.step()
    elif what == "delvar-lags2":
        from turbustat.statistics import DeltaVariance
        from ..dcatalog import sl
        e = DENTRIES["DeltaVariance_Distance"]
        l1, l2 = np.array([3., 4., 5., 6.]) * P, np.array([3.5, 4.5, 6., 7., 7.5]) * P
        for la, lb in ((l1, l2), (l2, l1), (l1, None), (None, None)):
            wl = (la, la if lb is None else lb)
            refs_ = []
            for k in (0, 1):
                kw = {} if wl[k] is None else dict(lags=wl[k])
                refs_.append(DeltaVariance(e.data(k), **kw).run(show_progress=False))

            def form(f, k):
                if f == "data":
                    return e.data(k)
                o = DeltaVariance(e.data(k))
                return o.run(show_progress=False) if f == "run" else o
            kw = {} if lb is None else dict(lags2=lb)
            d = e.dist(form(forms[0], 0), form(forms[1], 1), lags=la, use_common_lags=False, **kw)
            ctx.close(d.delvar1.lags.value, refs_[0].lags.value, "own-lags:1", rtol=1e-9)
            ctx.close(d.delvar2.lags.value, refs_[1].lags.value, "own-lags:2", rtol=1e-9)
            ctx.close(d.delvar1.delta_var, refs_[0].delta_var, "own-values:1", rtol=1e-7)
            ctx.close(d.delvar2.delta_var, refs_[1].delta_var, "own-values:2", rtol=1e-7)
            ctx.close(d.slope_distance, sl(refs_[0], refs_[1]), "own-slope", rtol=1e-7)
            ctx.check(np.isnan(d.curve_distance), "own-curve", "%r" % d.curve_distance)
            ctx.step()
    elif what == "shapes":
        e = DENTRIES[par]
        shapes = ((14, 20), (20, 14), (16, 18), (24, 15))
        for s1, s2 in itertools.product(shapes, repeat=2):
            got = e.vals(e.dist(e.data(0, s1), e.data(1, s2)))
            vals_close(ctx, e, got, e.ref(e.data(0, s1), e.data(1, s2)), "shapes", "%s and %s" % (s1, s2))
            ctx.step()
    elif what == "moments-nbins":
        from turbustat.statistics import StatMoments_Distance
        e = DENTRIES["StatMoments_Distance"]
        want = e.vals(e.dist(e.data(0), e.data(1), nbins=par))
        for first in (None, 6):
            kw = {} if first is None else dict(nbins=first)
            d = StatMoments_Distance(e.data(0), e.data(1), radius=2 * P, **kw)
            got = e.vals(d.distance_metric(nbins=par))
            vals_close(ctx, e, got, want, "metric-nbins", "nbins=%s in the constructor, %s in distance_metric" % (first, par))
            if first is not None:
                got = e.vals(d.distance_metric())
                vals_close(ctx, e, got, e.vals(e.dist(e.data(0), e.data(1), nbins=first)), "metric-nbins-again",
                           "distance_metric() after distance_metric(nbins=%s)" % par)
            ctx.step(2)
    else:
        from turbustat.statistics import PDF_Distance, PCA_Distance, PCA, SCF_Distance, SCF
        ep, ec, es = DENTRIES["PDF_Distance"], DENTRIES["PCA_Distance"], DENTRIES["SCF_Distance"]

        def go():
            if par == "pdf-nofit":
                d = PDF_Distance(ep.data(0), ep.data(1), do_fit=False)
                d.compute_lognormal_distance()
            elif par == "scf-lags":
                SCF_Distance(SCF(es.data(0), roll_lags=np.arange(-2, 3) * P), SCF(es.data(1), roll_lags=2 * np.arange(-2, 3) * P),
                             size=5, show_progress=False)
            elif par == "scf-lags-data":
                SCF_Distance(es.data(0), SCF(es.data(1), roll_lags=2 * np.arange(-2, 3) * P), size=5, show_progress=False)
            elif par == "scf-boundary":
                SCF_Distance(es.data(0), es.data(1), size=5, boundary=["cut"], show_progress=False)
            elif par == "pca-auto":
                PCA_Distance(ec.data(0), ec.data(1), n_eigs="auto")
            else:
                o = PCA(ec.data(0))
                a = (o, ec.data(1)) if par == "pca-many1" else (ec.data(1), o)
                PCA_Distance(a[0], a[1], n_eigs=50)
        try:
            go()
            ctx.fail("refuse:" + par, "accepted")
        except Exception:
            pass
    ctx.step(2)
    ctx.state(what, par, forms)


FAMILIES = {
    "axioms": Family(gen_ax, run_ax, "all ordered pairs of 4 data sets for each of 14 metrics"),
    "forms": Family(gen_forms, run_forms, "all 3x3 supply forms (data, un-run statistic, run statistic) x 5 pairs"),
    "options": Family(gen_opts, run_opts, "every per-data-set option, swapped together with the data, on 5 pairs"),
    "target": Family(gen_target, run_target, "fixed list of option/target pairs"),
    "scale": Family(gen_scale, run_scale, "3 metrics x 5 pixel scale ratios x 4 supply forms, and genus curves at 5 ratios x 3 pairs of shapes"),
    "breaks": Family(gen_breaks, run_breaks, "4 slope metrics x 5-6 ways of giving break points x 9 supply forms"),
    "given": Family(gen_given, run_given, "SCFs of 3 sizes and moments of 3x3 radii in 9 supply forms; separate lags; every pair of 4 shapes; 3x2 bin counts; 7 refusals"),
}
