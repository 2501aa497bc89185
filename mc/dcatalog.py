"""One entry per *_Distance class."""
import numpy as np
import astropy.units as u
from . import fx

TOL = dict(rtol=1e-6)


def sl(a, b):
    """Documented slope distance |s1-s2|/sqrt(e1^2+e2^2)."""
    return np.abs(a.slope - b.slope) / np.sqrt(a.slope_err ** 2 + b.slope_err ** 2)


class DE(object):
    shape = (16, 18)
    shape2 = (19, 17)
    pair_kw = {}       # keyword -> (value for 1, value for 2) given as per-dataset pair
    pre_ok = True

    def data(self, k, shape=None, cdelt=0.01):
        shape = shape or self.shape
        if len(shape) == 2:
            return (self.arr(k, shape), fx.hdr2(shape, cdelt=cdelt))
        return (self.arr(k, shape), fx.hdr3(shape, cdelt=cdelt))

    def arr(self, k, shape):
        return fx.redimg(shape, k, slope=2.6 + 0.3 * k) if len(shape) == 2 else fx.cube(shape, k)

    def finish(self, d):
        return d.distance_metric()

    def vals(self, d):
        return {"distance": d.distance}


class PSpecD(DE):
    name = "PSpec_Distance"

    def dist(self, a, b, **kw):
        from turbustat.statistics import PSpec_Distance
        return self.finish(PSpec_Distance(a, b, **kw))

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import PowerSpectrum
        o = PowerSpectrum(d)
        return o.run(high_cut=0.5 / u.pix, fit_2D=False, **kw) if run else o

    def ref(self, a, b):
        return {"distance": sl(self.pre(a), self.pre(b))}


class MVCD(DE):
    name = "MVC_Distance"

    def data(self, k, shape=None, cdelt=0.01):
        shape = shape or self.shape
        m = fx.moments_maps(shape, k + 1)
        h = fx.hdr2(shape, cdelt=cdelt)
        out = {n: (m[n], h) for n in m}
        out.update({n + "_error": (0.1 + 0.05 * np.abs(fx.img(shape, k + i)), h) for i, n in enumerate(m)})
        return out

    def dist(self, a, b, **kw):
        from turbustat.statistics import MVC_Distance
        return self.finish(MVC_Distance(a, b, **kw))

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import MVC
        o = MVC(d["centroid"][0], d["moment0"][0], d["linewidth"][0], header=d["centroid"][1])
        return o.run(high_cut=0.5 / u.pix, fit_2D=False, **kw) if run else o

    def ref(self, a, b):
        return {"distance": sl(self.pre(a), self.pre(b))}


class VCAD(DE):
    name = "VCA_Distance"
    shape = (5, 16, 18)
    shape2 = (6, 19, 17)

    def dist(self, a, b, **kw):
        from turbustat.statistics import VCA_Distance
        return self.finish(VCA_Distance(a, b, **kw))

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import VCA
        o = VCA(d)
        return o.run(fit_2D=False, **kw) if run else o

    def ref(self, a, b):
        return {"distance": sl(self.pre(a), self.pre(b))}


class VCSD(DE):
    name = "VCS_Distance"
    shape = (40, 5, 6)
    shape2 = (36, 6, 5)

    def dist(self, a, b, **kw):
        from turbustat.statistics import VCS_Distance
        return self.finish(VCS_Distance(a, b, **kw))

    def vals(self, d):
        return {"distance": d.distance, "large": d.large_scale_distance, "small": d.small_scale_distance,
                "brk": d.break_distance}

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import VCS
        o = VCS(d)
        return o.run(**kw) if run else o

    def ref(self, a, b):
        a, b = self.pre(a), self.pre(b)
        s = np.abs(a.slope - b.slope) / np.sqrt(a.slope_err ** 2 + b.slope_err ** 2)
        return {"distance": np.nansum(s), "large": s[0]}


class DelVarD(DE):
    name = "DeltaVariance_Distance"

    def dist(self, a, b, **kw):
        from turbustat.statistics import DeltaVariance_Distance
        kw.setdefault("delvar_kwargs", dict(show_progress=False))
        return self.finish(DeltaVariance_Distance(a, b, **kw))

    def vals(self, d):
        return {"slope": d.slope_distance, "curve": d.curve_distance}

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import DeltaVariance
        kw.setdefault("lags", np.logspace(np.log10(3.), np.log10(min(d[0].shape) / 2.), 25) * u.pix)
        o = DeltaVariance(d, diam_ratio=1.5, **kw)
        return o.run(show_progress=False) if run else o

    def ref(self, a, b):
        lags = np.logspace(np.log10(3.), np.log10(min(min(a[0].shape), min(b[0].shape)) / 2.), 25) * u.pix
        a, b = self.pre(a, lags=lags), self.pre(b, lags=lags)
        ok = np.isfinite(a.delta_var) & np.isfinite(b.delta_var) & (a.delta_var > 0) & (b.delta_var > 0)
        ok1 = ok & (a.lags >= a.fit_range[0]) & (a.lags <= a.fit_range[1])
        ok2 = ok & (b.lags >= b.fit_range[0]) & (b.lags <= b.fit_range[1])
        out = {"slope": sl(a, b)}
        if a.fit_range[0] == b.fit_range[0] and a.fit_range[1] == b.fit_range[1]:
            x = a.delta_var[ok1] / a.delta_var[ok1].sum()
            y = b.delta_var[ok2] / b.delta_var[ok2].sum()
            out["curve"] = np.sqrt(np.sum((np.log10(x) - np.log10(y)) ** 2))
        return out


class WaveD(DE):
    name = "Wavelet_Distance"

    def dist(self, a, b, **kw):
        from turbustat.statistics import Wavelet_Distance
        kw.setdefault("scales", np.logspace(np.log10(1.5), np.log10(8.), 12) * u.pix)
        kw.setdefault("fit_kwargs", dict(show_progress=False))
        return self.finish(Wavelet_Distance(a, b, **kw))

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import Wavelet
        kw.setdefault("scales", np.logspace(np.log10(1.5), np.log10(8.), 12) * u.pix)
        o = Wavelet(d, **kw)
        return o.run(show_progress=False) if run else o

    def ref(self, a, b):
        return {"distance": sl(self.pre(a), self.pre(b))}


class SCFD(DE):
    name = "SCF_Distance"
    shape = (4, 10, 12)
    shape2 = (5, 13, 11)

    def dist(self, a, b, weighted=True, **kw):
        from turbustat.statistics import SCF_Distance
        kw.setdefault("size", 7)
        return SCF_Distance(a, b, show_progress=False, **kw).distance_metric(weighted=weighted)

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import SCF
        kw.setdefault("size", 7)
        o = SCF(d, **kw)
        if run:
            o.compute_surface(show_progress=False)
            o.compute_spectrum()
        return o

    def ref(self, a, b, weighted=True):
        a, b = self.pre(a), self.pre(b)
        n = a.scf_surface.shape[0]
        w = np.ones((n, n))
        if weighted:
            for i in range(n):
                for j in range(n):
                    r = np.hypot(i - n // 2, j - n // 2)
                    w[i, j] = 1. / r if r else 1.
        return {"distance": np.sqrt(np.sum(w * (a.scf_surface - b.scf_surface) ** 2) / w.sum())}


class StatMomD(DE):
    name = "StatMoments_Distance"
    shape = (12, 14)
    shape2 = (13, 12)

    def arr(self, k, shape):
        return 5. + fx.img(shape, k)

    def dist(self, a, b, **kw):
        from turbustat.statistics import StatMoments_Distance
        kw.setdefault("radius", 2 * u.pix)
        return self.finish(StatMoments_Distance(a, b, **kw))

    def vals(self, d):
        return {"kurt": d.kurtosis_distance, "skew": d.skewness_distance}

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import StatMoments
        kw.setdefault("radius", 2 * u.pix)
        o = StatMoments(d, **kw)
        if run:
            o.run(show_progress=False)
        return o

    def ref(self, a, b):
        nb = int(np.sqrt(min(a[0].size, b[0].size)))
        a, b = self.pre(a), self.pre(b)
        out = {}
        for key, x, y in (("kurt", a.kurtosis_array, b.kurtosis_array), ("skew", a.skewness_array, b.skewness_array)):
            x, y = x[np.isfinite(x)], y[np.isfinite(y)]
            edges = np.linspace(min(x.min(), y.min()), max(x.max(), y.max()), nb)
            h1 = np.histogram(x, edges, density=True)[0]
            h2 = np.histogram(y, edges, density=True)[0]
            out[key] = (edges[1] - edges[0]) / np.sqrt(2) * np.sqrt(np.sum((np.sqrt(h1) - np.sqrt(h2)) ** 2))
        return out


class PDFD(DE):
    name = "PDF_Distance"
    shape = (12, 14)
    shape2 = (13, 11)
    pre_ok = False

    def arr(self, k, shape):
        return np.exp(0.3 * (1 + 0.2 * k) * fx.img(shape, k))

    def dist(self, a, b, **kw):
        from turbustat.statistics import PDF_Distance
        kw.setdefault("do_fit", True)
        return self.finish(PDF_Distance(a, b, **kw))

    def vals(self, d):
        out = {"hellinger": d.hellinger_distance, "ks": d.ks_distance}
        if d._do_fit if hasattr(d, "_do_fit") else True:
            out["lognormal"] = d.lognormal_distance
        return out

    def ref(self, a, b):
        from turbustat.statistics import PDF
        x, y = a[0].ravel(), b[0].ravel()
        n = int(np.floor(np.sqrt((x.size + y.size) / 2.)))
        edges = np.linspace(min(x.min(), y.min()), max(x.max(), y.max()), n)
        h1 = np.histogram(x, edges)[0] / float(x.size)
        h2 = np.histogram(y, edges)[0] / float(y.size)
        allv = np.sort(np.concatenate([x, y]))
        f1 = np.searchsorted(np.sort(x), allv, side="right") / float(x.size)
        f2 = np.searchsorted(np.sort(y), allv, side="right") / float(y.size)
        p1, p2 = PDF(a).run(do_fit=True), PDF(b).run(do_fit=True)
        return {"hellinger": np.sqrt(np.sum((np.sqrt(h1) - np.sqrt(h2)) ** 2)) / np.sqrt(2),
                "ks": np.abs(f1 - f2).max(),
                "lognormal": np.abs(p1.model_params[0] - p2.model_params[0]) /
                np.sqrt(p1.model_stderrs[0] ** 2 + p2.model_stderrs[0] ** 2)}


class PCAD(DE):
    name = "PCA_Distance"
    shape = (8, 9, 10)
    shape2 = (9, 11, 8)

    def dist(self, a, b, **kw):
        from turbustat.statistics import PCA_Distance
        kw.setdefault("n_eigs", 4)
        return self.finish(PCA_Distance(a, b, **kw))

    def pre(self, d, run=True, mean_sub=True, **kw):
        from turbustat.statistics import PCA
        o = PCA(d)
        if run:
            o.run(mean_sub=mean_sub, n_eigs=4, decomp_only=True, show_progress=False)
        return o

    def ref(self, a, b):
        out = []
        for d in (a[0], b[0]):
            m = d.reshape(d.shape[0], -1)
            m = m - m.mean(axis=1, keepdims=True)
            ev = np.sort(np.linalg.eigvalsh(m.dot(m.T) / (m.shape[1] - 1.)))[::-1][:4]
            out.append(ev / ev.sum())
        return {"distance": np.sqrt(np.sum((out[0] - out[1]) ** 2))}


class GenusD(DE):
    name = "Genus_Distance"
    pre_ok = False

    def dist(self, a, b, **kw):
        from turbustat.statistics import Genus_Distance
        kw.setdefault("smoothing_radii", np.array([1.]))
        return self.finish(Genus_Distance(a, b, **kw))

    def ref(self, a, b):
        from turbustat.statistics import Genus
        from scipy.interpolate import InterpolatedUnivariateSpline as S
        gs = []
        for d in (a[0], b[0]):
            z = (d - d.mean()) / d.std()
            gs.append(Genus(z, smoothing_radii=np.array([1.]), lowdens_percent=0, highdens_percent=100).run())
        t = [g.thresholds for g in gs]
        pts = np.linspace(max(x.min() for x in t), min(x.max() for x in t), len(t[0]) + len(t[1]))
        c = [S(g.thresholds, g.genus_stats[0] / float(d[0].size), k=3)(pts) for g, d in zip(gs, (a, b))]
        return {"distance": np.sqrt(np.sum((c[0] - c[1]) ** 2))}


class BisD(DE):
    name = "Bispectrum_Distance"
    shape = (10, 12)
    shape2 = (11, 9)

    def arr(self, k, shape):
        return fx.img(shape, k)

    def dist(self, a, b, **kw):
        from turbustat.statistics import Bispectrum_Distance
        kw.setdefault("stat_kwargs", dict(nsamples=10, show_progress=False))
        return self.finish(Bispectrum_Distance(a, b, **kw))

    def vals(self, d):
        return {"surface": d.surface_distance, "mean": d.mean_distance}

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import Bispectrum
        o = Bispectrum(d)
        return o.run(nsamples=10, show_progress=False) if run else o

    def ref(self, a, b):
        a, b = self.pre(a).bicoherence, self.pre(b).bicoherence
        out = {"mean": np.abs(a.mean() - b.mean())}
        if a.shape == b.shape:
            out["surface"] = np.sqrt(np.sum((a - b) ** 2))
        return out


class DendD(DE):
    name = "Dendrogram_Distance"
    shape = (20, 22)
    shape2 = (22, 21)

    def arr(self, k, shape):
        return 5 + fx.img(shape, k)

    def kws(self, kw):
        kw.setdefault("min_deltas", np.linspace(0.1, 2.5, 8))
        kw.setdefault("dendro_params", {"min_npix": 2, "min_value": 0.5, "min_delta": 0.1})
        return kw

    def dist(self, a, b, **kw):
        from turbustat.statistics import Dendrogram_Distance
        kw = self.kws(kw)
        kw.setdefault("min_features", 5)
        kw.setdefault("dendro_kwargs", dict(show_progress=False, fit_kwargs=dict(size=3)))
        return self.finish(Dendrogram_Distance(a, b, **kw))

    def vals(self, d):
        return {"hist": d.histogram_distance, "num": d.num_distance}

    def pre(self, d, run=True, **kw):
        from turbustat.statistics import Dendrogram_Stats
        o = Dendrogram_Stats(d, **self.kws(kw))
        if run:
            o.run(show_progress=False, make_hists=False, fit_kwargs=dict(size=3))
        return o

    def ref(self, a, b):
        a, b = self.pre(a), self.pre(b)
        out = {"num": np.abs(a.tail_slope - b.tail_slope) / np.sqrt(a.tail_slope_err ** 2 + b.tail_slope_err ** 2)}
        cut = min(np.where(a.numfeatures > 5)[0][-1], np.where(b.numfeatures > 5)[0][-1])
        ds = []
        for i in range(cut):
            x, y = np.asarray(a.values[i], float), np.asarray(b.values[i], float)
            x, y = (x - x.mean()) / x.std(), (y - y.mean()) / y.std()
            n = int(np.floor(np.sqrt((a.numfeatures[i] + b.numfeatures[i]) / 2.)))
            e = np.linspace(min(x.min(), y.min()), max(x.max(), y.max()), n + 1)
            h1 = np.histogram(x, e)[0] / float(x.size)
            h2 = np.histogram(y, e)[0] / float(y.size)
            ds.append(np.sqrt(np.sum((np.sqrt(h1) - np.sqrt(h2)) ** 2)) / np.sqrt(2))
        out["hist"] = np.mean(ds)
        return out


class CramerD(DE):
    name = "Cramer_Distance"
    shape = (4, 5, 6)
    shape2 = (5, 5, 6)
    pre_ok = False

    def dist(self, a, b, **kw):
        from turbustat.statistics import Cramer_Distance
        return self.finish(Cramer_Distance(a, b, **kw))

    def ref(self, a, b):
        mats = []
        for d in (a[0], b[0]):
            n = int(round(0.2 * d.shape[1] * d.shape[2]))
            m = np.array([np.sort(ch.ravel())[::-1][:n] for ch in d]) / d.max()
            mats.append(m / np.linalg.norm(m, 2))
        x, y = mats
        e = lambda p, q: np.mean([[np.sqrt(np.sqrt(np.sum((i - j) ** 2))) for j in q] for i in p])
        m, n = float(len(x)), float(len(y))
        return {"distance": m * n / (m + n) * (e(x, y) - 0.5 * e(x, x) - 0.5 * e(y, y))}


DENTRIES = {e.name: e for e in (PSpecD(), MVCD(), VCAD(), VCSD(), DelVarD(), WaveD(), SCFD(), StatMomD(), PDFD(),
                                PCAD(), GenusD(), BisD(), DendD(), CramerD())}
