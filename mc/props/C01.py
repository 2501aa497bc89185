"""Nothing the caller owns (arrays, headers, weights, option dictionaries) is ever modified."""
import copy
import inspect
import os
import pkgutil
import importlib
import shutil
import tempfile
import numpy as np
import astropy.units as u
from ..core import Family
from ..catalog import ENTRIES, same_obs
from ..dcatalog import DENTRIES
from .. import forms, fx
from .C09 import OPTS

ASSUMPTIONS = ["calls that are rejected with an exception count too: nothing may be modified by them either",
               "snapshots are bit exact and include dtype, header cards and mask of spectral cubes"]
CONTENTS = ("clean", "nan", "negzero", "int")
WEIGHTS = (None, "w", "wnan", "wint")


def content(a, kind):
    a = np.array(a)
    if kind == "nan":
        a[..., 2, 3] = np.nan
        a[..., -1, :2] = np.nan
        if a.ndim == 3:
            a[0, 4, 4] = np.nan
    elif kind == "negzero":
        a[..., 1, 1] = -0.0
        a[..., 3, 2] = -a[..., 3, 2]
    elif kind == "int":
        a = np.round(a * 10).astype(int)
    return a


def wts(shape, kind):
    if kind is None:
        return None
    w = np.random.RandomState(3).uniform(0.2, 1., size=shape)
    if kind == "wnan":
        w[1, 1] = np.nan
        w[-1, 2] = np.nan
    if kind == "wint":
        w = np.round(w * 5).astype(int)
    return w


def gen_data(tier):
    for n, e in ENTRIES.items():
        fs = forms.FORMS2 if e.ndim == 2 else forms.FORMS3
        for f in fs:
            for c in CONTENTS:
                for w in (WEIGHTS if "weights" in e.extra else (None,)):
                    yield {"stat": n, "form": f, "content": c, "weights": w}


def run_data(ctx, stat, form, weights, **kw):
    content_ = kw["content"]
    e = ENTRIES[stat]
    raw = {k: content(v, content_) for k, v in e.raw(0).items()}
    hdr = e.hdr()
    if weights is not None:
        raw["weights"] = wts(raw["data"].shape, weights)
    owned = dict(raw)
    owned["_hdr"] = hdr
    hk = hdr
    for k in raw:
        if k == "weights":
            continue
        raw[k], hk_ = forms.make(form, owned[k], hdr)
        owned["given_" + k] = raw[k]
        if k == "data":
            hk = hk_
    before = {k: forms.snap(v) for k, v in owned.items()}

    def chk(when):
        for k, v in owned.items():
            ctx.check(forms.snap(v) == before[k], "data:%s:%s" % (stat, k.lstrip("_")),
                      "%s changed by %s (form %s, %s)" % (k, when, form, content_))
    try:
        build = e.build
        if stat in ("PCA", "Genus") and form == "arr":
            o = build(raw, hdr)
        else:
            o = build(raw, hk)
    except Exception:
        chk("constructor (rejected)")
        ctx.step()
        ctx.state(stat, form, content_, weights, "rejected")
        return
    ctx.step()
    chk("constructor")
    for cfg in e.RUNS:
        try:
            e.run(o, cfg)
        except Exception:
            pass
        ctx.step()
        chk("run " + cfg)
    ctx.state(stat, form, content_, weights)


# --- option dictionaries ----------------------------------------------------------
_pf = dict(planner_effort="FFTW_ESTIMATE", threads=1)
RICH = {
    "PowerSpectrum": [dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), use_pyfftw=True, pyfftw_kwargs=dict(_pf),
                           fit_kwargs=dict(fit_unbinned=False, weighted_fit=True),
                           radial_pspec_kwargs=dict(logspacing=True, nbins=6, theta_0=0 * u.deg, delta_theta=80 * u.deg)),
                      dict(fit_2D=False, pyfftw_kwargs=dict(threads=2), fit_kwargs=dict(fit_unbinned=True, brk=None))],
    "StatMoments": [dict(mean_bins=np.linspace(5., 12., 6), show_progress=False)],
    "PDF": [dict(bins=np.linspace(2., 20., 9), do_fit=True)],
    "SCF": [dict(fit_2D=True, show_progress=False, fit_2D_kwargs=dict(bootstrap=False), fit_kwargs=dict(),
                 radialavg_kwargs=dict(logspacing=False, theta_0=0 * u.deg, delta_theta=80 * u.deg)),
            dict(fit_2D=False, show_progress=False, radialavg_kwargs=dict(logspacing=True))],
    "DeltaVariance": [dict(show_progress=False, use_pyfftw=True, pyfftw_kwargs=dict(planner_effort="FFTW_ESTIMATE"),
                           fit_kwargs=dict(bootstrap=False), xlow=3 * u.pix, xhigh=np.array(7.) * u.pix)],
    "Wavelet": [dict(show_progress=False, use_pyfftw=True, pyfftw_kwargs=dict(planner_effort="FFTW_ESTIMATE"),
                     convolve_kwargs=dict(boundary="wrap"), fit_kwargs=dict(weighted_fit=True))],
    "VCS": [dict(use_pyfftw=True, pyfftw_kwargs=dict(_pf), fit_kwargs=dict(bootstrap=False), breaks=-0.8),
            dict(pyfftw_kwargs=dict(threads=2))],
    "Dendrogram_Stats": [dict(show_progress=False, fit_kwargs=dict(size=3), hist_kwargs=dict(bins=6, min_number=3))],
}
RICH["VCA"] = RICH["PowerSpectrum"]
RICH["MVC"] = copy.deepcopy(RICH["PowerSpectrum"])
for _k in RICH["MVC"]:
    _k["fit_kwargs"].pop("fit_unbinned")


def gen_kw(tier):
    for n, e in ENTRIES.items():
        for c in list(e.RUNS) + ["rich%d" % i for i in range(len(RICH.get(n, ())))]:
            for verbose in (False, True):
                yield {"stat": n, "cfg": c, "verbose": verbose}


def run_kw(ctx, stat, cfg, verbose):
    e = ENTRIES[stat]
    kw = copy.deepcopy(RICH[stat][int(cfg[4:])]) if cfg.startswith("rich") else dict(e.RUNS[cfg]())
    d = tempfile.mkdtemp(prefix="mc_c01_")
    try:
        o = e.build(e.raw(0), e.hdr() if e.header else None)
        before = forms.snap(kw)
        desc = repr(kw)[:300]
        extra = dict(verbose=True, save_name=os.path.join(d, "x.png")) if verbose else {}
        try:
            o.run(**dict(kw, **extra))
        except Exception as exc:
            if not verbose and not cfg.startswith("rich"):
                raise
        ctx.step()
        ctx.check(forms.snap(kw) == before, "kwargs:%s" % stat, "options %s became %r" % (desc, kw))
        if not verbose:
            # the caller can use the same dictionaries again, on a new object, to the same effect
            o2 = e.build(e.raw(0), e.hdr() if e.header else None)
            o2.run(**kw)
            ctx.step()
            same_obs(ctx, e.obs(o2), e.obs(o), "kwargs-reuse:%s:" % stat, rtol=1e-9, atol=1e-12)
    finally:
        shutil.rmtree(d)
        import matplotlib.pyplot as plt
        plt.close("all")
    ctx.state(stat, cfg, verbose)


# --- distance metrics ----------------------------------------------------------------
def gen_dist(tier):
    for n in DENTRIES:
        for o in ["none"] + list(OPTS.get(n, {})):
            for form in (("tuple", "phdu") if n != "MVC_Distance" else ("tuple",)):
                yield {"dist": n, "opt": o, "form": form, "verbose": False}
        yield {"dist": n, "opt": "none", "form": "tuple", "verbose": True}


def run_dist(ctx, dist, opt, form, verbose):
    e = DENTRIES[dist]
    kw = copy.deepcopy(OPTS[dist][opt][0]) if opt != "none" else {}
    A, B = e.data(0), e.data(1)
    for i, d in ((1, A), (2, B)):
        if "weights%d" % i in kw:
            w = np.random.RandomState(4).uniform(0.3, 1., size=d[0].shape)
            w[0, 0] = np.nan
            kw["weights%d" % i] = w
    if form == "phdu":
        A, B = forms.make("phdu", *A)[0], forms.make("phdu", *B)[0]
    before = forms.snap((A, B, kw))
    d = tempfile.mkdtemp(prefix="mc_c01_")
    try:
        pk = [{"color": "r"}, {"color": "b", "marker": "x"}]
        pb = forms.snap(pk)
        if verbose:
            fin = e.finish
            sig = None

            def finish(obj):
                names = inspect.signature(obj.distance_metric).parameters
                k = {"verbose": True}
                if "save_name" in names:
                    k["save_name"] = os.path.join(d, "x.png")
                if "plot_kwargs1" in names:
                    k.update(plot_kwargs1=pk[0], plot_kwargs2=pk[1])
                return obj.distance_metric(**k)
            e = copy.copy(e)
            e.finish = finish
        try:
            e.dist(A, B, **dict(kw))
        except Exception:
            if not verbose:
                raise
        ctx.step()
        ctx.check(forms.snap((A, B, kw)) == before, "dist:%s" % dist, "data, weights or options changed (%s)" % opt)
        ctx.check(forms.snap(pk) == pb, "dist-plot:%s" % dist, "plot options became %r" % (pk,))
    finally:
        shutil.rmtree(d)
        import matplotlib.pyplot as plt
        plt.close("all")
    ctx.state(dist, opt, form, verbose)


# --- default option dictionaries stay empty --------------------------------------------
_fns = None


def functions():
    global _fns
    if _fns is None:
        import turbustat
        _fns = {}
        for m in pkgutil.walk_packages(turbustat.__path__, "turbustat."):
            if ".tests" in m.name or "conftest" in m.name or m.name.endswith("_astropy_init"):
                continue
            try:
                mod = importlib.import_module(m.name)
            except Exception:
                continue
            for nm, ob in list(vars(mod).items()):
                if getattr(ob, "__module__", None) != m.name or nm.startswith("_"):
                    continue
                if inspect.isclass(ob):
                    for a, f in vars(ob).items():
                        if inspect.isfunction(f) and (a == "__init__" or not a.startswith("_")):
                            _fns["%s.%s.%s" % (m.name, nm, a)] = f
                elif inspect.isfunction(ob):
                    _fns["%s.%s" % (m.name, nm)] = ob
    return _fns


def snap_defaults():
    out = {}
    for nm, f in functions().items():
        for k, p in inspect.signature(f).parameters.items():
            if isinstance(p.default, (dict, list, np.ndarray, set)) and not k.startswith("_"):
                out[nm, k] = forms.snap(p.default)
    return out


def gen_def(tier):
    for n in ENTRIES:
        for cfg in list(ENTRIES[n].RUNS):
            yield {"what": n, "cfg": cfg}
    for n in DENTRIES:
        yield {"what": n, "cfg": "dist"}


def run_def(ctx, what, cfg):
    before = snap_defaults()
    ctx.check(len(before) >= 10, "defaults-found", "only %d mutable defaults found" % len(before))
    d = tempfile.mkdtemp(prefix="mc_c01_")
    try:
        for verbose in (False, True):
            try:
                if cfg == "dist":
                    e = copy.copy(DENTRIES[what])

                    def finish(obj):
                        names = inspect.signature(obj.distance_metric).parameters
                        k = {"verbose": verbose}
                        if "save_name" in names and verbose:
                            k["save_name"] = os.path.join(d, "x.png")
                        return obj.distance_metric(**k)
                    e.finish = finish
                    e.dist(e.data(0), e.data(1))
                else:
                    e = ENTRIES[what]
                    o = e.build(e.raw(0), e.hdr() if e.header else None)
                    o.run(**dict(e.RUNS[cfg](), verbose=verbose, save_name=os.path.join(d, "y.png")))
            except Exception:
                if not verbose:
                    raise
            ctx.step()
    finally:
        shutil.rmtree(d)
        import matplotlib.pyplot as plt
        plt.close("all")
    after = snap_defaults()
    ch = [k for k in before if after.get(k) != before[k]]
    ctx.check(not ch, "defaults:%s" % what, "default values changed for later calls: %s" % ch)
    ctx.state(what, cfg)


# --- functions -----------------------------------------------------------------------
def _fun():
    """name -> (inputs, call)"""
    out = {}
    a2 = fx.redimg((12, 13), 0)
    a2n = content(a2, "nan")
    a3 = fx.cube((8, 9, 10), 0)
    a3n = content(a3, "nan")
    h3 = fx.hdr3(a3.shape)

    def add(n, inp, f):
        out[n] = (inp, f)
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    for pf in (False, True):
        add("rfft%d" % pf, [a2], lambda a, pf=pf: rfft_to_fft(a, use_pyfftw=pf, threads=1))
    from turbustat.statistics.psds import pspec
    add("pspec", [a2 ** 2], lambda a: pspec(a, return_stddev=True))
    import turbustat.statistics.stats_utils as su
    for nm in ("standardize", "normalize", "center", "normalize_by_mean"):
        add("norm_" + nm, [a2n], lambda a, nm=nm: su.data_normalization(a, norm_type=nm))
    add("hellinger", [a2.ravel() / a2.sum(), a2.ravel()[::-1] / a2.sum()], lambda a, b: su.hellinger(a, b))
    add("common_bins", [a2.ravel(), a2.ravel()[:60]], lambda a, b: su.common_histogram_bins(a, b))
    add("common_scale", [h3, fx.hdr3(a3.shape, cdelt=0.02)], lambda a, b: su.common_scale(
        __import__("astropy.wcs", fromlist=["WCS"]).WCS(a), __import__("astropy.wcs", fromlist=["WCS"]).WCS(b)))
    import turbustat.statistics.fitting_utils as fu
    x = np.linspace(0.1, 1.5, 20)
    y = 2. - 1.3 * x + 0.05 * np.sin(9 * x)
    import turbustat.statistics.lm_seg as lm
    xw = np.array(y)
    xw[3] = np.nan

    def seg(x, y, w):
        m = lm.Lm_Seg(x, y, 0.8, weights=w)
        m.fit_model(verbose=False)
        return m
    add("lm_seg", [x, np.where(x < 0.8, y, y - 2 * (x - 0.8)), np.ones(20)], seg)
    add("lm_seg_nan", [x, np.where(x < 0.8, xw, xw - 2 * (x - 0.8)), np.ones(20)], seg)
    from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
    yy, xx = np.mgrid[-6:7, -6:7]

    def fitel(p, x, y):
        return fit_elliptical_powerlaw(p, x, y, (1.0, 0.8, 0.3, -2.), bootstrap=False)
    lp = np.log10(1. / (1 + (1.3 * xx) ** 2 + yy ** 2.))
    add("ellip", [lp, xx.astype(float), yy.astype(float)], fitel)
    from turbustat.statistics.stat_moments.highstatmoments import compute_moments
    wn = np.ones_like(a2)
    add("moments", [a2n, wn], lambda a, b: compute_moments(a, b))
    from turbustat.statistics.threeD_to_twoD import var_cov_cube, _format_data
    add("varcov", [a3n], lambda a: var_cov_cube(a, mean_sub=True))
    from turbustat.statistics.threeD_to_twoD import intensity_data
    add("intensity", [a3n], lambda a: intensity_data(a, p=0.3, noise_lim=0.1))
    from turbustat.moments import Moments
    from spectral_cube import SpectralCube
    from astropy.io import fits

    def mom(cube):
        m = Moments(cube)
        m.make_moments()
        m.make_moment_errors(scale=0.1 * cube.unit)
        return m.to_dict()
    add("momcls", [SpectralCube.read(fits.PrimaryHDU(a3, h3))], mom)
    add("momcls_nan", [SpectralCube.read(fits.PrimaryHDU(a3n, h3))], mom)
    from turbustat.simulator import make_ppv
    v = fx.cube((6, 5, 4), 1) * u.km / u.s
    rho = np.abs(fx.cube((6, 5, 4), 2)) * u.cm ** -3
    for ax in (0, 1, 2):
        add("ppv%d" % ax, [v, rho], lambda a, b, ax=ax: make_ppv(a, b, los_axis=ax, T=100 * u.K))
    from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
    add("regrid", [SpectralCube.read(fits.PrimaryHDU(a3, h3))], lambda c: spectral_regrid_cube(c, 1000 * u.m / u.s))
    return out


def gen_fun(tier):
    yield {"which": "all"}


def run_fun(ctx, which):
    for nm, (inp, f) in _fun().items():
        before = [forms.snap(i) for i in inp]
        try:
            f(*inp)
        except Exception as exc:
            ctx.fail("fun-exception:" + nm, "%s: %s" % (type(exc).__name__, exc))
        ctx.step()
        for k, (b, i) in enumerate(zip(before, inp)):
            ctx.check(forms.snap(i) == b, "fun:%s" % nm, "argument %d modified" % k)
        ctx.state(nm)


# --- asking for a copy gives one ----------------------------------------------------------
def gen_copy(tier):
    for nd in (2, 3):
        for f in (forms.FORMS2 if nd == 2 else forms.FORMS3):
            for nc in (False, True):
                for nh in (False, True):
                    yield {"nd": nd, "form": f, "need_copy": nc, "no_header": nh}


def run_copy(ctx, nd, form, need_copy, no_header):
    from turbustat.io import input_data
    a = fx.img((6, 7), 1) if nd == 2 else fx.cube((3, 6, 7), 1)
    h = fx.hdr2((6, 7)) if nd == 2 else fx.hdr3((3, 6, 7))
    g, _ = forms.make(form, a, h)
    if form == "arr" and not no_header:
        try:
            input_data(g, need_copy=need_copy)
            ctx.fail("copy-no-header", "bare array accepted where a header is needed")
        except TypeError:
            ctx.check(True, "")
        ctx.state("rej")
        return
    before = forms.snap(g)
    out = input_data(g, no_header=no_header, need_copy=need_copy)
    ctx.step()
    d = out if no_header else out[0]
    ctx.close(np.asarray(d), a, "copy-values", rtol=0, atol=0)
    if not no_header:
        ctx.check(out[1]["NAXIS1"] == 7, "copy-header")
    if need_copy:
        np.asarray(d)[...] = -99.
        ctx.check(forms.snap(g) == before, "copy-aliases", "writing to the returned copy changed the %s input" % form)
    ctx.state(nd, form, need_copy, no_header)


FAMILIES = {
    "data": Family(gen_data, run_data, "14 statistics x every documented input form x 4 contents x 4 weight kinds, "
                   "checked after construction and after every run configuration"),
    "kwargs": Family(gen_kw, run_kw, "every run configuration (and option-rich ones), with and without plotting"),
    "dist": Family(gen_dist, run_dist, "14 metrics x every option set x 2 forms, plus plotting with caller plot options"),
    "defaults": Family(gen_def, run_def, "every run configuration and metric, without and with plotting"),
    "functions": Family(gen_fun, run_fun, "public helper functions on clean and NaN inputs"),
    "copy": Family(gen_copy, run_copy, "all forms x need_copy x no_header"),
}
