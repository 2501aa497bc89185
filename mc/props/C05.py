"""Missing data never contaminate results: they are zero, weightless or skipped, for every pattern of missing pixels."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx, forms
from ..catalog import ENTRIES, same_obs, flat
from ..dcatalog import DENTRIES

ASSUMPTIONS = ["an object or map without any usable value is outside the property",
               "fits are compared only where the fitted curve is the same"]
POISON = (0., 1e6, -1e6)
SMALL = {"PowerSpectrum": (7, 8), "MVC": (7, 8), "VCA": (3, 7, 8), "VCS": (12, 3, 4), "DeltaVariance": (14, 16),
         "Wavelet": (14, 16), "SCF": (3, 6, 7), "StatMoments": (8, 9), "PDF": (6, 7), "PCA": (6, 7, 8), "Genus": (10, 12),
         "Tsallis": (10, 12), "Bispectrum": (8, 9), "Dendrogram_Stats": (12, 13)}


def patterns(sh, tier):
    """Boolean masks of missing pixels over the last two axes / all axes."""
    ny, nx = sh[-2:]
    step = 1 if tier != "quick" or ny * nx <= 64 else 5
    for p in range(0, ny * nx, step):
        yield ("pix", [p])
    for a in range(ny):
        yield ("row", [a])
    for a in range(nx):
        yield ("col", [a])
    for k in ("block", "scatter", "frame"):
        yield (k, [])
    if len(sh) == 3:
        for z in range(sh[0]):
            yield ("vox", [z])
        yield ("chan", [0])
        yield ("chan", [sh[0] - 1])
        yield ("voxscatter", [])


def mask(sh, kind, arg):
    m = np.zeros(sh, bool)
    ny, nx = sh[-2:]
    if kind == "pix":
        m[..., arg[0] // nx, arg[0] % nx] = True
    elif kind == "row":
        m[..., arg[0], :] = True
    elif kind == "col":
        m[..., :, arg[0]] = True
    elif kind == "block":
        m[..., :ny // 3, :nx // 3] = True
    elif kind == "scatter":
        m[..., ::3, 1::4] = True
    elif kind == "frame":
        m[..., [0, -1], :] = True
        m[..., :, [0, -1]] = True
    elif kind == "vox":
        m[arg[0], 1, 2] = True
    elif kind == "chan":
        m[arg[0]] = True
    elif kind == "voxscatter":
        m.ravel()[3::11] = True
    return m


RUN = {"PowerSpectrum": "plain", "MVC": "plain", "VCA": "plain", "VCS": "brk", "DeltaVariance": "plain", "Wavelet": "plain",
       "SCF": "plain", "StatMoments": "nonper", "PDF": "bins", "PCA": "decomp", "Genus": "plain", "Tsallis": "nonper",
       "Bispectrum": "plain", "Dendrogram_Stats": "plain"}
SPECTRA = ("ps2D", "ps1D", "ps1D_stddev", "freqs")


def quiet(e, obj, cfg):
    """Run; a fit that has no points may refuse, the computed parts stay observable."""
    try:
        e.run(obj, cfg)
    except Exception as ex:  # only fits of tiny curves
        return ex
    return None


# --- patterns ---------------------------------------------------------------------------------------------
def gen_p(tier):
    for n in sorted(ENTRIES):
        for kind, arg in patterns(SMALL[n], tier):
            yield {"stat": n, "kind": kind, "arg": arg}


def run_p(ctx, stat, kind, arg):
    e = ENTRIES[stat]
    sh = SMALL[stat]
    m = mask(sh, kind, arg)
    if m.all():
        return
    raw = e.raw(1, shape=sh)
    hdr = e.hdr(shape=sh)
    miss = {k: v for k, v in raw.items()}
    miss["data"] = np.where(m, np.nan, raw["data"])
    if stat in ("PowerSpectrum", "VCA", "Bispectrum", "Wavelet", "MVC"):
        zero = dict(raw)
        if stat == "MVC":
            names = ("data", "moment0", "linewidth")
            # the same pixels missing from any non-empty subset of the three maps
            zero = {k: np.where(m, 0., raw[k]) for k in names}
            variants = []
            for r in (1, 2, 3):
                for sub in itertools.combinations(names, r):
                    variants.append({k: np.where(m, np.nan, raw[k]) if k in sub else raw[k].copy() for k in names})
        else:
            zero["data"] = np.where(m, 0., raw["data"])
            variants = [miss]
        cfgs = {"Bispectrum": ("plain", "msub"), "Wavelet": ("plain", "nonorm"), "PowerSpectrum": ("plain", "apod"),
                "VCA": ("plain", "apod"), "MVC": ("plain",)}[stat]
        for cfg in cfgs:
            o = e.build(zero, hdr)
            r0 = quiet(e, o, cfg)
            want = e.obs(o)
            for v in variants:
                o = e.build(v, hdr)
                r = quiet(e, o, cfg)
                ctx.step()
                ctx.check((r is None) == (r0 is None), "zero-equiv-refused", "%s vs %s" % (r, r0))
                same_obs(ctx, e.obs(o), want, "zero-equiv", rtol=1e-9)
    elif stat == "VCS":
        for sign in (1., -1.):
            d = raw["data"] * sign
            z = np.where(m, 0., d)
            got = e.build({"data": np.where(m, np.nan, d)}, hdr)
            ref = e.build({"data": z}, hdr)
            got.compute_pspec()
            ref.compute_pspec()
            ctx.step()
            good = (~m).any(axis=0).sum() / float(m[0].size)
            ctx.close(got.ps1D, ref.ps1D / good, "vcs-average", rtol=1e-9)
    elif stat == "DeltaVariance":
        w = 0.5 + np.abs(fx.img(sh, 5)) / 4.
        cfgs = ("plain", "fill")
        for cfg in cfgs:
            # weight given at a missing pixel has no influence
            obs = []
            for wv in (0.,) + POISON[1:2] + (np.nan, None):
                ww = w if wv is None else np.where(m, wv, w)
                o = e.build({"data": miss["data"], "weights": ww}, hdr)
                quiet(e, o, cfg)
                ctx.step()
                obs.append(e.obs(o))
            for x in obs[1:]:
                same_obs(ctx, {k: x[k] for k in ("lags", "delta_var", "delta_var_error")}, {k: obs[0][k] for k in ("lags", "delta_var", "delta_var_error")},
                         "weight-at-missing", rtol=1e-7)
            # data given at a weightless pixel have no influence
            ref = None
            for pv in POISON + (np.nan,):
                o = e.build({"data": np.where(m, pv, raw["data"]), "weights": np.where(m, 0., w)}, hdr)
                quiet(e, o, cfg)
                ctx.step()
                x = np.asarray(o.delta_var), np.asarray(o.delta_var_error)
                if ref is None:
                    ref = x
                else:
                    ctx.close(x[0], ref[0], "data-at-weightless", rtol=1e-6)
                    ctx.close(x[1], ref[1], "data-at-weightless", rtol=1e-6)
    elif stat == "PDF":
        comp = raw["data"][~m]
        w = 0.5 + np.abs(fx.img(sh, 5))
        edges = np.linspace(comp.min() - 1, comp.max() * w.max() + 1, 12)
        for wt in (None, w):
            want = e.build({"data": comp, "weights": None if wt is None else wt[~m]}, None)
            want.run(do_fit=False, bins=edges)
            todo = [({"data": miss["data"], "weights": wt})]
            if wt is not None:
                todo += [{"data": raw["data"], "weights": np.where(m, np.nan, wt)}, {"data": miss["data"], "weights": np.where(m, 1e6, wt)}]
            for t in todo:
                got = e.build(t, None)
                got.run(do_fit=False, bins=edges)
                ctx.step()
                same_obs(ctx, e.obs(got), e.obs(want), "pdf-compressed", rtol=1e-10, skip=("bins",))
    elif stat == "PCA":
        o = e.build(miss, hdr)
        o.run(show_progress=False, decomp_only=True, n_eigs=3)
        clean = e.build(raw, hdr)
        clean.run(show_progress=False, decomp_only=True, n_eigs=3)
        ctx.step(2)
        C = np.asarray(o.cov_matrix)
        d = miss["data"]
        ok = np.isfinite(d)
        nz = sh[0]
        want = np.zeros((nz, nz))
        for i in range(nz):
            for j in range(nz):
                g = ok[i] & ok[j]
                want[i, j] = (d[i][g] * d[j][g]).mean() if g.any() else 0.
        ctx.close(C, want, "pca-pairwise", rtol=1e-9)
        ctx.check(np.isfinite(o.eigvals).all(), "finite")
        # eigenimages: missing voxels contribute nothing
        vec = np.linalg.eigh(want)[1][:, ::-1][:, :3]
        z = np.where(ok, d, 0.)
        img = np.abs(np.einsum("kij,ke->eij", z, vec))
        got = np.abs(np.asarray(o.eigimages(3)))
        if got.shape == img.shape and np.diff(np.linalg.eigvalsh(want)[::-1][:4]).max() < -1e-6 * abs(want).max():
            ctx.close(got, img, "eigimages", rtol=1e-6)
    elif stat == "Dendrogram_Stats":
        deltas = np.linspace(0.1, 2.5, 5)
        par = {"min_npix": 2, "min_value": 0.5, "min_delta": 0.1}
        res = []
        for pv in (np.nan, 0.5, -1e6, 0.):
            o = e.build({"data": np.where(m, pv, raw["data"])}, hdr, min_deltas=deltas.copy(), dendro_params=dict(par))
            o.compute_dendro()
            ctx.step()
            res.append((np.asarray(o.numfeatures), [np.sort(v) for v in o.values]))
        for r in res[1:]:
            ctx.check((r[0] == res[0][0]).all(), "dendro-features", "%s vs %s" % (r[0], res[0][0]))
            ctx.check(all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(r[1], res[0][1])), "dendro-peaks")
        # autoset deltas too
        a = e.build({"data": np.where(m, np.nan, raw["data"])}, hdr, min_deltas=deltas.copy(), dendro_params=dict(par))
        b = e.build({"data": np.where(m, -5., raw["data"])}, hdr, min_deltas=deltas.copy(), dendro_params=dict(par))
        a.autoset_min_deltas(num=4)
        b.autoset_min_deltas(num=4)
        ctx.close(a.min_deltas, b.min_deltas, "dendro-autoset", rtol=1e-12)
    else:
        # SCF, StatMoments, Genus, Tsallis: their own properties give the values; here: no contamination
        o = e.build(miss, hdr)
        r = quiet(e, o, RUN[stat])
        c = e.build(raw, hdr)
        rc = quiet(e, c, RUN[stat])
        ctx.step(2)
        ctx.check(r is None or rc is not None, "refused", repr(r))
        if r is None and rc is None and kind in ("pix", "vox"):
            a, b = dict(flat(e.obs(o))), dict(flat(e.obs(c)))
            for k in b:
                if k.lstrip(".").split("[")[0] in ("mean_array", "variance_array", "skewness_array", "kurtosis_array", "lag_arrays", "lag_distribs", "tsallis_stderrs", "slope_err"):
                    continue
                if a.get(k) is None or b[k] is None:
                    continue
                x, y = np.asarray(getattr(a[k], "value", a[k]), float), np.asarray(getattr(b[k], "value", b[k]), float)
                if x.shape == y.shape:
                    ctx.check(not (np.isnan(x) & np.isfinite(y)).any(), "contaminated" + k)
        if stat == "Tsallis":
            # the increments that do not touch a missing pixel are there
            for got, want in zip(o.lag_arrays, c.lag_arrays):
                ctx.check(np.isfinite(got).any() or m.sum() > 0.3 * m.size, "all-missing")
    ctx.state(stat, kind, tuple(arg))


# --- whatever is hidden behind a cube's mask has no influence ---------------------------------------------------
def gen_m(tier):
    for n in sorted(ENTRIES):
        if ENTRIES[n].ndim == 3 or n == "PDF":
            for kind in ("pix", "row", "block", "scatter", "chan", "voxscatter"):
                yield {"stat": n, "kind": kind}
    for n in ("Moments", "Cramer", "regrid", "moment_errs"):
        for kind in ("pix", "row", "block", "scatter", "chan", "voxscatter"):
            yield {"stat": n, "kind": kind}


def run_m(ctx, stat, kind):
    from spectral_cube import SpectralCube
    from astropy.io import fits
    e = ENTRIES.get(stat)
    sh = {"VCS": (12, 3, 4), "PDF": (3, 4, 5)}.get(stat, (6, 8, 9))
    hdr = fx.hdr3(sh)
    base = fx.cube(sh, 2)
    m = mask(sh, kind, [7] if kind == "pix" else [2])
    ref = None
    for pv in POISON + (np.nan, 3.3):
        hidden = SpectralCube.read(fits.PrimaryHDU(np.where(m, pv, base), hdr))
        cube = hidden.with_mask(~m)
        if stat == "Cramer":
            from turbustat.statistics import Cramer_Distance
            o = Cramer_Distance(cube, (fx.cube(sh, 3), hdr)).distance_metric()
            got = {"d": o.distance, "m": o.data_matrix1}
        elif stat == "Moments":
            from turbustat.moments import Moments
            mm = Moments(cube)
            mm.make_moments()
            mm.make_moment_errors()
            got = {k: np.asarray(getattr(mm, k).value if hasattr(getattr(mm, k), "value") else getattr(mm, k)) for k in
                   ("moment0", "moment1", "linewidth", "moment0_err", "moment1_err", "linewidth_err")}
        elif stat == "moment_errs":
            from turbustat.moments import Moments
            mm = Moments(cube, scale=0.2 * u.K)
            mm.make_moments()
            mm.make_moment_errors()
            got = {k: np.asarray(getattr(mm, k).value) for k in ("moment0", "moment1", "linewidth", "moment0_err", "moment1_err", "linewidth_err")}
        elif stat == "regrid":
            from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
            c2 = spectral_regrid_cube(cube, 1000 * u.m / u.s)
            got = {"data": np.asarray(c2.filled_data[:].value)}
        else:
            kw = {}
            o = e.build({"data": cube}, None, **kw)
            quiet(e, o, RUN[stat])
            got = e.obs(o)
        ctx.step()
        if ref is None:
            ref = got
            continue
        same_obs(ctx, got, ref, "hidden", rtol=1e-9, skip=("eigimages_abs",) if stat == "PCA" else ())
    ctx.state(stat, kind)


# --- distances -------------------------------------------------------------------------------------------------------
def gen_d(tier):
    for n in sorted(DENTRIES):
        for kind in ("pix", "row", "scatter"):
            for side in (1, 2, 3):
                yield {"dist": n, "kind": kind, "side": side}


def run_d(ctx, dist, kind, side):
    de = DENTRIES[dist]
    a, b = de.data(1), de.data(2)

    def hole(d):
        def one(t):
            arr, h = t
            arr = np.array(arr, float)
            return (np.where(mask(arr.shape, kind, [25] if kind == "pix" else [2]), np.nan, arr), h)
        if isinstance(d, dict):
            return {k: one(v) for k, v in d.items()}
        return one(d)
    x = hole(a) if side & 1 else a
    y = hole(b) if side & 2 else b
    v = de.vals(de.dist(x, y))
    ctx.step()
    w = de.vals(de.dist(a, b))
    for k in w:
        if np.isfinite(w[k]).all():
            ctx.check(np.isfinite(v[k]).all(), "distance-contaminated", "%s is %r, without missing data %r" % (k, v[k], w[k]))
    z = de.vals(de.dist(hole(a), hole(a)))
    for k in z:
        ctx.check(abs(z[k]) < (2e-4 if dist.startswith("Cramer") else 1e-6), "distance-self", "%s %r" % (k, z[k]))
    ctx.state(dist, kind, side)


FAMILIES = {
    "patterns": Family(gen_p, run_p, "14 statistics x every single missing pixel (quick: every 5th of the larger maps), row, column, block, frame, scatter, voxel and channel patterns; "
                       "MVC: every subset of the three maps; VCS: both signs; DeltaVariance and PDF: values hidden behind zero or missing weight"),
    "masked": Family(gen_m, run_m, "masked spectral cubes x 6 mask shapes x 5 hidden values, all cube statistics, Moments, Cramer and channel regridding"),
    "distances": Family(gen_d, run_d, "14 distance metrics x 3 patterns x which data set has missing values"),
}
