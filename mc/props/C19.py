"""PCA: covariance, eigen-decomposition, eigenimages, autocorrelations, widths and the size-line width relation follow their definitions."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

ASSUMPTIONS = ["eigenvectors are compared up to sign and only for well separated eigenvalues",
               "widths are judged for the default methods (contour, walk-down), on autocorrelations that are exact Gaussians or ellipses, where the answer is known"]


def cov_ref(d, mean_sub):
    n = d.shape[0]
    c = np.zeros((n, n))
    f = d.reshape(n, -1)
    for i in range(n):
        for j in range(n):
            a, b = f[i], f[j]
            if mean_sub:
                a = a - (np.nanmean(a) if np.isfinite(a).any() else np.nan)
                b = b - (np.nanmean(b) if np.isfinite(b).any() else np.nan)
            ok = np.isfinite(a) & np.isfinite(b)
            k = ok.sum() - (1. if mean_sub else 0.)
            s = (a[ok] * b[ok]).sum()
            c[i, j] = s / k if k > 0 else 0.
    return c


def mk(shape, k, nan):
    d = fx.cube(shape, k)
    if nan == "voxels":
        d.ravel()[3::7] = np.nan
    elif nan == "spectra":
        d[:, ::3, 1::2] = np.nan
    elif nan == "channel":
        d[1] = np.nan
    elif nan == "corner":
        d[:2, 0, 0] = np.nan
        d[2:, -1, -1] = np.nan
    return d


SHAPES = ((5, 4, 7), (6, 7, 4), (8, 5, 5), (3, 9, 2))


def gen_c(tier):
    for s in SHAPES if tier == "quick" else SHAPES + ((12, 6, 9), (7, 3, 3), (4, 12, 5)):
        for k in range(2 if tier == "quick" else 5):
            for nan in ("none", "voxels", "spectra", "channel", "corner"):
                for ms in (False, True):
                    yield {"shape": list(s), "k": k, "nan": nan, "mean_sub": ms}


def run_c(ctx, shape, k, nan, mean_sub):
    from turbustat.statistics import PCA
    shape = tuple(shape)
    d = mk(shape, k, nan)
    n = shape[0]
    with np.errstate(all="ignore"):
        C = cov_ref(d, mean_sub)
    lam = np.sort(np.linalg.eigvalsh(C))[::-1]
    for ne in list(range(1, n + 1)) + [-1]:
        o = PCA((d.copy(), fx.hdr3(shape)))
        o.compute_pca(mean_sub=mean_sub, n_eigs=ne, show_progress=False)
        ctx.step()
        ctx.close(o.cov_matrix, C, "covariance", rtol=1e-9)
        N = n if ne == -1 else ne
        ctx.check(o.n_eigs == N, "n-eigs", "%s for %s" % (o.n_eigs, ne))
        ctx.close(o.eigvals, lam, "eigvals", rtol=1e-9, scale=np.abs(lam).max())
        V = o.eigvecs
        ctx.close(C.dot(V), V * lam, "eigvecs", rtol=1e-8, scale=np.abs(lam).max())
        ctx.close(V.T.dot(V), np.eye(n), "orthonormal", rtol=1e-9)
        first = 0 if mean_sub else 1
        ctx.close(o.total_variance, lam[first:].sum(), "total", rtol=1e-9, scale=np.abs(lam).sum())
        if abs(lam[first:].sum()) > 1e-9 * np.abs(lam).sum():
            ctx.close(o.var_proportion, lam[first:N].sum() / lam[first:].sum(), "proportion", rtol=1e-6)
        # eigenimages: projections of the cube
        dd = d - (np.nanmean(d, axis=(1, 2))[:, None, None] if mean_sub else 0.)
        P = np.einsum("kyx,ki->iyx", np.nan_to_num(dd), V)
        for m in (None, 1, 2, n):
            img = o.eigimages(m)
            want = P[:N if m is None else m]
            ctx.close(img, want, "eigimages", rtol=1e-8, scale=np.abs(P).max(), msg="n_eigs=%s" % m)
            ac = o.autocorr_images(m)
            wac = []
            for im in want:
                F = np.fft.fft2(im)
                G = F - F.mean()
                wac.append(np.fft.fftshift(np.fft.ifft2(np.abs(G) ** 2).real))
            wac = np.array(wac)
            ctx.close(ac, wac, "autocorr-images", rtol=1e-8, scale=np.abs(wac).max())
            sp = o.autocorr_spec(m)
            F = np.fft.fft(V[:, :N if m is None else m], axis=0)
            F = F - F.mean(axis=0)
            ws = np.fft.ifft(np.abs(F) ** 2, axis=0).real
            ctx.close(sp, ws, "autocorr-spec", rtol=1e-8, scale=np.abs(ws).max())
            ctx.step(3)
        # the noise images: the last ones with a positive eigenvalue
        good = np.where(lam >= np.finfo(float).eps)[0]
        near = np.abs(lam - np.finfo(float).eps) < 1e-9 * np.abs(lam).max()
        if not near.any():
            for m in (1, 2, 10):
                idx = good[-m:]
                img = o.eigimages(-m)
                ctx.close(img, P[idx], "noise-images", rtol=1e-8, scale=np.abs(P).max())
                wac = 0.
                for im in P[idx]:
                    F = np.fft.fft2(im)
                    wac = wac + np.fft.fftshift(np.fft.ifft2(np.abs(F - F.mean()) ** 2).real)
                wac = wac / len(idx)
                ctx.close(o.noise_ACF(-m), wac, "noise-ACF", rtol=1e-8, scale=np.abs(wac).max())
                ctx.step(2)
    ctx.state(shape, k, nan, mean_sub)


# --- all NaN patterns of one small cube -----------------------------------------------------------------------
def gen_n(tier):
    for head in itertools.product((0, 1), repeat=3):
        for ms in (False, True):
            yield {"head": list(head), "mean_sub": ms, "n": 9 if tier == "quick" else 12}


def run_n(ctx, head, mean_sub, n):
    from turbustat.statistics import PCA
    base = fx.cube((3, 2, 2), 4)
    for tail in itertools.product((0, 1), repeat=n - 3):
        m = np.array(list(head) + list(tail) + [0] * (12 - n), bool).reshape(3, 2, 2)
        d = np.where(m, np.nan, base)
        if not np.isfinite(d).any():
            continue
        o = PCA((d, fx.hdr3((3, 2, 2))))
        o.compute_pca(mean_sub=mean_sub, n_eigs=2, show_progress=False)
        ctx.step()
        with np.errstate(all="ignore"):
            C = cov_ref(d, mean_sub)
        # pairs of channels with a single common pixel have no covariance: nothing divided by nothing
        fin = np.isfinite(d.reshape(3, -1))
        cnt = (fin[:, None, :] & fin[None, :, :]).sum(axis=2)
        okc = cnt > (1 if mean_sub else 0)
        ctx.close(np.where(okc, o.cov_matrix, 0.), np.where(okc, C, 0.), "covariance", rtol=1e-9)
        if not (mean_sub and (cnt == 1).any()):
            ctx.check(np.isfinite(o.eigvals).all(), "finite")
        ctx.state(tuple(m.ravel()), mean_sub)


# --- number of eigenvalues kept ---------------------------------------------------------------------------------
def gen_k(tier):
    for k in range(3 if tier == "quick" else 8):
        for ms in (False, True):
            yield {"k": k, "mean_sub": ms}


def run_k(ctx, k, mean_sub):
    from turbustat.statistics import PCA
    shape = (7, 5, 6)
    d = fx.cube(shape, k)
    lam = np.sort(np.linalg.eigvalsh(cov_ref(d, mean_sub)))[::-1]
    o = PCA((d, fx.hdr3(shape)))
    mids = [0.5 * (lam[i] + lam[i + 1]) for i in range(len(lam) - 1)]
    for i, t in enumerate(mids):
        o.compute_pca(mean_sub=mean_sub, min_eigval=t, show_progress=False)
        ctx.step()
        ctx.check(o.n_eigs == i + 1, "value-cut", "%s at %s of %s" % (o.n_eigs, t, lam))
    cum = np.cumsum(lam) / lam.sum()
    for i in range(len(lam) - 1):
        t = 0.5 * (cum[i] + cum[i + 1])
        o.compute_pca(mean_sub=mean_sub, min_eigval=t, eigen_cut_method="proportion", show_progress=False)
        ctx.step()
        ctx.check(o.n_eigs == i + 1, "proportion-cut", "%s at %s of %s" % (o.n_eigs, t, cum))
    o.compute_pca(mean_sub=mean_sub, min_eigval=cum[0] * 0.5, eigen_cut_method="proportion", show_progress=False)
    ctx.check(o.n_eigs == 1, "at-least-one")
    for bad in (dict(n_eigs=0), dict(n_eigs=-2), dict(n_eigs=8), dict(), dict(min_eigval=0.1, eigen_cut_method="x"), dict(min_eigval=lam[0] * 2)):
        try:
            o.compute_pca(show_progress=False, mean_sub=mean_sub, **bad)
            ctx.fail("accepted", str(bad))
        except (ValueError, Warning):
            ctx.step()
    ctx.state(k, mean_sub)


# --- widths -----------------------------------------------------------------------------------------------------
def gen_w(tier):
    for n in (24, 31):
        for w in (1.3, 2.0, 3.7, 5.1):
            yield {"n": n, "w": w}


def run_w(ctx, n, w):
    """Spectral widths of exact decreasing autocorrelations."""
    from turbustat.statistics.pca.width_estimate import WidthEstimate1D
    x = np.fft.fftfreq(n) * n
    curves = {"gauss": np.exp(-x ** 2 / w ** 2), "exp": np.exp(-np.abs(x) / w), "tri": np.maximum(1 - np.abs(x) / (w * np.e / (np.e - 1)), 0)}
    for amp in (1., 37., 1e-3):
        A = np.array([curves["gauss"], curves["exp"], curves["tri"], 2 * curves["gauss"]]).T * amp
        keep = A.copy()
        s, e = WidthEstimate1D(A, method="walk-down")
        ctx.step()
        ctx.check(np.array_equal(A, keep), "input")
        # linear interpolation between the two channels around 1/e
        want = []
        for y in keep.T:
            y = y / y.max()
            i = int(np.argmax(y < np.exp(-1)))
            want.append(x[i - 1] + (y[i - 1] - np.exp(-1)) / (y[i - 1] - y[i]))
        ctx.close(s, want, "walk-down", rtol=1e-9)
        ctx.close(s[2], w, "triangle", rtol=1e-6)
        ctx.check(np.abs(s[:2] - w).max() < 0.15, "true-width", "%s for %s" % (s, w))
        ctx.close(e, [0.5] * 4, "error")
        # never reaching 1/e gives no width
        s, e = WidthEstimate1D(np.ones((n, 2)), method="walk-down")
        ctx.check(np.isnan(s).all() and np.isnan(e).all(), "flat")
        # the other methods: the level between the channels before the first minimum, and a Gaussian fit
        A = np.array([curves["gauss"], curves["exp"], 2 * curves["gauss"]]).T * amp
        keep = A.copy()
        s, e = WidthEstimate1D(A, method="interpolate")
        ctx.step()
        ctx.check(np.array_equal(A, keep), "input")
        want = []
        for y in keep.T:
            y = y / y.max()
            i = int(np.argmax(y < np.exp(-1)))
            want.append(i - 1 + (y[i - 1] - np.exp(-1)) / (y[i - 1] - y[i]))
        ctx.close(s, want, "interpolate", rtol=1e-9)
        A = np.array([curves["gauss"], 2 * curves["gauss"]]).T * amp
        A = A * (1 + 1e-9 * np.cos(np.arange(n))[:, None])      # exactly zero residuals have no error estimate
        keep = A.copy()
        s, e = WidthEstimate1D(A, method="fit")
        ctx.step()
        ctx.check(np.array_equal(A, keep), "input")
        ctx.close(s, [w, w], "gaussian-fit", rtol=1e-5)
        ctx.check((e >= 0).all() and (e < 1e-3).all(), "gaussian-fit-error", e)
        # the error is the one of a least squares fit of the width alone
        A = keep * (1 + 0.02 * np.cos(2.1 * np.arange(n))[:, None])
        k = [i for i in range(1, n - 1) if A[i, 0] < A[i - 1, 0] and A[i, 0] <= A[i + 1, 0]]
        if k and k[0] >= 4:
            s, e = WidthEstimate1D(A.copy(), method="fit")
            ctx.step()
            for i in range(2):
                xs, ys = np.arange(k[0]).astype(float), A[:k[0], i]
                f = lambda W: A[0, i] * np.exp(-xs ** 2 / W ** 2)
                J = (f(s[i] * (1 + 1e-5)) - f(s[i] * (1 - 1e-5))) / (2e-5 * s[i])
                res = ys - f(s[i])
                ctx.check(abs(J.dot(res)) <= 1e-3 * np.sqrt(J.dot(J) * res.dot(res)), "fit-minimum", "width %s" % s[i])
                want = np.sqrt(res.dot(res) / (len(xs) - 1.) / J.dot(J))
                ctx.close(e[i], want, "fit-error", rtol=0.02, msg="width %s +- %s" % (s[i], e[i]))
        # a second peak beyond the first minimum does not count
        if n > 4 * w + 4:
            B = A + amp * 0.5 * (np.exp(-((x - n // 2) / 1.5) ** 2) + np.exp(-((x + n // 2) / 1.5) ** 2))[:, None]
            k = int([i for i in range(1, n - 1) if B[i, 0] < B[i - 1, 0] and B[i, 0] <= B[i + 1, 0]][0])
            if k > 2 * w:
                s, e = WidthEstimate1D(B, method="interpolate")
                y = B[:, 0] / B[:, 0].max()
                i = int(np.argmax(y < np.exp(-1)))
                ctx.close(s[0], i - 1 + (y[i - 1] - np.exp(-1)) / (y[i - 1] - y[i]), "interpolate-second-peak", rtol=1e-9)
                s, e = WidthEstimate1D(B, method="fit")
                ctx.check(abs(s[0] - w) < 0.15 * w, "fit-second-peak", "%s for %s" % (s, w))
    try:
        WidthEstimate1D(keep, method="nope")
        ctx.fail("bad-method", "")
    except ValueError:
        ctx.step()
    ctx.state(n, w)


def gen_x(tier):
    for shape in ((40, 40), (41, 44), (36, 47)):
        for a, b in ((4., 4.), (6., 3.), (3.5, 5.5)):
            for th in (0., 0.6, 1.9):
                for meth in ("contour", "fit", "xinterpolate", "interpolate"):
                    if meth == "interpolate" and a != b:
                        continue    # radial interpolation is for round peaks
                    for noise in (0., 0.05):
                        yield {"shape": list(shape), "a": a, "b": b, "theta": th, "method": meth, "noise": noise}


def run_x(ctx, shape, a, b, theta, method, noise):
    from turbustat.statistics.pca.width_estimate import WidthEstimate2D
    ny, nx = shape
    y = np.fft.fftshift(np.fft.fftfreq(ny) * ny)[:, None]
    x = np.fft.fftshift(np.fft.fftfreq(nx) * nx)[None, :]
    U = x * np.cos(theta) + y * np.sin(theta)
    W = -x * np.sin(theta) + y * np.cos(theta)
    # autocorrelation of a Gaussian of dispersion (a, b): exp(-r2 / 4 s2); 1/e at r = 2 s
    acf = np.exp(-(U / a) ** 2 - (W / b) ** 2)
    if "interp" in method:      # no exact ties between pixels
        acf = acf + 1e-5 * np.cos(np.arange(acf.size) * 37.7).reshape(acf.shape)
    N = noise * np.ones_like(acf)
    np.random.seed(0)
    keep = acf.copy()
    for amp in (1., 13.):
        got, err = WidthEstimate2D([amp * (acf + N), 3 * amp * acf + amp * N], noise_ACF=amp * N, method=method, brunt_beamcorrect=False)
        ctx.step()
        want = np.sqrt(a ** 2 + b ** 2) / np.sqrt(2.)
        ctx.close(got, [want] * 2, "width", rtol=0.02)
        if method == "contour":
            ctx.check(np.isfinite(err).all() and (err >= 0).all(), "error", err)
        # beam: the width of the beam is taken off each axis
        for bp in (1.5, 3.):
            for cd in (0.01 * u.deg, 30 * u.arcsec):
                fw = bp * cd
                np.random.seed(0)
                g2, e2 = WidthEstimate2D([amp * acf], method=method, brunt_beamcorrect=True, beam_fwhm=fw, spatial_cdelt=cd)
                off = 0.25 * bp / np.sqrt(8 * np.log(2)) / np.sqrt(2)
                w2 = np.hypot(a / np.sqrt(2) - off, b / np.sqrt(2) - off)
                ctx.close(g2, [w2], "beam-corrected", rtol=0.02)
                ctx.step()
    ctx.check(np.array_equal(acf, keep), "input")
    for bad in (dict(method="nope"), dict(brunt_beamcorrect=True), dict(brunt_beamcorrect=True, beam_fwhm=3 * u.pc, spatial_cdelt=1 * u.deg),
                dict(brunt_beamcorrect=True, beam_fwhm=3 * u.deg, spatial_cdelt=1 * u.pc)):
        try:
            WidthEstimate2D([acf], **bad)
            ctx.fail("accepted", str(bad))
        except ValueError:
            ctx.step()
    ctx.state(shape, a, b, theta, method, noise)


# --- ellipse fits -----------------------------------------------------------------------------------------------
def gen_e(tier):
    for xc, yc in ((0., 0.), (3., -2.)):
        for a, b in ((5., 2.), (2., 5.), (4., 3.9), (10., 1.)):
            for th in np.linspace(0., 3., 7):
                yield {"xc": xc, "yc": yc, "a": a, "b": b, "theta": float(th)}


def run_e(ctx, xc, yc, a, b, theta):
    from turbustat.statistics.stats_utils import EllipseModel
    t = np.linspace(0, 2 * np.pi, 23)[:-1] + 0.05
    for npt in (22, 11):
        tt = t[:npt * 2:2] if npt == 11 else t
        x = xc + a * np.cos(theta) * np.cos(tt) - b * np.sin(theta) * np.sin(tt)
        y = yc + a * np.sin(theta) * np.cos(tt) + b * np.cos(theta) * np.sin(tt)
        m = EllipseModel()
        ctx.check(m.estimate(np.vstack([x, y]).T), "estimate")
        ctx.step()
        p = m.params
        ctx.close(p[:2], [xc, yc], "centre", rtol=1e-6, atol=1e-6)
        ctx.close(sorted(p[2:4]), sorted([a, b]), "axes", rtol=1e-6)
        # same ellipse: every predicted point satisfies the equation
        q = m.predict_xy(np.linspace(0, 6, 17))
        U = (q[:, 0] - xc) * np.cos(theta) + (q[:, 1] - yc) * np.sin(theta)
        W = -(q[:, 0] - xc) * np.sin(theta) + (q[:, 1] - yc) * np.cos(theta)
        ctx.close((U / a) ** 2 + (W / b) ** 2, np.ones(17), "orientation", rtol=1e-5)
        r = m.residuals(np.vstack([x, y]).T)
        ctx.check(r.max() < 1e-4, "residuals", r.max())
    ctx.state(xc, yc, a, b, theta)


# --- the relation between sizes and line widths -------------------------------------------------------------------
def gen_f(tier):
    for k in range(4 if tier == "quick" else 10):
        for n in (5, 8):
            for beam in (False, True):
                for shape in ((14, 22, 22), (14, 20, 26)):
                    yield {"k": k, "n": n, "beam": beam, "shape": list(shape)}


def run_f(ctx, k, n, beam, shape):
    from turbustat.statistics import PCA
    import scipy.odr as odr
    d = fx.cube(tuple(shape), k)
    h = fx.hdr3(tuple(shape))
    np.random.seed(1)
    o = PCA((d, h))
    try:
        o.run(show_progress=False, n_eigs=n, brunt_beamcorrect=beam)
    except Warning as e:
        # too few usable widths is reported, not guessed
        ctx.check(np.isfinite(o.spatial_width().value).sum() < 2, "refused", str(e))
        return
    ctx.step()
    w, we = o.spatial_width().value, o.spatial_width_error().value
    v, ve = o.spectral_width().value, o.spectral_width_error().value
    ctx.check(w.shape == (n,) and v.shape == (n,), "shape")
    from turbustat.statistics.pca.width_estimate import WidthEstimate1D, WidthEstimate2D
    np.random.seed(1)
    wr, wer = WidthEstimate2D(o.autocorr_images(n), noise_ACF=o.noise_ACF(), brunt_beamcorrect=beam, beam_fwhm=0.03 * u.deg, spatial_cdelt=0.01 * u.deg)
    ctx.close(w, wr, "spatial", rtol=1e-6)
    ctx.close(v, WidthEstimate1D(o.autocorr_spec(n))[0], "spectral", rtol=1e-9)
    okw = np.sort(w[np.isfinite(w)])
    lims = [(None, None)]
    if okw.size > 3:
        lims += [(0.5 * (okw[0] + okw[1]), None), (None, 0.5 * (okw[-1] + okw[-2]))]
    for lo, hi in lims:
        m = np.isfinite(w) & np.isfinite(v) & np.isfinite(we) & np.isfinite(ve)
        if lo is not None:
            m &= w >= lo
        if hi is not None:
            m &= w <= hi
        if m.sum() < 3 or (we[m] == 0).any():
            continue
        o.fit_plaw(xlow=None if lo is None else lo * u.pix, xhigh=None if hi is None else hi * u.pix)
        ctx.step()
        x, y = np.log10(w[m]), np.log10(v[m])
        xe, ye = 0.434 * we[m] / w[m], 0.434 * ve[m] / v[m]
        out = odr.ODR(odr.RealData(x, y, sx=xe, sy=ye), odr.Model(lambda B, t: B[0] * t + B[1]), beta0=np.polyfit(x, y, 1)).run()
        if out.info > 3:
            continue
        ctx.close(o.index, out.beta[0], "index", rtol=1e-3, atol=1e-4)
        ctx.close(o.intercept().value, 10 ** out.beta[1], "intercept", rtol=1e-3)
        ctx.close(o.index_error_range, [out.beta[0] - out.sd_beta[0], out.beta[0] + out.sd_beta[0]], "index-range", rtol=1e-2)
        ctx.close(np.log10(o.intercept_error_range().value), [out.beta[1] - out.sd_beta[1], out.beta[1] + out.sd_beta[1]], "intercept-range", rtol=1e-2)
        ctx.close(o.gamma, 1.52 * o.index - 0.19, "gamma", rtol=1e-9)
        lo_, hi_ = o.index_error_range
        ctx.close(o.gamma_error_range, [1.34 * lo_ - 0.39, 1.70 * hi_ + 0.01], "gamma-range", rtol=1e-9)
        xx = np.array([-0.3, 0., 1.2])
        ctx.close(o.model(xx), o.index * xx + np.log10(o.intercept().value), "model", rtol=1e-9)
    for bad in (dict(fit_method="nope"), dict(xlow=3.), dict(xhigh=3.), dict(xlow=1e5 * u.pix)):
        try:
            o.fit_plaw(**bad)
            ctx.fail("accepted", str(bad))
        except (TypeError, ValueError):
            ctx.step()
    ctx.state(k, n, beam, shape)


def gen_b(tier):
    for slope in (0.2, 0.7, 1.3):
        for n in (5, 12):
            for xe in (0.01, 0.1):
                for ye in (0.02, 0.1):
                    yield {"slope": slope, "n": n, "xe": xe, "ye": ye}


def run_b(ctx, slope, n, xe, ye):
    """The sampled line is the posterior of a line with errors in both coordinates."""
    from turbustat.statistics.fitting_utils import bayes_linear
    x = np.linspace(-0.3, 1.7, n)
    y = slope * x + 0.4 + ye * np.cos(np.arange(n) * 2.3)
    ex, ey = xe * (1 + 0.5 * np.cos(np.arange(n))), ye * (1 + 0.3 * np.sin(np.arange(n)))
    keep = [a.copy() for a in (x, y, ex, ey)]
    np.random.seed(4)
    pars, ints, samp = bayes_linear(x, y, ex, ey, nBurn=400, nSample=2500, return_samples=True)
    ctx.step()
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (x, y, ex, ey))), "input")
    th = np.linspace(0, np.pi / 2, 801)[1:-1]
    t = th[None, None, :]
    s0 = np.sqrt(ey.mean() ** 2 + (slope * ex.mean()) ** 2) / np.sqrt(n)
    b = np.linspace(0.4 - 14 * s0 - ye, 0.4 + 14 * s0 + ye, 401)[None, :, None]
    X, Y, EX, EY = (a[:, None, None] for a in (x, y, ex, ey))
    S = np.sin(t) ** 2 * EX ** 2 + np.cos(t) ** 2 * EY ** 2
    D = (np.cos(t) * (Y - b) - np.sin(t) * X) ** 2
    lp = (-0.5 * D / S - 0.5 * np.log(S)).sum(0)
    P = np.exp(lp - lp.max())

    def q(v, w, f):
        c = np.cumsum(w) / w.sum()
        return np.interp(f, c, v)
    sl = np.tan([q(th, P.sum(0), f) for f in (0.159, 0.5, 0.841)])
    it = np.array([q(b.ravel(), P.sum(1), f) for f in (0.159, 0.5, 0.841)])
    for k, w in enumerate((sl, it)):
        sd = (w[2] - w[0]) / 2
        ctx.check(abs(pars[k] - w[1]) < 0.35 * sd, "bayes-value", "%s: %s for %s" % (("slope", "intercept")[k], pars[k], w))
        ctx.check(np.abs(ints[k] - w[[0, 2]]).max() < 0.4 * sd, "bayes-interval", "%s: %s for %s" % (("slope", "intercept")[k], ints[k], w))
        ctx.close(np.median(samp[k]), pars[k], "bayes-samples", rtol=1e-9)
        ctx.close(np.percentile(samp[k], [15.9, 84.1]), ints[k], "bayes-samples", rtol=1e-9)
    wide = (5, 95)
    np.random.seed(4)
    p2, i2 = bayes_linear(x, y, ex, ey, nBurn=400, nSample=2500, conf_interval=list(wide))
    ctx.close(p2, pars, "bayes-repeat", rtol=1e-9)
    for k in range(2):
        ctx.close(i2[k], np.percentile(samp[k], wide), "bayes-level", rtol=1e-9)
    ctx.state(slope, n, xe, ye)


def gen_s(tier):
    for k in range(3 if tier == "quick" else 8):
        for method in ("odr", "bayes"):
            yield {"k": k, "method": method}


def run_s(ctx, k, method):
    """Sonic length and its range from the fitted relation."""
    from turbustat.statistics import PCA
    import astropy.constants as const
    shape = (14, 22, 22)
    o = PCA((fx.cube(shape, k), fx.hdr3(shape)))
    np.random.seed(1)
    o.compute_pca(n_eigs=8)
    o.find_spatial_widths(brunt_beamcorrect=False)
    o.find_spectral_widths()
    kw = dict(nWalkers=8, nBurn=60, nSample=80) if method == "bayes" else {}
    np.random.seed(2)
    o.fit_plaw(fit_method=method, **kw)
    ctx.step()
    if method == "bayes":
        from turbustat.statistics.fitting_utils import bayes_linear
        w, we = o.spatial_width().value, o.spatial_width_error().value
        v, ve = o.spectral_width().value, o.spectral_width_error().value
        m = np.isfinite(w) & np.isfinite(v) & np.isfinite(we) & np.isfinite(ve)
        np.random.seed(2)
        pr, it, sm = bayes_linear(np.log10(w[m]), np.log10(v[m]), 0.434 * we[m] / w[m], 0.434 * ve[m] / v[m], return_samples=True, **kw)
        ctx.close(o.index, pr[0], "bayes-index", rtol=1e-6)
        ctx.close(o.index_error_range, it[0], "bayes-index", rtol=1e-6)
        ctx.close(o.intercept().value, 10 ** pr[1], "bayes-intercept", rtol=1e-6)
        ctx.close(o.intercept_error_range().value, 10 ** it[1], "bayes-intercept", rtol=1e-6)
    dv = abs(fx.hdr3(shape)["CDELT3"])
    cd = abs(fx.hdr3(shape)["CDELT2"])
    for T in (10., 40.):
        for mu in (1.36, 2.3):
            for ug in (True, False):
                cs = np.sqrt((const.k_B * T * u.K / (mu * const.m_p)).to(u.m ** 2 / u.s ** 2).value) / dv
                v0 = o.intercept().value
                al = o.gamma if ug else o.index
                rg = o.gamma_error_range if ug else o.index_error_range
                L = (cs / v0) ** (1. / al)
                if method == "odr":
                    dl = L / al * np.hypot(np.log(cs / v0) * (al - rg[0]) / al, 1 - o.intercept_error_range().value[0] / v0)
                    want = [L - dl, L + dl]
                else:
                    sl = sm[0] * 1.52 - 0.19 if ug else sm[0]
                    want = np.percentile((cs / 10 ** sm[1]) ** (1. / sl), [15, 85])
                for unit, f in ((u.pix, 1.), (u.arcsec, cd * 3600)):
                    l, r = o.sonic_length(T_k=T * u.K, mu=mu, use_gamma=ug, unit=unit)
                    ctx.step()
                    ctx.check(l.unit == unit and r.unit == unit, "sonic-unit", "%s %s" % (l.unit, r.unit))
                    ctx.close(l.value, L * f, "sonic", rtol=1e-4)
                    ctx.close(r.value, np.array(want) * f, "sonic-range", rtol=1e-3)
    ctx.state(k, method)


FAMILIES = {
    "decomposition": Family(gen_c, run_c, "cube shapes x contents x 5 missing-data patterns x mean subtraction x every number of eigenvectors"),
    "missing": Family(gen_n, run_n, "all 2^9 (thorough 2^12) missing-voxel patterns of a 3x2x2 cube x mean subtraction"),
    "cut": Family(gen_k, run_k, "every eigenvalue cut between consecutive eigenvalues, by value and by proportion; unusable requests"),
    "widths1d": Family(gen_w, run_w, "3 autocorrelation shapes x widths x lengths x amplitudes"),
    "widths2d": Family(gen_x, run_x, "elliptical autocorrelations: shapes x axes x angles x methods x noise x beams x pixel scales"),
    "ellipse": Family(gen_e, run_e, "exact ellipses: centres x axes x angles"),
    "relation": Family(gen_f, run_f, "cubes x numbers of eigenvectors x beam correction x shapes x limits"),
    "bayes": Family(gen_b, run_b, "3 slopes x 2 point counts x 4 error sizes, medians and intervals against the posterior on a grid"),
    "sonic": Family(gen_s, run_s, "3 (thorough 8) cubes x least-squares and sampled fits x 2 temperatures x 2 masses x index or gamma x 2 units"),
}
