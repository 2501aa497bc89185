"""Reference models: slow, boring, written from the documentation, plain numpy."""
import numpy as np


def dft_abs(a):
    """|DFT| by explicit summation along each axis (no FFT library)."""
    out = np.asarray(a, dtype=complex)
    for ax in range(out.ndim):
        n = out.shape[ax]
        k = np.arange(n)
        w = np.exp(-2j * np.pi * np.outer(k, k) / n)
        out = np.moveaxis(np.tensordot(w, np.moveaxis(out, ax, 0), axes=(1, 0)), 0, ax)
    return np.abs(out)


def freqs(n):
    """Sorted integer frequency numbers of an n point transform, as fractions k/n."""
    return np.arange(-(n // 2), (n - 1) // 2 + 1) / float(n)


def shift(a):
    """Move zero frequency to index n//2 along each axis."""
    for ax in range(a.ndim):
        a = np.roll(a, a.shape[ax] // 2, axis=ax)
    return a


def power2d(a):
    """Documented layout of ps2D: zero frequency centred, first axis reversed."""
    return shift(dft_abs(a) ** 2)[::-1]


def freq_grid(shape):
    """|frequency| for each element of power2d's layout."""
    fy, fx = np.meshgrid(freqs(shape[0]), freqs(shape[1]), indexing="ij")
    return fy[::-1], fx[::-1]


def window(kind, shape, alpha=0.3, beta=0.0):
    """Radial split cosine bell family."""
    if kind == "hanning":
        alpha, beta = 1.0, 0.0
    elif kind == "tukey":
        beta = 1.0 - alpha
    elif kind == "cosinebell":
        beta = 0.0
    cy, cx = (shape[0] - 1) / 2., (shape[1] - 1) / 2.
    half = (min(shape) - 1) / 2.
    rin = beta * half
    rt = int(np.floor(alpha * half))
    out = np.zeros(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            r = np.hypot(i - cy, j - cx)
            if r < rin:
                out[i, j] = 1.
            elif r > rin + rt:
                out[i, j] = 0.
            else:
                out[i, j] = 0.5 * (1 + np.cos(np.pi * (r - rin) / rt)) if rt else 1.
    return out


def radial_bins(dist, vals, edges, stddev=False, func=None, tol=1e-9):
    """Per bin: (list of admissible means, list of admissible std) -- pixels within
    tol of an interior edge may sit in either bin; the outer edges are inclusive."""
    from scipy.stats import t as tdist
    means, stds = [], []
    n = len(edges) - 1
    func = func or np.mean
    d = dist.ravel()
    v = vals.ravel()
    ok = np.isfinite(v)
    d, v = d[ok], v[ok]
    for b in range(n):
        lo, hi = edges[b], edges[b + 1]
        core = (d > lo + tol) & (d < hi - tol)
        alo = np.abs(d - lo) <= tol
        ahi = np.abs(d - hi) <= tol
        opts = []
        for ulo in ((True,) if b == 0 else (True, False)):
            for uhi in ((True,) if b == n - 1 else (True, False)):
                m = core | (alo if ulo else False) | (ahi if uhi else False)
                x = v[m]
                if x.size == 0:
                    opts.append((np.nan, np.nan))
                    continue
                mean = func(x)
                if not stddev:
                    opts.append((mean, np.nan))
                    continue
                if x.size <= 1:
                    opts.append((np.nan, np.nan))
                    continue
                s = x.std(ddof=1)
                a = tdist.ppf(1 - 0.15 / 2, x.size - 1) / np.sqrt(x.size)
                if a > 1:
                    s = s * a
                opts.append((mean, s))
        means.append([o[0] for o in opts])
        stds.append([o[1] for o in opts])
    return means, stds


def match_any(ctx, got, options, key, rtol=1e-8, msg=""):
    """got[i] must be close to one of options[i] (NaN matches NaN)."""
    ctx.validated += 1
    got = np.asarray(got, float)
    if got.shape != (len(options),):
        ctx.fail(key, "%s: %s values, expected %d" % (msg, got.shape, len(options)))
        return False
    allv = np.array([x for o in options for x in o])
    sc = np.nanmax(np.abs(allv)) if np.isfinite(allv).any() else 1.
    for i, o in enumerate(options):
        if not any((np.isnan(x) and np.isnan(got[i])) or
                   abs(x - got[i]) <= rtol * (abs(x) + 1e-6 * sc) for x in o):
            ctx.fail(key, "%s: bin %d is %r, expected one of %r" % (msg, i, got[i], sorted(set(o))))
            return False
    return True


# --- convolution by explicit summation ------------------------------------------------
def _odd(v):
    i = int(np.ceil(v))
    return i + 1 if i % 2 == 0 else i


def radial_kernel(func, size):
    h = size // 2
    y, x = np.mgrid[-h:h + 1, -h:h + 1]
    return func((x ** 2 + y ** 2).astype(float))


def gauss_kernel(std, size=None):
    k = radial_kernel(lambda r2: np.exp(-r2 / (2 * std ** 2)), size or _odd(8 * std))
    return k / k.sum()


def annulus_kernel(std, ratio):
    k = radial_kernel(lambda r2: np.exp(-r2 / (2 * (ratio * std) ** 2)) - np.exp(-r2 / (2 * std ** 2)), _odd(8 * std))
    return k / k.sum()


def ricker_kernel(a):
    return radial_kernel(lambda r2: (1 - r2 / (2 * a ** 2)) * np.exp(-r2 / (2 * a ** 2)), _odd(8 * a)) / (np.pi * a ** 4)


def convolve(img, kern, wrap):
    """out[p] = sum_d kern[d] img[p-d]; zero outside, or periodic.  A kernel that does not
    fit is applied on the zero-extended frame it needs (that frame is then periodic)."""
    ny, nx = img.shape
    hy, hx = kern.shape[0] // 2, kern.shape[1] // 2
    if wrap:
        fy, fx = max(ny, kern.shape[0]), max(nx, kern.shape[1])
        oy, ox = fy // 2 - ny // 2, fx // 2 - nx // 2
        big = np.zeros((fy, fx))
        big[oy:oy + ny, ox:ox + nx] = img
        out = np.zeros_like(big)
        for i in range(kern.shape[0]):
            for j in range(kern.shape[1]):
                out += kern[i, j] * np.roll(np.roll(big, i - hy, 0), j - hx, 1)
        return out[oy:oy + ny, ox:ox + nx]
    big = np.zeros((ny + 2 * hy, nx + 2 * hx))
    big[hy:hy + ny, hx:hx + nx] = img
    out = np.zeros((ny, nx))
    for i in range(kern.shape[0]):
        for j in range(kern.shape[1]):
            out += kern[i, j] * big[2 * hy - i:2 * hy - i + ny, 2 * hx - j:2 * hx - j + nx]
    return out


def pad0(a, n):
    out = np.zeros((a.shape[0] + 2 * n, a.shape[1] + 2 * n))
    out[n:n + a.shape[0], n:n + a.shape[1]] = a
    return out


def delvar(data, weights, lag, ratio=1.5, boundary="wrap", nan_treatment="fill", min_frac=0.01, preserve=False):
    """-> (convolved map, weight map, delta-variance, error)."""
    w0 = np.isfinite(data).astype(float) if weights is None else np.asarray(weights, float)
    wrap = boundary == "wrap"
    img, w = data * w0, w0
    if not wrap:
        n = int(lag)
        img, w = pad0(data, n) * pad0(w0, n), pad0(w0, n)
    if nan_treatment == "interpolate":
        # missing pixels are interpolated over in the image and in the weights alike
        w = np.where(np.isnan(img), np.nan, w)
    std = lag / (2 * np.sqrt(2))
    kern = (gauss_kernel(std), annulus_kernel(std, ratio))

    def conv(a, k):
        bad = ~np.isfinite(a)
        out = convolve(np.where(bad, 0., a), k, wrap)
        if nan_treatment == "interpolate":
            if wrap:
                ny, nx = a.shape
                fy, fx = max(ny, k.shape[0]), max(nx, k.shape[1])
                oy, ox = fy // 2 - ny // 2, fx // 2 - nx // 2
                m = np.ones((fy, fx))
                m[oy:oy + ny, ox:ox + nx] = ~bad
                cov = convolve(m, k, True)[oy:oy + ny, ox:ox + nx]
            else:
                cov = convolve((~bad).astype(float), k, False)
            out = np.where(cov < 2.3e-15, 0., out / np.where(cov == 0, 1, cov))
        return out

    wc, wa = conv(w, kern[0]), conv(w, kern[1])
    cut = min_frac * w0.max()
    wc = np.where(wc <= cut, np.nan, wc)
    wa = np.where(wa <= cut, np.nan, wa)
    arr = conv(img, kern[0]) / wc - conv(img, kern[1]) / wa
    wt = wc * wa
    if preserve:
        arr = np.where(np.isnan(img), np.nan, arr)
    c = arr - np.nanmean(arr)
    val = np.nansum(c ** 2 * wt) / np.nansum(wt)
    area = int(np.ceil(0.5 * np.pi * np.log(2) * lag ** 2))
    nind = np.sqrt(np.isfinite(c).sum() // area)
    with np.errstate(all="ignore"):
        err = np.sqrt(np.nansum(c ** 4 * wt) / np.nansum(wt) - val ** 2) / nind
    return arr, wt, val, err
