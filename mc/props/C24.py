"""Bispectrum and bicoherence are the sums over sampled wavenumber triangles for every image, and slices average them."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

ASSUMPTIONS = ["the triangles are those drawn by numpy's legacy generator from the given seed, as the stored test values fix",
               "maps so elongated that a sampled wavenumber does not exist are outside the property"]


def dft2(a):
    out = np.asarray(a, complex)
    for ax in (0, 1):
        n = out.shape[ax]
        k = np.arange(n)
        out = np.moveaxis(np.tensordot(np.exp(-2j * np.pi * np.outer(k, k) / n), np.moveaxis(out, ax, 0), axes=(1, 0)), 0, ax)
    return out


def ref(d, n, seed, msub):
    d = np.where(np.isnan(d), 0., d)
    if msub:
        d = d - d.mean()
    F = dft2(d)
    ny, nx = d.shape
    r = np.random.RandomState(seed)
    B = np.zeros((ny // 2, nx // 2), complex)
    N = np.zeros((ny // 2, nx // 2))
    touched = np.zeros((ny, nx), bool)
    for k1 in range(ny // 2):
        for k2 in range(nx // 2):
            p1, p2 = r.uniform(0, 2 * np.pi, n), r.uniform(0, 2 * np.pi, n)
            for a, b in zip(p1, p2):
                i1 = int(k1 * np.cos(a)), int(k1 * np.sin(a))
                i2 = int(k2 * np.cos(b)), int(k2 * np.sin(b))
                i3 = int(k1 * np.cos(a) + k2 * np.cos(b)), int(k1 * np.sin(a) + k2 * np.sin(b))
                s = F[i1] * F[i2] * np.conj(F[i3])
                B[k1, k2] += s
                N[k1, k2] += abs(s)
                for i in (i1, i2, i3):
                    touched[i] = True
    return B, N, touched


def content(shape, kind, k=0):
    a = fx.img(shape, k)
    if kind == "nan":
        a[1, 2] = np.nan
        a[-1] = np.nan
    elif kind == "impulse":
        a = np.zeros(shape)
        a[1, 2] = 1.
    elif kind == "positive":
        a = np.exp(a)
    return a


def gen_b(tier):
    rng = (6, 7, 8, 9) if tier == "quick" else (6, 7, 8, 9, 10, 11, 12)
    for sh in itertools.product(rng, repeat=2):
        if abs(sh[0] - sh[1]) > 2:
            continue
        for c in ("gen", "nan", "impulse", "positive"):
            for seed in (1000, 3):
                for n in (1, 2, 25):
                    yield {"shape": list(sh), "content": c, "seed": seed, "n": n}


def run_b(ctx, shape, content, seed, n):
    from turbustat.statistics import Bispectrum
    shape = tuple(shape)
    d = globals()["content"](shape, content)
    for msub in (False, True):
        B, N, touched = ref(d, n, seed, msub)
        fmax = np.abs(dft2(np.where(np.isnan(d), 0., d))).max()
        for fftw in (False, True):
            o = Bispectrum(d.copy())
            o.run(show_progress=False, nsamples=n, seed=seed, mean_subtract=msub, use_pyfftw=fftw)
            ctx.step()
            # rounding in the transform is relative to its largest sample
            sc = max(fmax ** 3 * n, 1e-30)
            ctx.close(o.bispectrum.real, B.real, "bispectrum", rtol=1e-9, atol=1e-11 * sc)
            ctx.close(o.bispectrum.imag, B.imag, "bispectrum", rtol=1e-9, atol=1e-11 * sc)
            ok = N > 1e-7 * sc
            ctx.close(np.where(ok, o.bicoherence, 0), np.where(ok, np.abs(B) / np.where(ok, N, 1), 0), "bicoherence", atol=1e-6)
            ctx.check((np.asarray(o.bicoherence)[ok] <= 1 + 1e-9).all() and (np.asarray(o.bicoherence)[ok] >= 0).all(), "range")
            big = np.abs(B) > 1e-7 * sc
            ctx.close(np.where(big, o.bispectrum_logamp, 0), np.where(big, np.log10(np.where(big, np.abs(B), 1)), 0), "logamp", atol=1e-6)
            ctx.check(o.tracker.shape == shape and ((np.asarray(o.tracker) > 0) == touched).all(), "tracker")
    ctx.state(shape, content, seed, n)


# --- laws ------------------------------------------------------------------------------------------------
def gen_l(tier):
    for sh in ((8, 8), (9, 10), (12, 11)):
        for c in ("gen", "positive"):
            for law in ("scale", "negate", "const", "rng", "repeat"):
                yield {"shape": list(sh), "content": c, "law": law}


def run_l(ctx, shape, content, law):
    from turbustat.statistics import Bispectrum
    shape = tuple(shape)
    d = globals()["content"](shape, content, 2)

    def go(x, **k):
        o = Bispectrum(x)
        k.setdefault("nsamples", 10)
        o.run(show_progress=False, **k)
        ctx.step()
        return o
    a = go(d)
    if law == "scale":
        for s in (2., 1e-3, 1e4):
            b = go(d * s)
            ctx.close(b.bicoherence, a.bicoherence, "scale-bicoherence", atol=1e-8)
            ctx.close(np.abs(b.bispectrum), np.abs(a.bispectrum) * s ** 3, "scale-bispectrum", rtol=1e-8)
    elif law == "negate":
        b = go(-d)
        ctx.close(b.bicoherence, a.bicoherence, "negate", atol=1e-8)
        ctx.close(b.bispectrum.real, -a.bispectrum.real, "negate", rtol=1e-8)
    elif law == "const":
        x, y = go(d, mean_subtract=True), go(d + 5., mean_subtract=True)
        big = np.abs(x.bispectrum) > 1e-6 * np.abs(x.bispectrum).max()
        ctx.close(np.where(big, np.abs(y.bispectrum), 0), np.where(big, np.abs(x.bispectrum), 0), "const", rtol=1e-6)
    elif law == "rng":
        # neither reads nor moves the global random state
        np.random.seed(4)
        s0 = np.random.get_state()
        b = go(d)
        s1 = np.random.get_state()
        ctx.check((s0[1] == s1[1]).all() and s0[2] == s1[2], "rng-state")
        ctx.close(b.bispectrum.real, a.bispectrum.real, "rng", rtol=1e-12)
    else:
        for sd in (1, 2, 1000):
            x, y = go(d, seed=sd), go(d, seed=sd)
            ctx.check((x.bispectrum == y.bispectrum).all(), "repeat")
        ctx.check(not np.allclose(go(d, seed=1).bispectrum, go(d, seed=2).bispectrum), "seed-ignored")
    ctx.state(shape, content, law)


# --- slices --------------------------------------------------------------------------------------------------
def gen_s(tier):
    for sh in ((16, 16), (17, 20), (20, 16)):
        for v in ("bispectrum_logamp", "bicoherence"):
            for how in ("azimuthal", "radial"):
                for width in (1, 2, 3):
                    yield {"shape": list(sh), "value": v, "how": how, "width": width}


def bins_mean(x, v, edges):
    """admissible (mean, std) per bin; last edge inclusive."""
    out = []
    n = len(edges) - 1
    for b in range(n):
        core = (x > edges[b] + 1e-9) & (x < edges[b + 1] - 1e-9)
        lo, hi = np.abs(x - edges[b]) <= 1e-9, np.abs(x - edges[b + 1]) <= 1e-9
        opts = []
        for l in ((True,) if b == 0 else (True, False)):
            for h in ((True,) if b == n - 1 else (True, False)):
                m = core | (lo & l) | (hi & h)
                opts.append((v[m].mean(), v[m].std()) if m.any() else (np.nan, np.nan))
        out.append(opts)
    return out


def run_s(ctx, shape, value, how, width):
    from turbustat.statistics import Bispectrum
    from .. import refs
    shape = tuple(shape)
    o = Bispectrum(fx.img(shape, 1))
    o.run(show_progress=False, nsamples=20)
    arr = np.asarray(getattr(o, value))
    k1, k2 = np.mgrid[:arr.shape[0], :arr.shape[1]].astype(float)
    dist, th = np.hypot(k1, k2), np.arctan2(k1, k2)
    fin = np.isfinite(arr)
    if how == "azimuthal":
        bw = {1: 5., 2: 10., 3: 30.}[width]
        radii, dr = np.array([3., 5., 6.5]), np.array([1.5, 2., 3.])
        nb = int(np.floor(180. / bw))
        edges = np.linspace(0, np.pi, nb)
        for unit in (u.deg, u.rad):
            for multi in (True, False, "width"):
                if multi == "width":     # one width for every radius
                    out, masks = o.azimuthal_slice(radii, 2., bin_width=(bw * u.deg).to(unit), value=value, return_masks=True)
                    todo = list(zip(radii, [2.] * 3, masks))
                elif multi:
                    out, masks = o.azimuthal_slice(radii, dr, bin_width=(bw * u.deg).to(unit), value=value, return_masks=True)
                    todo = list(zip(radii, dr, masks))
                else:
                    out, masks = o.azimuthal_slice(5., 2., bin_width=(bw * u.deg).to(unit), value=value, return_masks=True)
                    todo = [(5., 2., masks[0])]
                if int(np.floor(np.pi / (bw * u.deg).to(u.rad).value)) != nb:
                    continue
                ctx.step()
                for r, w, mk in todo:
                    m = (dist >= r - w / 2.) & (dist <= r + w / 2.)
                    ctx.check((np.asarray(mk) == m).all(), "azim-mask")
                    c, mv, sv = out[r]
                    ctx.close(c, (edges[1:] + edges[:-1]) / 2, "azim-bins", rtol=1e-9)
                    opt = bins_mean(th[m & fin], arr[m & fin], edges)
                    refs.match_any(ctx, mv, [[q[0] for q in p] for p in opt], "azim-mean")
                    refs.match_any(ctx, sv, [[q[1] for q in p] for p in opt], "azim-std", rtol=1e-6)
    else:
        ts, dt = np.array([20., 45., 70.]), np.array([15., 20., 30.])
        nb = int(np.floor(dist.max() / width))
        edges = np.linspace(0, dist.max(), nb)
        for unit in (u.deg, u.rad):
            for multi in (True, False, "width"):
                if multi == "width":     # one width for every angle
                    out, masks = o.radial_slice((ts * u.deg).to(unit), (22. * u.deg).to(unit), bin_width=float(width), value=value, return_masks=True)
                    todo = list(zip(ts, [22.] * 3, (ts * u.deg).to(unit).value, masks))
                elif multi:
                    out, masks = o.radial_slice((ts * u.deg).to(unit), (dt * u.deg).to(unit), bin_width=float(width), value=value, return_masks=True)
                    todo = list(zip(ts, dt, (ts * u.deg).to(unit).value, masks))
                else:
                    out, masks = o.radial_slice((45.3 * u.deg).to(unit), (20. * u.deg).to(unit), bin_width=float(width), value=value, return_masks=True)
                    todo = [(45.3, 20., (45.3 * u.deg).to(unit).value, masks[0])]
                ctx.step()
                for t, w, key, mk in todo:
                    lo, hi = np.radians(t - w / 2.), np.radians(t + w / 2.)
                    if (np.abs(th - lo) < 1e-9).any() or (np.abs(th - hi) < 1e-9).any():
                        continue
                    m = (th >= lo) & (th <= hi)
                    ctx.check((np.asarray(mk) == m).all(), "radial-mask")
                    kk = [q for q in out if abs(q - key) < 1e-9]
                    if not ctx.check(len(kk) == 1, "radial-key", list(out)):
                        continue
                    c, mv, sv = out[kk[0]]
                    ctx.close(c, (edges[1:] + edges[:-1]) / 2, "radial-bins", rtol=1e-9)
                    opt = bins_mean(dist[m & fin], arr[m & fin], edges)
                    refs.match_any(ctx, mv, [[q[0] for q in p] for p in opt], "radial-mean")
                    refs.match_any(ctx, sv, [[q[1] for q in p] for p in opt], "radial-std", rtol=1e-6)
    bad = {"azim-width-no-unit": lambda: o.azimuthal_slice(5., 2., bin_width=5.),
           "azim-width-length": lambda: o.azimuthal_slice(5., 2., bin_width=5. * u.pix),
           "azim-lengths": lambda: o.azimuthal_slice(np.array([3., 5., 6.]), np.array([1., 2.])),
           "azim-value": lambda: o.azimuthal_slice(5., 2., value="nothing"),
           "radial-pix": lambda: o.radial_slice(45. * u.pix, 20. * u.deg),
           "radial-pix-width": lambda: o.radial_slice(45. * u.deg, 20. * u.pix),
           "radial-lengths": lambda: o.radial_slice(np.array([20., 45., 70.]) * u.deg, np.array([10., 20.]) * u.deg),
           "radial-value": lambda: o.radial_slice(45. * u.deg, 20. * u.deg, value="nothing")}
    for n, f in bad.items():
        try:
            f()
            ctx.fail("slice-refuse:" + n, "accepted")
        except (TypeError, ValueError, AttributeError, u.UnitsError):
            ctx.step()
    ctx.state(shape, value, how, width)


FAMILIES = {
    "triangles": Family(gen_b, run_b, "every shape 6..9 squared with aspect difference up to 2 (thorough 6..12) x contents x seeds x sample counts x mean subtraction x FFT backend"),
    "laws": Family(gen_l, run_l, "scaling, sign, constant offset, repeatability and random-state laws"),
    "slices": Family(gen_s, run_s, "azimuthal and radial slices x widths x units x scalar/array arguments"),
}
